"""C07  The non-recursive (graph rewriting) collapse agrees with the meaning of the expression."""
import alg
from alg import setup
NOTE = ('Every program of the stack machine up to the length bound over three leaf matrices plus random deeper ones is replayed; entries are compared exactly. '
        'Bounded: small integer matrices, no distributed (MPI) runs.')
TRACE = 'BlockAlgTrace'
TECHNIQUE = ('TLA+ stack machine of operator expressions with operand sharing (BlockAlg): TLC enumerates programs, the graph '
             'collapse is replayed on them and validated by TLC against the denotation')


def plan(ctx):
    return alg.plan(ctx, False, 6)


def run(case):
    return {'prog': lambda c: alg.run_prog(c, alg.monolithic), 'bmat': lambda c: alg.run_bmat(c, alg.monolithic, False),
            'bvec': lambda c: alg.run_bvec(c, alg.monolithic)}[case['what']](case)
