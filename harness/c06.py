"""C06  Converting a block operator expression preserves its meaning (ii_convert)."""
import alg
from alg import setup
NOTE = ('Every program of the stack machine up to the length bound over three leaf matrices plus random deeper ones is replayed; entries are compared exactly. '
        'Bounded: small integer matrices, no distributed (MPI) runs.')
TRACE = 'BlockAlgTrace'
TECHNIQUE = ('TLA+ stack machine of operator expressions (BlockAlg): TLC enumerates programs, the real converter is replayed on '
             'them and its results are validated by TLC against the denotation')


def plan(ctx):
    return alg.plan(ctx, True, 6)


def run(case):
    return {'prog': lambda c: alg.run_prog(c, alg.ii_convert), 'bmat': lambda c: alg.run_bmat(c, alg.ii_convert),
            'bvec': lambda c: alg.run_bvec(c, alg.ii_convert)}[case['what']](case)
