"""Runs cases of one property on the real code.  worker.py PROP CASES OUT"""
import json, sys, traceback, importlib, os


def main():
    prop, cf, of = sys.argv[1:4]
    try:
        mod = importlib.import_module(prop.lower())
        setup = getattr(mod, 'setup', None)
    except Exception:
        traceback.print_exc()
        sys.exit(3)
    out = open(of, 'a')
    if setup:
        setup()
    for line in open(cf):
        i, case = json.loads(line)
        try:
            trace = mod.run(case)
        except Exception as e:      # the driver itself lost track: report, never swallow
            traceback.print_exc()
            trace = [dict(ev='crash', how='%s: %s' % (type(e).__name__, str(e)[:200]))]
        out.write(json.dumps([i, trace]) + '\n')
        out.flush()
    out.close()
    # PETSc/dolfin teardown is irrelevant to the outcome
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
