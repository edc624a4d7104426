"""run.py <PROPERTY> [--tier quick|thorough] [--replay FILE]

Exit 0: the property held on everything explored.  Exit 1 with a VIOLATION
line: counterexample.  Exit 2: error of the harness itself.
"""
import argparse
import importlib
import json
import os
import sys
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

import core  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--replay', default=None)
    args = ap.parse_args()
    tier = args.tier or os.environ.get('VERIF_TIER') or 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    mod = importlib.import_module('checks.' + args.prop.lower())
    if args.replay:
        with open(args.replay) as f:
            v = json.load(f)
        print(v['what'])
        print(json.dumps(v['case'], indent=1))
        if hasattr(mod, 'replay'):
            return mod.replay(v['case'])
        return 0
    run = core.Run(args.prop, tier, seed,
                   getattr(mod, 'LEVEL', 'model_checking'))
    try:
        mod.check(run)
    except core.Enough:
        pass
    except BaseException as e:
        tb = traceback.format_exc()
        if isinstance(e, KeyboardInterrupt):
            raise
        # An exception raised by the code under test where the harness expects
        # none is a counterexample; anything else is an error of the harness.
        if core.raised_by_sut(tb):
            run.violation('unexpected-exception',
                          'unexpected exception from the code under test:\n'
                          + tb[-1500:], {'traceback': tb})
        else:
            sys.stderr.write(tb)
            return 2
    return run.finish()


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
