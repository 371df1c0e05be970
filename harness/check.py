"""python3 harness/check.py C10: decides one property (VERIF_TIER)."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True

from harness import core  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else \
        os.environ.get('VERIF_TIER', 'quick')
    rep = core.Report(prop, tier)
    mod = importlib.import_module(f'harness.checks.{prop.lower()}')
    try:
        mod.run(rep, tier)
    except Exception as err:  # what no check expects of the code under test
        traceback.print_exc()
        rep.violate('failure', type(err).__name__, traceback.format_exc()[-2000:])
    sys.exit(rep.finish())


if __name__ == '__main__':
    main()
