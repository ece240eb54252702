"""entry point: check <ID> [--tier quick|thorough] [-v] [--only substring] | check replay FILE"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import argparse



def modules():
    import registry
    return registry.MODULES


if __name__ == "__main__":
    import env      # noqa
    import runner
    if len(sys.argv) > 2 and sys.argv[1] == "replay":
        sys.exit(runner.replay(sys.argv[2]))
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--only")
    a = ap.parse_args()
    sys.exit(runner.main(modules()[a.prop], a.prop, a.tier, a.v, a.only))
