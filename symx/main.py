import os
import sys


def main():
    args = sys.argv[1:]
    prop = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    only, verbose = None, False
    while args:
        a = args.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--only":
            only = args.pop(0)
        elif a == "-v":
            verbose = True
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, here)
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    sys.setrecursionlimit(20000)
    from props.index import PROPS

    from symx import runner

    mod, assumptions = PROPS[prop]
    budget = 700 if tier == "quick" else 7200
    sys.exit(runner.run(prop, tier, mod, budget, assumptions=assumptions, only=only,
                        verbose=verbose))


if __name__ == "__main__":
    main()
