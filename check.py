#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from pbt import checks


def main():
    if sys.argv[1:] == ["--setup"]:  # nothing is kept between runs: every check builds what it needs
        import shutil
        return 0 if shutil.which("g++") else 2
    a = argparse.ArgumentParser()
    a.add_argument("property")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a.add_argument("--replay")
    x = a.parse_args()
    return checks.get(x.property).main(x.tier, x.seed, x.replay)


if __name__ == "__main__":
    sys.exit(main())
