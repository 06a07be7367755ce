#!/opt/venv/bin/python
"""run.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != os.environ.get("VERIF_HASHSEED", "0"):
    os.environ["PYTHONHASHSEED"] = os.environ.get("VERIF_HASHSEED", "0")
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import argparse   # noqa: E402
import importlib  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--budget", type=float)
    a = ap.parse_args()
    from vlib import boot
    mod = importlib.import_module("vlib.props." + a.prop.lower())
    if getattr(mod, "NEEDS_LIBRARY", True):
        boot.load()
    from vlib import runner
    return runner.main(mod, a.tier, a.seed, a.replay, a.budget)


if __name__ == "__main__":
    sys.exit(main())
