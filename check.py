#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]"""
import sys, os, importlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa"))
def main():
    pid = sys.argv[1]
    tier = "quick"
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    mod = importlib.import_module("checks." + pid.lower())
    import harness
    return harness.run_check(pid, mod.TITLE, mod.run, tier, getattr(mod, "LEVEL", "proof"), mod.TECHNIQUE)
if __name__ == "__main__":
    sys.exit(main())
