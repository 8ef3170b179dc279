#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE] [--n CASES] [--secs S]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sim

def load(prop):
    if prop.startswith("R"):
        import repl_checks as m
    elif prop.startswith("S"):
        import server_checks as m
    else:
        import lib_checks as m
    return getattr(m, prop)()

if __name__ == "__main__":
    sys.exit(sim.main(load(sys.argv[1]), sys.argv[2:]))
