#!/usr/bin/env python3
"""run.py <PROPERTY> [--tier quick|thorough] [--only GLOB]"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    a = ap.parse_args()
    from engine.driver import main
    rc = main(a.property, a.tier, a.only)
    sys.stdout.flush()
    os._exit(rc)
