#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--repo DIR]"""
import sys, os, warnings, threading
warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import argparse, importlib

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo')
    a = ap.parse_args()
    from tsa.check import Check
    import checks
    c = Check(a.property, a.tier, a.repo)
    mod, fn = checks.REGISTRY[a.property]
    getattr(importlib.import_module('checks.' + mod), fn)(c)
    return c.finish()

if __name__ == '__main__':
    sys.exit(main())
