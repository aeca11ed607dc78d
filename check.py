#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--root DIR] [--only SCENARIO]

Decide one property of the quantities package in DIR (default /repo) from its
source.  Exit 0: it holds on everything that was decided.  Exit 1: violated,
with a VIOLATION line.  Exit 2: the analysis itself could not be carried out.
"""
import argparse
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--root', default='/repo')
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)
    sys.path.insert(0, HERE)
    sys.setrecursionlimit(20000)
    from qsa import runner
    sys.exit(runner.check(a.prop, a.tier, a.root, only=a.only, jobs=a.jobs, verbose=a.v))


main()
