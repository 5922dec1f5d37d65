#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] | check.py --replay FILE"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import harness, build
from importlib import import_module
a = sys.argv[1:]
def opt(n):
    if n in a:
        i = a.index(n); v = a[i+1]; del a[i:i+2]; return v
rp = opt("--replay"); tier = opt("--tier"); seed = opt("--seed")
try:
    if rp: rc = harness.replay_file(rp)
    else: rc = harness.main(import_module("checks." + a[0].lower()).CHECK, tier, seed)
except build.BuildError as e:
    print("ERROR build failed:", e); rc = 2
sys.stdout.flush()
sys.exit(rc)
