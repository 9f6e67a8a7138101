#!/usr/bin/env python3
"""Builds every harness from /repo's working tree (the checks rebuild what has changed)."""
import sys
sys.dont_write_bytecode = True
import run
from concurrent.futures import ThreadPoolExecutor
from props import BUILDS
bad = 0
with ThreadPoolExecutor(6) as ex:
    for n, (p, e) in zip(BUILDS, ex.map(run.build, BUILDS)):
        print(n, 'ok' if p else e); bad |= p is None
sys.exit(1 if bad else 0)
