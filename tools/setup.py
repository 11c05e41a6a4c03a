#!/usr/bin/env python3
"""Builds the drivers once, so that the checks only rebuild what changed."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import xtask
from vf import BINS, build, have_simd

ok = True
for kind, bins in BINS.items():
    if kind == "simd" and not have_simd():
        continue
    for b in bins:
        path, out = build(kind, b)
        if path is None:
            ok = False
            print(out[-3000:])
        else:
            print(f"built {kind} {b}")
print("built", xtask.build())
sys.exit(0 if ok else 2)
