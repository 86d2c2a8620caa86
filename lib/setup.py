#!/usr/bin/env python3
"""Builds every engine once, so that the checks find the unchanged objects in the cache."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bmlbuild as B
for k in sorted(k for k in dir(B) if k.startswith("build_")):
    print(k, getattr(B, k)(None))
