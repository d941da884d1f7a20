#!/usr/bin/env python3
"""Build the symbolic executor and the bitcode once (every check does the same when they are absent)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
try:
    build.engine()
    build.bitcode('release')
except build.BuildError as e:
    print(e)
    sys.exit(1)
