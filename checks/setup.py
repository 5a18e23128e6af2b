"""Builds the harness variants once so that the checks start warm."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
import build

for v in build.VARIANTS:
    build.prepare(v)
