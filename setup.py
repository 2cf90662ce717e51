#!/usr/bin/env python3
"""Builds the extractor and the replay harness (checks rebuild both from /repo's current tree; this only fails early)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import verify as V
V.build_vx()
print("extractor built")
