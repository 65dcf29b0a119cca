#!/usr/bin/env python3
"""Warm the build cache and check the tools are there (checks rebuild by themselves when the sources differ)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness
for k in ("plain", "asan"): print(harness.build(k))
