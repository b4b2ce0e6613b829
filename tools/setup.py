#!/usr/bin/env python3
"""Compiles every harness binary once, so that the checks only rebuild what changed."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import build, run, pyprop
for prop, specs in sorted(run.SPECS.items()):
    for variant in sorted({v for v, _ in specs}):
        run.binary(prop, variant)
        run.environment(prop, variant)
        print("built", prop, variant)
        sys.stdout.flush()
for variant, _ in pyprop.SPEC:
    pyprop.module(variant)
    print("built C15", variant)
