#!/usr/bin/env python3
"""Builds every check's executables from the committed files (checks rebuild whatever changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, defs
exes = {}
for c in defs.CHECKS.values():
    for e in c["exes"]:
        exes[e["name"]] = e
check.build(list(exes.values()))
