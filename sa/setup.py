#!/usr/bin/env python3
"""Build the MIR fact extractor and extract the facts of the current tree (checks do the same on demand)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts
crates, key, secs = facts.load()
print("facts of tree", key, "crates", sorted(crates), f"{secs:.1f}s")
