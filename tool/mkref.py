#!/usr/bin/env python3
"""Writes the reference from /repo's working tree (after its instances were confirmed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import facts, ref
F = facts.load()
ref.save(F)
print(len(F.fns), "functions", os.path.getsize(ref.PATH), "bytes")
