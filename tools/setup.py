#!/usr/bin/env python3
"""Warms the Go build cache; checks build what they need themselves."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib
chk = vlib.Check("setup")
try:
    chk.harness()
    chk.harness(race=True)
finally:
    chk.close()
print("ok")
