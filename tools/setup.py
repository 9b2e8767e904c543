#!/usr/bin/env python3
"""Builds everything the checks need from the committed files, and checks the Java override of BigNat."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
os.makedirs(check.BUILD, exist_ok=True)
d = tempfile.mkdtemp(prefix="setup.", dir=check.BUILD)
try:
    check.build(d)
    code, out = check.tlc("MC_BigNat.cfg", "MC_BigNat.tla", d, {})
    if code != 0:
        print(out[-3000:])
        sys.exit(1)
finally:
    shutil.rmtree(d, ignore_errors=True)
print("ok")
