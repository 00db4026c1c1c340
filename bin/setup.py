#!/usr/bin/env python3
"""Builds the rewriter and one check, so that a broken toolchain shows early."""
import os, shutil, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vrun
work = tempfile.mkdtemp(prefix="verif-setup-")
try:
    vrun.Build(work).build(vrun.CHECKS["C06"])
    print("setup: ok")
finally:
    shutil.rmtree(work, ignore_errors=True)
