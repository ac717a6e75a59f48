#!/usr/bin/env python3-vt
"""setup: the tools the checks need are present"""
import shutil, sys
import z3
for t in ('clang++-18', 'opt-18', 'g++'):
    if not shutil.which(t): sys.exit('missing ' + t)
print('ok, z3', z3.get_version_string())
