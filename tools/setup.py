#!/usr/bin/env python3-vt
"""nothing to build: checks that the tools the engine needs are present"""
import shutil, sys
import z3, mpmath
for t in ('/usr/bin/clang++-18', 'g++', 'cvc5', 'c++filt'):
    if not shutil.which(t): sys.exit('missing ' + t)
print('ok')
