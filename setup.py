#!/usr/bin/env python3
"""nothing to build: verifies that the tools the checks need are present"""
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, 'engine'))
import ir
import spec
ir._lib()
for t in (spec.CLANG, spec.OPT):
    subprocess.run([t, '--version'], check=True, stdout=subprocess.DEVNULL)
print('tools present')
