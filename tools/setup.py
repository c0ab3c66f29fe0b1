#!/usr/bin/env python3-vt
"""Checks that the tools are there; nothing is built ahead (every check builds from /repo)."""
import os
import shutil
import subprocess
import sys
import z3
print('z3', z3.get_version_string())
for t in ('clang++-18', 'g++', 'aarch64-linux-gnu-g++', 'arm-linux-gnueabihf-g++'):
    if not shutil.which(t):
        print('missing', t)
        sys.exit(1)
print(subprocess.run(['clang++-18', '--version'], stdout=subprocess.PIPE, text=True).stdout.split('\n')[0])
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence'), exist_ok=True)
