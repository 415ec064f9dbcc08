#!/usr/bin/env python3
"""Verifies that the tools the checks need are present (nothing is kept: every check builds for itself)."""
import os, shutil, sys
need = ['clang++-18', 'llvm-ar-18', 'llvm-symbolizer-18', 'protoc']
miss = [n for n in need if not shutil.which(n)]
if not os.path.isdir('/repo/mpact/sim'):
    miss.append('/repo')
if miss:
    print('missing: ' + ', '.join(miss))
    sys.exit(1)
print('ok')
