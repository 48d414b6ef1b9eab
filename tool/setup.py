#!/usr/bin/env python3
"""Nothing is prebuilt: every check extracts and verifies from /repo on its own.  This only confirms that the tools are there."""
import shutil, subprocess, sys
for t in ('verus', 'clang++', 'g++'):
    if not shutil.which(t): print('missing tool', t); sys.exit(1)
print(subprocess.run(['verus', '--version'], stdout=subprocess.PIPE, text=True).stdout)
