#!/usr/bin/env python3
"""Setup: nothing to prebuild (each check builds from /repo's current tree); verify that the tools are present."""
import shutil, sys, os
missing = [t for t in ('cmake', 'ninja') if not shutil.which(t)]
if not (shutil.which('g++-12') or shutil.which('g++')): missing.append('g++')
if not os.path.isdir('/usr/include/eigen3'): missing.append('eigen3')
if missing: print('missing: ' + ', '.join(missing)); sys.exit(1)
print('tools present'); sys.exit(0)
