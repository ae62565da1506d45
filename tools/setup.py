#!/usr/bin/env python3
"""setup_cmd: verifies that the tools the checks need exist; the checks build everything from /repo themselves."""
import shutil, sys, os
miss = [t for t in ('g++', 'clang++', 'ar', 'setarch') if not shutil.which(t)]
if miss: print('missing tools:', miss); sys.exit(1)
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ('build', 'evidence', 'replay'): os.makedirs(os.path.join(H, d), exist_ok=True)
print('ok')
