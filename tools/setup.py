#!/usr/bin/env python3
"""Nothing is prebuilt: every check lowers and compiles /repo's current sources itself. This only confirms the tools."""
import shutil, subprocess, sys, os
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence'), exist_ok=True)
miss = [t for t in ('clang++', 'clang', 'gcc', 'python3-vt') if not shutil.which(t)]
if miss: print('missing tools:', miss); sys.exit(1)
sys.exit(subprocess.run(['python3-vt', '-c', 'import z3; print("z3", z3.get_version_string())']).returncode)
