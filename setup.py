#!/usr/bin/env python3
"""Set-up: nothing to install; checks that the compilers work and that the programs can be built."""
import os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
os.makedirs(os.path.join(V, 'build'), exist_ok=True)
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
r = subprocess.run(['g++', '--version'], stdout=subprocess.PIPE, text=True)
print(r.stdout.splitlines()[0] if r.returncode == 0 else 'no g++')
sys.exit(r.returncode)
