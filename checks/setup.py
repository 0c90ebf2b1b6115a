#!/usr/bin/env python3
"""Nothing is kept between runs: checks build what they need.  This makes sure the tools are there."""
import os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import tla, vb
for t in ('meson', 'ninja', 'gcc', 'clang', 'java'):
    if not shutil.which(t):
        sys.exit('missing: ' + t)
for m in ('Decoder', 'Trace'):
    r = subprocess.run(['java', '-cp', tla.JAR, 'tla2sany.SANY', m + '.tla'], cwd=tla.SPEC, stdout=subprocess.PIPE, text=True)
    if r.returncode:
        sys.exit(r.stdout)
print('ok')
