#!/usr/bin/env python3
"""packseeds.py <directory of corpora, one per type> : writes harness/seeds/<TYPE>.bin"""
import os, struct, sys
src = sys.argv[1]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'seeds')
os.makedirs(out, exist_ok=True)
for t in sorted(os.listdir(src)):
    d = os.path.join(src, t)
    if not os.path.isdir(d): continue
    b = b''
    for f in sorted(os.listdir(d), key=lambda f: (os.path.getsize(os.path.join(d, f)), f)):
        x = open(os.path.join(d, f), 'rb').read()
        if len(x) > 4000: continue
        b += struct.pack('<I', len(x)) + x
    open(os.path.join(out, t + '.bin'), 'wb').write(b)
