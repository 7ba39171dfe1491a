"""
Renders a part of the corpus of C32 in a process of its own and writes a digest
for each document: batch.py ORDER PART PARTS [FILE]
"""
import hashlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
core.setup_target()
from checks import c32

order, part, parts = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
if len(sys.argv) < 5:
    sys.stderr = open(os.devnull, 'w')
lines = c32.digests(order, part, parts)
with open(sys.argv[4], 'w') if len(sys.argv) > 4 else sys.stdout as f:
    f.write('\n'.join(lines) + '\n')
