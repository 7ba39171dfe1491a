"""
Run under valgrind, with cases of C33: the documents are rendered, each in a
child process of its own, so that valgrind counts the instructions of each.
(What comes before is the same for all of them.)
"""
import gc
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
core.setup_target()
from checks import c33
from lib import make_parser

documents = [({}, [])] + [c33.instruction_document(case, n) for case in json.loads(sys.argv[1]) for n in case['sizes']]
gc.collect()
gc.disable()
for cfg, pieces in documents:
    child = os.fork()
    if child == 0:
        p = make_parser(cfg)
        for piece in pieces:
            p.feed(piece)
        p.close()
        os._exit(0)
    if os.waitpid(child, 0)[1] != 0:
        os._exit(1)
os._exit(0)
