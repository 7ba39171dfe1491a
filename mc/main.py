import importlib
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core

if sys.argv[1] == 'replay':
    with open(sys.argv[2]) as f:
        record = json.load(f)
    record['path'] = sys.argv[2]
    core.setup_target()
    sys.exit(core.replay(importlib.import_module('checks.' + record['property'].lower()), record))

if sys.argv[1] == 'selftest':
    # There is nothing to build: only see that the interpreter and the libraries are there.
    import cssselect, markdown, pygments
    import ref
    assert ref.render([['p', {}, ['a  b']]], {}) == '\na b\n', ref.render([['p', {}, ['a  b']]], {})
    print('ready')
    sys.exit(0)

prop = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
core.setup_target()
try:
    status = core.main(prop, importlib.import_module('checks.' + prop.lower()), tier)
except Exception as e:
    frames = traceback.extract_tb(e.__traceback__)
    if not frames[-1].filename.startswith(core.REPO + '/'):
        raise
    # Not even the preparations work with this code.
    why = 'preparing the check raised ' + ''.join(traceback.format_exception(e))
    core.report_violation(prop, tier, core.Space('preparation', None, None), 0, None, why, 'preparation:enumeration')
    status = 1
sys.exit(status)
