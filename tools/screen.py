"""
Development aid, see tools/mutate.py: some cases of every space, in one process.
Prints the check and the space that noticed something, or "survived".
"""
import importlib, itertools, json, os, signal, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'mc'))
import core
import resource
resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
sys.setrecursionlimit(1000)
CASES = int(os.environ.get('CASES', '150'))
only = os.environ.get('ONLY', '').split()
signal.signal(signal.SIGALRM, core._alarm)
try:
    core.setup_target()
    counts = {}
    costs = json.load(open(os.path.join(V, 'tools', 'costs.json')))
except Exception as e:
    print('caught by import', e)
    sys.exit(0)
real = sys.stdout
sys.stderr = open(os.devnull, 'w')
for i in only or ['%02d' % i for i in range(1, 35)]:
    try:
        module = importlib.import_module('checks.c' + i)
        spaces = module.spaces('quick')
    except Exception as e:
        print('C' + i, 'cannot be loaded', repr(e)[:100].replace('\n', ' '))
        sys.exit(0)
    for s in spaces:
        if s.name in ('instructions', 'hash-seeds', 'environments', 'processes', 'real') and not only:
            continue
        total = {name: n for name, bound, n in costs.get('C' + i, {}).get('quick', {}).get('spaces', [])}.get(s.name, 10000)
        stride = max(1, total // CASES)
        started = time.time()
        try:
            for case in itertools.islice(s.gen(), stride // 3, None, stride):
                outcome, why = core.run_case(s, case)
                if why is not None:
                    print('C' + i, s.name, json.dumps(case)[:200], file=real)
                    sys.exit(0)
                if time.time() - started > 6:
                    break
        except Exception as e:
            print('C' + i, s.name, 'enumeration', repr(e)[:100].replace('\n', ' '), file=real)
            sys.exit(0)
print('survived', file=real)
