"""
Make the seeded changes: python3 tools/plant.py [ID...]   (all that tools/bugs.py lists)
For each: a scratch copy of /repo is changed, the diff taken, the tests run, the
demonstration run with and without the change; kept in seeded/ID only if all is as it should be.
  python3 tools/plant.py check [ID...]   run the checks of the properties against the changes
"""
import json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
PY = '/opt/venv/bin/python'
PRE = '''import os, sys
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
import gopher_render
from gopher_render import GopherHTMLParser
from gopher_render import rendering as R
from gopher_render.rendering import *


def render(html, **kw):
    p = GopherHTMLParser(**kw)
    p.feed(html)
    p.close()
    return p.parsed


def expect(actual, expected):
    if actual != expected:
        print('expected', repr(expected))
        print('actual  ', repr(actual))
        sys.exit(1)


'''

def sh(*a, **kw):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def tests(w):
    # the same tests, in the scratch copy
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=w)
    r = sh(PY, '/opt/vp/run_pytest.py', '-q', '-p', 'no:cacheprovider', '--assert=plain', 'tests', cwd=w, env=env)
    import re
    return r.returncode == 0 and '48 passed' in r.stdout, ' '.join(re.findall('^FAILED.*|^[0-9].*', r.stdout, re.M))[-300:]

def plant(b):
    w = '/tmp/w-' + b['id']
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree('/repo', w, symlinks=True)
    try:
        blame = {}
        for f, old, new in b['edits']:
            path = os.path.join(w, 'gopher_render', f)
            s = open(path).read()
            if s.count(old) != 1:
                return 'edit of {} matches {} times: {!r}'.format(f, s.count(old), old[:80])
            open(path, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', w, 'diff', '-U3'], stdout=subprocess.PIPE, text=True).stdout
        notoriginal = []
        for f in {f for f, o, n in b['edits']}:
            zero = sh('git', '-C', w, 'diff', '-U0', 'gopher_render/' + f).stdout
            bl = sh('git', '-C', w, 'blame', '-s', 'HEAD', 'gopher_render/' + f).stdout.split('\n')
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', zero, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                if n == 0:
                    notoriginal.append('{}:{} only inserts'.format(f, a))
                for i in range(a, a + n):
                    if not bl[i - 1].startswith('^'):
                        notoriginal.append('{}:{}'.format(f, i))
        ok, out = tests(w)
        if not ok:
            return 'tests fail: ' + out
        d = os.path.join(V, 'seeded', b['id'])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(PRE + b['demo'].strip('\n') + '\n')
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        open(d + '/meta.json', 'a').write('\n')
        clean = sh('bash', d + '/demo.sh', cwd='/repo')
        bad = sh('bash', d + '/demo.sh', cwd=w)
        if clean.returncode != 0 or bad.returncode == 0:
            shutil.rmtree(d)
            return 'demo: clean {} patched {}\n{}\n--\n{}'.format(clean.returncode, bad.returncode, clean.stdout[-800:], bad.stdout[-800:])
        return 'ok' + (' NOT ORIGINAL: ' + ', '.join(notoriginal) if notoriginal else '')
    finally:
        shutil.rmtree(w)

def record(bug, prop, caught):
    path = os.path.join(V, 'tools', 'caught.json')
    d = json.load(open(path)) if os.path.exists(path) else {}
    props = set(d.get(bug, []))
    (props.add if caught else props.discard)(prop)
    d[bug] = sorted(props)
    json.dump(d, open(path, 'w'), indent=0, sort_keys=True)


def check(b, all_props):
    # In a mount namespace, where a changed copy lies over /repo and scratch
    # folders lie over what the checks write: /repo itself is left alone.
    d = os.path.join(V, 'seeded', b['id'])
    w = '/tmp/c-' + b['id']
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w + '/evidence')
    shutil.copytree('/repo', w + '/repo', symlinks=True)
    try:
        if sh('git', '-C', w + '/repo', 'apply', d + '/patch.diff').returncode:
            return 'does not apply'
        res = []
        props = [b['property']] if not all_props else ['C%02d' % i for i in range(1, 35)]
        for p in props:
            t = time.time()
            r = sh('unshare', '-Urm', 'bash', '-c', 'mount --bind {0}/repo /repo && mount --bind {0}/evidence {1}/evidence && mkdir -p {1}/replays && mount --bind {0}/evidence {1}/replays && exec bash {1}/run.sh {2} quick'.format(w, V, p))
            v = 'VIOLATION property=' + p in r.stdout
            record(b['id'], p, v and r.returncode == 1)
            res.append('{} {} {:.0f}s'.format(p, 'caught' if v and r.returncode == 1 else 'MISSED' if r.returncode == 0 else 'ERROR ' + r.stdout[-500:], time.time() - t))
            if v and not all_props:
                m = re.search(r'^--- .*', r.stdout, re.M)
                res.append(m.group(0)[:160])
        return '; '.join(res)
    finally:
        shutil.rmtree(w)

from bugs import BUGS
args = sys.argv[1:]
mode = 'plant'
if args and args[0] in ('check', 'checkall'):
    mode = args.pop(0)
ids = [b['id'] for b in BUGS]
assert len(set(ids)) == len(ids)
for b in BUGS:
    if args and b['id'] not in args:
        continue
    if mode == 'plant':
        print(b['id'], plant(b), flush=True)
    elif os.path.isdir(os.path.join(V, 'seeded', b['id'])):
        print(b['id'], check(b, mode == 'checkall'), flush=True)
