"""C34 Rendering has no effects but its result."""
import collections
import contextlib
import gc
import io
import itertools
import locale
import os
import random
import sys
import threading
import zlib

from core import COUNT, Space, Violation
from lib import *
from checks import c24

# Things that a document must never lead to. (An import at first use reads files of code.)
WATCHED = ('os.', 'socket.', 'subprocess.', 'shutil.', 'urllib.', 'ftplib.', 'http.', 'smtplib.', 'tempfile.', 'webbrowser.', 'pty.', 'signal.', 'sqlite3.', 'fcntl.', 'ctypes.', 'resource.', 'glob.')
HARMLESS = ('os.listdir', 'os.scandir', 'os.fwalk', 'os.walk')     # (done by imports)
armed = threading.local()
installed = False


def hook(event, args):
    if not getattr(armed, 'log', None) is None:
        if event == 'open':
            path, mode, flags = (list(args) + [None] * 3)[:3]
            name = os.fsdecode(path) if isinstance(path, (str, bytes)) else repr(path)
            writes = flags is not None and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
            if writes or not name.endswith(('.py', '.pyc', '.so')):
                armed.log.append('open {} {}'.format(name, 'for writing' if writes else 'for reading'))
        elif event in ('exec', 'compile', 'import', 'marshal.loads'):
            pass
        elif event.startswith(WATCHED) and event not in HARMLESS:
            armed.log.append('{} {!r}'.format(event, args)[:200])


class Stream(io.StringIO):
    pass


def modules():
    """Everything that is in the modules that the package uses, by identity."""
    import html
    import html.parser
    import inspect
    import re
    import string
    import textwrap
    import urllib.parse
    import cssselect
    import cssselect.parser
    import copy
    import builtins
    out = {}

    def note(where, name, v):
        out[where, name] = id(v)
        if (where, name) in CACHES:
            return
        # and what is in the containers there, up to a depth
        if isinstance(v, (list, dict, set, collections.deque, bytearray)):
            out[where, name, 'contents'] = contents(v)
    for m in (textwrap, html, html.parser, inspect, re, string, urllib.parse, cssselect, cssselect.parser, copy, collections, builtins):
        for k, v in vars(m).items():
            note(m.__name__, k, v)
    for c in (textwrap.TextWrapper, html.parser.HTMLParser, str, dict, re.Pattern):
        for k, v in vars(c).items():
            note(c.__name__, k, v)
    return out


CACHES = {('re', '_cache'), ('re', '_cache2'), ('urllib.parse', '__warningregistry__'), ('builtins', '_')}


def contents(v, depth=2):
    """What a container holds, as far as it can be told apart by identity."""
    if not depth or not isinstance(v, (list, dict, set)):
        return id(v)
    if isinstance(v, dict):
        return hash(tuple((id(k), contents(w, depth - 1)) for k, w in v.items()))
    if isinstance(v, list):
        return hash(tuple(contents(w, depth - 1) for w in v))
    return hash(frozenset(map(id, v)))


def process():
    return dict(
        environment=dict(os.environ), directory=os.getcwd(), locale=locale.setlocale(locale.LC_ALL), random=hash(random.getstate()), recursion=sys.getrecursionlimit(),
        path=list(sys.path), threads=threading.active_count(), gc=(gc.isenabled(), gc.get_threshold()), streams=(id(sys.stdin),), trace=(sys.gettrace(), sys.getprofile()),
        excepthook=id(sys.excepthook), displayhook=id(sys.displayhook), switch=sys.getswitchinterval(), hooks=len(sys.meta_path), umask=None)


def compare(before, after, info):
    for b, a in zip(before, after):
        changed = sorted(str(k) for k in set(a) | set(b) if a.get(k) != b.get(k))
        if changed:
            raise Violation('rendering changes the process around it: {}\n'.format(changed[:10]) + info)


def watch(pieces, cfg, quiet, full):
    global installed
    if not installed:
        installed = True
        first = modules(), process()
        render_html('<p>warm <a href="/up">up</a><img src="x">', dict(fmt='gophermap', host='h', link='footer'))
        compare(first, (modules(), process()), 'the first rendering: ')
        sys.addaudithook(hook)
    info = show(('source', ''.join(pieces)[:600]), ('config', cfg))
    before = (modules(), process()) if full else None
    out, err = Stream(), Stream()
    armed.log = []
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            p = make_parser(cfg)
            for piece in pieces:
                p.feed(piece)
            p.close()
            streams = sys.stdout is out and sys.stderr is err
    finally:
        log, armed.log = armed.log, None
    COUNT.runs += 1
    COUNT.events += len(TOKEN.findall(''.join(pieces))) + 1
    if log:
        raise Violation('rendering touches more than the document: {}\n'.format(log[:5]) + info)
    if out.getvalue():
        raise Violation('rendering prints to standard output: {!r}\n'.format(out.getvalue()[:300]) + info)
    if quiet and err.getvalue():
        raise Violation('rendering a document in which all tags match prints to standard error: {!r}\n'.format(err.getvalue()[:300]) + info)
    if not streams:
        raise Violation('rendering replaces the standard streams\n' + info)
    if full:
        compare(before, (modules(), process()), info)
    return p.parsed


CFGS = [dict(width=20), dict(width=9, optimise=False, link='after_block', img='footer'), dict(fmt='gophermap', host='h', link='footer', img='after_block', margin=[1, 1, 1, 1])]
LABELS = ['p', 'div', 'ul', 'ol', 'li', 'b', 'a', 'img', 'br', 'pre', 'code', 'blockquote', 'h2', 'dl', 'dt', 'dd', 'x', 'hr']


def trees(sizes):
    def gen():
        for size, labels in sizes:
            for f in forests(size, labels, ['t']):
                for c in range(len(CFGS)):
                    yield [f, c]
    return gen


def check_tree(case):
    f, c = case
    nodes = number_texts(f, LINKS, lambda i, leaf: ' some text{} '.format(i))
    return watch([to_html(nodes)], CFGS[c], True, True)


PATHS = ['/etc/passwd', 'file:///etc/passwd', 'file:etc', './README.md', 'http://localhost:70/x', 'gopher://localhost/1', 'ftp://localhost/', 'data:text/html,<p>', 'javascript:alert(1)', 'mailto:a@b', 'telnet://localhost', '~root', '$HOME/x', '|id', '`id`',
         '$(id)', '; id', '\\\\host\\share', '/dev/stdin', '-', 'CON', '{0.__class__}', '{tag.__init__.__globals__}', '%(x)s', "__import__('os').system('id')", '<!--#include file="/etc/passwd"-->', '<?php system("id") ?>', '<!ENTITY x SYSTEM "/etc/passwd">', '&x;',
         '\x1b]0;title\x07', '\x1b[2J']
HOLES = ['{}', '<a href="{}">t</a>', '<img src="{}" alt="{}">', '<a href="/x" title="{}">t</a>', '<p class="{}" id="{}">t</p>', '<link rel="stylesheet" href="{}">', '<script src="{}">x</script>', '<base href="{}"><a href="x">t</a>', '<iframe src="{}"></iframe>',
         '<object data="{}">t</object>', '<form action="{}"><input value="{}"></form>', '<pre>{}</pre>', '<meta http-equiv="refresh" content="0;url={}">', '<body background="{}">t', '<video src="{}"></video>', '<x-y {}>t</x-y>', '<style>@import "{}";</style>', '<!-- {} -->t',
         '<!DOCTYPE html SYSTEM "{}">t', '<?xml-stylesheet href="{}"?>t']


def hostile():
    for h in range(len(HOLES)):
        for p in range(len(PATHS)):
            for c in range(len(CFGS)):
                for escaped in (0, 1):
                    yield [h, p, c, escaped]


def check_hostile(case):
    h, p, c, escaped = case
    value = html.escape(PATHS[p]) if escaped else PATHS[p]
    return watch([HOLES[h].replace('{}', value)], CFGS[c], False, True)


def markup(tokens, n, exact):
    def gen():
        for k in range(n if exact else 1, n + 1):
            for seq in itertools.product(range(len(tokens)), repeat=k):
                for c in range(len(CFGS)) if k < 3 else (2,):
                    yield [list(seq), c]
    return gen


def check_markup(case):
    seq, c = case
    return watch([c24.MARKUP[i] for i in seq], CFGS[c], False, len(seq) < 3)


def check_broken(case):
    seq, c = case
    return watch([c24.BROKEN[i] for i in seq], CFGS[c], False, True)


def spaces(tier):
    t = tier == 'thorough'
    # The cases of C24 are judged by what they do besides
    c24.attempt = lambda source, cfg, chunks=None: watch(chunks or [source], cfg, False, True)
    others = [s for s in c24.spaces(tier) if s.name in (('addresses', 'widths', 'nested', 'deep', 'long', 'styles') if t else ('addresses', 'deep', 'long', 'styles'))]
    return others + [
        Space('trees', trees([(1, LABELS), (2, LABELS), (3, LABELS if t else ['p', 'li', 'a', 'b', 'pre', 'img'])] + ([(4, ['p', 'li', 'a', 'b'])] if t else [])), check_tree, 'all forests of up to {} nodes'.format(4 if t else 3)),
        words_space(c24.VOCABULARY_DOCS if t else c24.VOCABULARY_DOCS[:1], [CFGS[2]], t, judge=lambda source, cfg: watch([source], cfg, False, t or zlib.crc32(source.encode('utf-8', 'surrogatepass')) % 8 == 0)),
        Space('hostile', hostile, check_hostile, '{} texts that name files, hosts and commands in {} places'.format(len(PATHS), len(HOLES))),
        Space('markup', markup(c24.MARKUP, 3, False), check_markup, 'every sequence of up to 3 of {} tokens'.format(len(c24.MARKUP))),
        Space('broken', markup(c24.BROKEN, 2 if t else 1, False), check_broken, 'every sequence of up to {} of {} pieces of broken markup'.format(2 if t else 1, len(c24.BROKEN))),
    ]


ASSUMPTIONS = ["Files, processes and the network are watched through Python's audit events; the modules that the package uses by the identity of all their names."]
