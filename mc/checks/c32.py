"""C32 The same document gives the same result in every process."""
import fcntl
import hashlib
import itertools
import os
import pty
import struct
import subprocess
import sys
import tempfile
import termios
import threading

from core import COUNT, Space, Violation, VERIF
from lib import *

RULES = {'.a': [None, dict(capitalized=True)], '.b': [None, dict(capitalized=False)], '.a.b': [None, dict(margin=[0, 0, 0, 3])],
         '*': [None, dict(template='<{}>')], 'b, i, .b': [None, dict(template='={}=')], 'p p, div p': [None, dict(padding=[0, 0, 0, 1])],
         '[class~="c"]': ['InlineRenderer', dict(template='c{}')], 'li': [None, dict(justification='full')], '#i': [None, dict(underlined=True)],
         '[class="b a c"]': [None, dict(margin=[0, 0, 0, 2])], '[class^="c d a"]': [None, dict(template='^{}^')], '[class*=" b"]': [None, dict(template='{}*')]}
ANSI = {'b': ['AnsiEscapeCodeRenderer', dict(bold=True, italic=True, underline=True, foreground_colour='red', background_colour='#123456')],
        'code': ['AnsiEscapeCodeRenderer', dict(faint=True, reverse=True, framed=True, overline=True, font=3, normalise=True)]}
CFGS = [{}, dict(width=12, renderers=RULES), dict(width=20, renderers=ANSI, link='inline', optimise=False),
        dict(width=25, renderers=RULES, fmt='gophermap', host='h', link='after_block', img='footer'), dict(width=9, link='after_block', margin=[1, 1, 1, 1])]
SPEC = {'p': ('p', {'class': 'b a c', 'title': 't'}), 'b': ('b', {'class': 'a b'}), 'a': ('a', {'href': '/x.txt', 'title': 'T u'}), 'h2': ('h2', {'id': 'i'}),
        'i': ('i', {'class': 'c d a b'}), 'img': ('img', {'src': 'http://h/i.gif', 'alt': 'A long description'}), 'li': ('li', {'class': 'a'})}
LABELS = ['p', 'div', 'ul', 'ol', 'li', 'b', 'i', 'a', 'img', 'br', 'pre', 'code', 'blockquote', 'h2', 'dl', 'dt', 'dd', 'x-y']


# Names that links have, which are those of files and directories in one of the
# working directories
EXISTING = ['guide', 'notes.txt', 'pictures', 'a.gif', 'dir.txt', 'dir/', 'dir/index', 'data.d', './guide', 'README.md', 'file:guide', '~', '.', '..']


def working_directory(path):
    for name in ('guide', 'pictures', 'a.gif', 'data.d', 'README.md', 'notes.txt', 'index.html', 't', '1.txt', 'x.txt'):
        with open(os.path.join(path, name), 'w') as f:
            f.write('GIF89a<html>')
    for name in ('dir', 'dir.txt', '~', 'x', 'h:70'):
        os.mkdir(os.path.join(path, name))
    os.mkdir(os.path.join(path, 'dir', 'index'))


def corpus():
    """(configuration, document)"""
    for size in (1, 2):
        for f in forests(size, LABELS, ['t']):
            for c in range(len(CFGS)):
                yield c, to_html(number_texts(f, SPEC, lambda i, leaf: 'One two. Three{} '.format(i)))
    for f in forests(3, ['p', 'b', 'a', 'li', 'blockquote'], ['t']):
        yield len(f) % len(CFGS), to_html(number_texts(f, SPEC, lambda i, leaf: ' a\u00e9{} '.format(i)))
    for tag in ('</p>', '<br/>', '<p a=b c', '&amp &bogus; &#0;', '<!-- ', '<p><p></b>'):
        for c in range(len(CFGS)):
            yield c, 'x' + tag + 'y'
    for name in EXISTING:
        for t in ('<a href="{}">t</a>', '<img src="{}" alt="{}">'):
            yield 3, t.replace('{}', name)
    from checks import c24
    for source in c24.WIDE_DOCS:
        for c in range(len(CFGS)):
            yield c, source
    for n in (10, 40, 100):
        many = ' '.join('{}{}'.format('abcdefgh'[i % 8], i // 8 or '') for i in range(n))
        yield 1, '<p class="{0}" {0}>{0} <b class="{0}">x</b></p>'.format(many)
        yield 1, '<ol>' + '<li class="a b c">x y z<a href="/{0}">l</a></li>'.format(n) * n + '</ol>'
        yield 3, '<p>' + ''.join('<a href="/{}.txt">{}</a> '.format(i, i) for i in range(n)) + '</p>'
    from checks import c23
    for n, theme in enumerate(c23.themes()):
        for class_ in ('k', 'nf', 's', 'c1', 'mi', 'gd', 'hll'):
            yield theme, '<div class="highlight"><pre><span class="{}">a</span> b</pre></div>'.format(class_)


def one(cfg, source):
    if isinstance(cfg, str):
        from checks import c23
        from gopher_render import GopherHTMLParser
        p = GopherHTMLParser(renderers=c23.theme(cfg))
        p.feed(source)
        p.close()
        return p.parsed
    return render_html(source, CFGS[cfg])


def ordered(order, items):
    items = list(enumerate(items))
    if order == 'backward':
        return items[::-1]
    if order == 'shuffled':
        return [x for k in range(7) for x in items[k::7]]
    return items


def digests(order, part, parts):
    items = list(corpus())[part::parts]
    out = [None] * len(items)
    for i, (cfg, source) in ordered(order, items):
        out[i] = hashlib.blake2b(one(cfg, source).encode('utf-8', 'surrogatepass'), digest_size=8).hexdigest()
    return out


def drain(fd):
    try:
        while os.read(fd, 4096):
            pass
    except OSError:
        pass
    os.close(fd)


expected_cache = {}


def check(case):
    variant, part, parts = case['variant'], case['part'], case['parts']
    if (part, parts) not in expected_cache:
        expected_cache[part, parts] = digests('forward', part, parts)
    want = expected_cache[part, parts]
    env = dict(PATH=os.environ.get('PATH', ''), PYTHONDONTWRITEBYTECODE='1', PYTHONIOENCODING='utf-8', PYTHONHASHSEED=str(case['hashseed']), **variant.get('env', {}))
    command = [sys.executable, '-W', 'ignore'] + variant.get('flags', []) + [os.path.join(VERIF, 'mc', 'batch.py'), variant.get('order', 'forward'), str(part), str(parts)]
    with tempfile.TemporaryDirectory() as scratch:
        if variant.get('cwd') == 'files':
            os.mkdir(scratch + '/wd')
            working_directory(scratch + '/wd')
        cwd = scratch + '/wd' if variant.get('cwd') == 'files' else variant.get('cwd', '/')
        if variant.get('terminal'):
            # The standard streams are a terminal, the result goes to a file
            master, slave = pty.openpty()
            fcntl.ioctl(slave, termios.TIOCSWINSZ, struct.pack('HHHH', 6, 17, 0, 0))
            threading.Thread(target=drain, args=(master,), daemon=True).start()
            try:
                r = subprocess.run(command + [scratch + '/out'], cwd=cwd, env=env, stdin=slave, stdout=slave, stderr=slave, timeout=300)
            finally:
                os.close(slave)
            stdout, stderr = open(scratch + '/out').read() if os.path.exists(scratch + '/out') else '', ''
        else:
            r = subprocess.run(command, cwd=cwd, env=env, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=300)
            stdout, stderr = r.stdout, r.stderr
    got = stdout.split()
    COUNT.runs += len(got)
    COUNT.events += len(got)
    if r.returncode != 0 or len(got) != len(want):
        raise Violation('rendering failed in another process\n' + show(('process', case), ('status', r.returncode), ('stdout', stdout[-500:]), ('stderr', stderr[-2000:])))
    for (cfg, source), a, b in zip(list(corpus())[part::parts], want, got):
        if a != b:
            raise Violation('another process gives another result\n' + show(
                ('process', case), ('config', cfg if isinstance(cfg, str) else CFGS[cfg]), ('source', source), ('result here', one(cfg, source))))
    return ''.join(got)


VARIANTS = [{}, dict(order='backward'), dict(order='shuffled')]
ENVIRONMENTS = [
    dict(env=dict(LC_ALL='C')), dict(env=dict(LC_ALL='POSIX', LANG='POSIX', PYTHONCOERCECLOCALE='0', PYTHONUTF8='0')), dict(env=dict(LANG='C.UTF-8')),
    dict(env=dict(TZ='Asia/Kolkata')), dict(flags=['-O']), dict(flags=['-OO']), dict(flags=['-X', 'utf8=1']), dict(flags=['-X', 'dev']),
    dict(env=dict(COLUMNS='20', LINES='5', TERM='dumb')), dict(env=dict(COLUMNS='200', TERM='xterm-256color')), dict(env=dict(NO_COLOR='1')), dict(env=dict(HOME='/nonexistent')),
    dict(cwd='/tmp'), dict(cwd='files'), dict(terminal=True), dict(flags=['-X', 'int_max_str_digits=640']), dict(flags=['-b']),
]


def processes(seeds, parts):
    def gen():
        for part in range(parts):
            for s in seeds:
                for v in VARIANTS:
                    yield dict(hashseed=s, variant=v, part=part, parts=parts)
    return gen


def environments(seeds, parts):
    def gen():
        for part in range(parts):
            for s in seeds:
                for v in ENVIRONMENTS:
                    yield dict(hashseed=s, variant=v, part=part, parts=parts)
    return gen


# Enough for a set of any two names to be iterated in both orders (and with the
# seeds of the thorough tier, of any three in all orders): see hash_orders.
SEEDS = range(1, 25)


NAMES = LABELS + ['class', 'margin', 'padding', 'border', 'template', 'bold', 'italic', 'underline', 'line_template']


def mentioned(parts):
    """Whatever the code mentions may be the name of a variable of the environment."""
    def gen():
        known, new = mentioned_words()
        for source in (known, new):
            names = [w for w in source['words'] if re.fullmatch('[A-Za-z_][A-Za-z0-9_]*', w) and not re.match('PYTHON|LD_|PATH$|GLIBC|MALLOC', w)]
            names += [w.upper() for w in names if w.upper() not in names and source is new]
            if names:
                for value in ('1', '', '20', 'x'):
                    for part in range(parts):
                        yield dict(hashseed=0, variant=dict(env={n: value for n in names}), part=part, parts=parts)
    return gen


def hash_orders():
    print(';'.join(','.join(''.join(str(t.index(x)) for x in set(t)) for t in itertools.combinations(NAMES, n)) for n in (2, 3)))


def spaces(tier):
    t = tier == 'thorough'
    return [
        Space('hash-seeds', processes(range(1, 129) if t else SEEDS, 1 if t else 1), check, 'processes with {} hash seeds and three orders of the documents'.format(128 if t else len(SEEDS))),
        Space('mentioned', mentioned(1), check, 'processes in which every word that the code mentions is a variable of the environment, with one of four values'),
        Space('environments', environments((0, 1, 2, 3) if t else (0,), 1), check, 'processes with {} environments'.format(len(ENVIRONMENTS))),
    ]


ASSUMPTIONS = ['The hash seeds stand for the orders in which sets of strings may be iterated: those of the quick tier include both orders of any two names, those of the thorough tier all orders of any three.']
