"""C28 The command line writes what the library renders."""
import atexit
import contextlib
import io
import itertools
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

from core import COUNT, REPO, Space, Violation
from lib import *

ROOT = None


def scratch():
    """A directory of this process, for one case, removed at its end."""
    global ROOT
    if ROOT is None or ROOT[0] != os.getpid():
        ROOT = (os.getpid(), tempfile.mkdtemp(prefix='gopher-c28-'))
        import multiprocessing.util
        multiprocessing.util.Finalize(None, shutil.rmtree, args=(ROOT[1],), kwargs=dict(ignore_errors=True), exitpriority=10)
        atexit.register(shutil.rmtree, ROOT[1], ignore_errors=True)
    return tempfile.mkdtemp(dir=ROOT[1])


def read(path):
    """Exactly what is in a file, or None."""
    if not os.path.exists(path):
        return None
    if os.path.isdir(path):
        return 'directory'
    with open(path, 'rb') as f:
        return f.read()


def library(text, suffix):
    """What is dumped and what is written for a source of this text."""
    from gopher_render import GopherHTMLParser
    from gopher_render.code_themes.iced_gopher import renderers
    from gopher_render.rendering import Box
    text = text.replace('\r\n', '\n').replace('\r', '\n')
    if os.path.splitext('x' + suffix)[1] == '.md':
        import markdown
        text = markdown.Markdown(
            extensions=['markdown.extensions.codehilite', 'markdown.extensions.extra', 'markdown.extensions.meta'], output_format='html5',
            extension_configs={'markdown.extensions.codehilite': {'css_class': 'highlight'}, 'markdown.extensions.extra': {}, 'markdown.extensions.meta': {}},
        ).convert(text)
    p = GopherHTMLParser(box=Box(width=67, margin=[1, 0, 1, 0]), link_placement='footer', image_placement='inline', output_format='text', gopher_host='my.gopher.com', renderers=renderers)
    p.feed(text)
    p.close()
    return text, p.parsed


def run(arguments, cwd, real):
    """The exit status and the standard output of the tool."""
    COUNT.runs += 1
    COUNT.events += 1
    if real:
        # (the sitecustomize of an installation is no part of this)
        env = dict(os.environ, PYTHONPATH=REPO, PYTHONIOENCODING='utf-8', PYTHONUTF8='1', PYTHONDONTWRITEBYTECODE='1')
        r = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'gopher_render'] + arguments, cwd=cwd, env=env, stdin=subprocess.DEVNULL, capture_output=True, timeout=60)
        return r.returncode, r.stdout.decode('utf-8', 'surrogatepass')
    old = os.getcwd(), sys.argv
    out = io.StringIO()
    try:
        os.chdir(cwd)
        sys.argv = ['gopher_render'] + arguments
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            try:
                runpy.run_module('gopher_render', run_name='__main__')
                status = 0
            except SystemExit as e:
                status = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            except Exception:
                status = 1  # (what Python exits with)
    finally:
        os.chdir(old[0])
        sys.argv = old[1]
    return status, out.getvalue()


BEFORE = {'none': None, 'empty': b'', 'long': b'old\n' * 5000, 'odd': b'\xff\x00old', 'other': b'something else\n'}


def check_run(source, suffix, flags, before, real=False, keep=None, destination='out.txt'):
    """Run on one source in a directory, and compare everything with the library."""
    cwd = keep or scratch()
    try:
        src = 'source' + suffix
        data = source.encode('utf-8')
        with open(os.path.join(cwd, src), 'wb') as f:
            f.write(data)
        dst = os.path.join(cwd, destination)
        if before is not None:
            if BEFORE[before] is None:
                if os.path.exists(dst):
                    os.remove(dst)
            else:
                with open(dst, 'wb') as f:
                    f.write(BEFORE[before])
        arguments = {'': [src, destination], 'd': ['-d', src, destination], 'D': [src, '--dump', destination], 'abs': [os.path.join(cwd, src), dst], 'end': [src, destination, '-d']}[flags]
        others = {n: read(os.path.join(cwd, n)) for n in os.listdir(cwd) if n != destination}
        status, out = run(arguments, cwd, real)
        html_text, text = library(source, suffix)
        want_out = (html_text + '\n' if flags in ('d', 'D', 'end') else '') + text + '\n'
        written = read(dst)
        info = show(('source', source), ('suffix', suffix), ('arguments', arguments), ('destination before', before), ('status', status), ('printed', out), ('written', written), ('library', text))
        if status != 0:
            raise Violation('exit status {}\n'.format(status) + info)
        if written != text.encode('utf-8', 'surrogatepass'):
            raise Violation('the destination is not what the library renders\n' + info)
        if out != want_out:
            raise Violation('not printed as the library renders it\n' + info + '\nexpected: {!r}'.format(want_out))
        now = {n: read(os.path.join(cwd, n)) for n in os.listdir(cwd) if n != destination}
        if now != others:
            raise Violation('the source or another file changed: {}\n'.format(sorted(n for n in set(now) | set(others) if now.get(n) != others.get(n))) + info)
        return text
    finally:
        if keep is None:
            shutil.rmtree(cwd)


MD = [
    '# Title', 'Title\n=====', 'Some *emphasis* and **strong** text, that is long enough to be wrapped on to a second line of the paragraph.', '* one\n* two\n    * three', '1. one\n2. two', '> quoted\n> text', '    code = 1\n    more',
    '```python\ndef f(x):\n    return "x" # c\n```', '```\nplain\n```', '    :::python\n    x = None', '[link](/x.txt "title") and ![image](/i.png) <http://h.example/>', 'Term\n:   Definition', '| a | b |\n|---|---|\n| 1 | 2 |', 'Note[^1]\n\n[^1]: The note.',
    '<div markdown="1">\n*inner*\n</div>', '<p>raw <b>html</b></p>', 'Author: Me\nDate: now', '---', '`code` &amp; &lt; \u00e9\u2603\U0001f600', 'line  \nbreak', '*[HTML]: Hyper\n\nHTML', '\tTabbed', 'a\r\nb\r\n', '## H {#id .c}',
]
HTML = [
    '', ' ', 'text', '<h1>Title</h1>', '<p>Some <em>emphasis</em> and <strong>strong</strong> text, that is long enough to be wrapped on to a second line of the paragraph.</p>', '<ul><li>one</li><li>two</li></ul>', '<blockquote><p>q</p></blockquote>',
    '<pre>pre\n  formatted</pre>', '<div class="highlight"><pre><span class="k">def</span> <span class="nf">f</span></pre></div>', '<a href="/x.txt" title="t">link</a>', '<img src="/i.png" alt="image">', '<p>unclosed', '</p></x>', '# not a title', '* not a list', '<p>a\r\nb</p>',
    '<pre>a&#13;b\tc</pre>', 'Author: Me', '<p>\u00e9\u2603\U0001f600&nbsp;x</p>', '<dl><dt>t</dt><dd>d</dd></dl>', '<!-- c --><p>x</p>', '\ufeff<p>bom</p>', '<p>{x} %s \\n</p>', '&lt;b&gt; <b>',
]


def sources(n):
    for kind, blocks in (('.md', MD), ('.html', HTML)):
        for k in range(1, n + 1):
            for seq in itertools.product(range(len(blocks)), repeat=k):
                yield kind, seq


def text_of_source(kind, seq):
    return ('\n\n' if kind == '.md' else '').join((MD if kind == '.md' else HTML)[i] for i in seq)


def documents(n):
    def gen():
        for kind, seq in sources(n):
            for flags in ('', 'd'):
                yield [kind, seq, flags]
    return gen


def check_document(case):
    kind, seq, flags = case
    return check_run(text_of_source(kind, seq), kind, flags, 'other')


SUFFIXES = ['.md', '.html', '.htm', '', '.txt', '.md.html', '.html.md', '.xml']


def combinations():
    for suffix in SUFFIXES:
        for flags in ('', 'd', 'D', 'abs', 'end'):
            for before in BEFORE:
                for source in ('', '\n', '# T\n\n* a\n\n<p>b</p>\n', 'x: y\n\n<h1>T</h1>', '<p>a</p>\n    code\n'):
                    for destination in ('out.txt', 'out.md', 'out.html', '-out' if flags == 'abs' else 'out', 'a b'):
                        yield [source, suffix, flags, before, destination]


def check_combination(case):
    source, suffix, flags, before, destination = case
    return check_run(source, suffix, flags, before, destination=destination)


def failures():
    for kind in ('missing', 'directory', 'binary', 'latin', 'truncated', 'missing-md', 'directory-md', 'binary-md', 'no-arguments', 'one-argument', 'three-arguments', 'bad-flag', 'missing-directory', 'destination-directory'):
        for flags in ([], ['-d']):
            for before in BEFORE:
                for real in (0, 1):
                    if not real or before in ('none', 'other'):
                        yield [kind, flags, before, real]


def check_failure(case):
    kind, flags, before, real = case
    cwd = scratch()
    try:
        base, _, md = kind.partition('-') if kind.endswith('-md') else (kind, '', '')
        src = 'source.md' if md else 'source.html'
        path = os.path.join(cwd, src)
        if base == 'directory':
            os.mkdir(path)
        elif base != 'missing':
            with open(path, 'wb') as f:
                f.write({'binary': b'<p>\xff\xfe\x80</p>', 'latin': 'caf\u00e9'.encode('latin-1'), 'truncated': b'<p>abc \xe2\x98'}.get(base, b'<p>x</p>'))
        dst = os.path.join(cwd, 'out.txt')
        if base == 'destination-directory':
            os.mkdir(dst)
        elif BEFORE[before] is not None:
            with open(dst, 'wb') as f:
                f.write(BEFORE[before])
        arguments = flags + {'no-arguments': [], 'one-argument': [src], 'three-arguments': [src, 'out.txt', 'x'], 'bad-flag': ['--nosuch', src, 'out.txt'], 'missing-directory': [src, 'nowhere/out.txt']}.get(base, [src, 'out.txt'])
        files = {n: read(os.path.join(cwd, n)) for n in os.listdir(cwd)}
        status, out = run(arguments, cwd, real)
        now = {n: read(os.path.join(cwd, n)) for n in os.listdir(cwd)}
        info = show(('kind', kind), ('arguments', arguments), ('status', status), ('before', files), ('after', now))
        if status == 0:
            raise Violation('a run that cannot succeed exits with 0\n' + info)
        if files != now:
            raise Violation('a run that failed changed files\n' + info)
        return status
    finally:
        shutil.rmtree(cwd)


def histories(n):
    """Runs one after the other in one directory, with the same destination and with others."""
    some = [('.md', (0, 2)), ('.html', (4,)), ('.html', ()), ('.md', (7, 10)), ('.html', (9, 9, 10)), ('.md', (16, 3))]

    def gen():
        for k in range(2, n + 1):
            for runs in itertools.product(range(len(some)), repeat=k):
                for targets in itertools.product((0, 1), repeat=k):
                    yield [[some[i] for i in runs], targets]
    return gen


def check_history(case):
    runs, targets = case
    cwd = scratch()
    outs = {}
    try:
        for (kind, seq), target in zip(runs, targets):
            name = 'out{}.txt'.format(target)
            for other in os.listdir(cwd):
                if other.startswith('source'):
                    os.remove(os.path.join(cwd, other))
            outs[name] = check_run(text_of_source(kind, seq), kind, '', None, keep=cwd, destination=name)
            for other, text in outs.items():
                if read(os.path.join(cwd, other)) != text.encode('utf-8'):
                    raise Violation('a run changes the result of another\n' + show(('runs', runs), ('destinations', targets), ('changed', other)))
        return sorted(outs.items())
    finally:
        shutil.rmtree(cwd)


def processes():
    """The same as processes of their own."""
    for kind, seq in sources(1):
        yield [kind, seq, 'd' if seq[0] % 2 else '', ['none', 'long', 'other'][seq[0] % 3]]
    for kind in ('.md', '.html'):
        for flags in ('', 'd', 'D', 'abs', 'end'):
            for before in BEFORE:
                yield [kind, [0, 2, 9], flags, before]


def check_process(case):
    kind, seq, flags, before = case
    return check_run(text_of_source(kind, seq), kind, flags, before, real=True)


# Where the files are: the source as given and the file it is, the destination as given and the file.
NAMES = ['source.md', 'source.html', 'sub/source.md', 'd.md/source', 'd.md/source.html', 'd.html/source.md', 'd.html/a b.md', 'sub/\u00e9\u2603.md', 'x.md.md', 'x.md.txt', '%s {} $HOME.md', 'SOURCE.MD', 'md', 'amd', 'a.markdown', 'a.mdx', 'sub/-d.md', '-dash.md', '..x.md', 'x.', 'x..md', '#~.md', 'x\\.md', '*.md', '[a].html']
OUTS = ['out.txt', 'sub/out', 'd.md/out.html', 'a b', '\u00e9', '-x', '%s {}', 'out.md', 'same', 'link', 'linked-source', 'x.md/../y', '*.txt']
TEXTS = ['# T\n\n* a\n\n<p>b <a href="/x">c</a></p>\n', 'x: y\n\n    <h1>T</h1>\n']


def paths():
    for i, name in enumerate(NAMES):
        for form in ('plain', 'dot', 'up', 'absolute', 'link'):
            for out in OUTS:
                for flags in ('', 'd'):
                    for text in range(len(TEXTS)):
                        yield [name, form, out, flags, text]


def check_path(case):
    name, form, out, flags, text = case
    text = TEXTS[text]
    cwd = scratch()
    try:
        for d in ('sub', 'd.md', 'd.html', 'x.md'):
            os.mkdir(os.path.join(cwd, d))
        for n in ('bystander.md', 'out', 'sub/out.txt', 'd.md/x', 'old'):
            with open(os.path.join(cwd, n), 'w') as f:
                f.write('other ' + n)
        given = {'plain': name, 'dot': './' + name, 'up': 'sub/../' + name, 'absolute': os.path.join(cwd, name), 'link': 'linked' + os.path.splitext(name)[1]}[form]
        with open(os.path.join(cwd, name), 'wb') as f:
            f.write(text.encode('utf-8'))
        if form == 'link':
            os.symlink(name, os.path.join(cwd, given))
        dst = {'same': given, 'link': 'to-old', 'linked-source': 'to-source'}.get(out, out)
        if out == 'link':
            os.symlink('old', os.path.join(cwd, dst))
        if out == 'linked-source':
            os.symlink(name, os.path.join(cwd, dst))
        target = os.path.realpath(os.path.join(cwd, dst))

        def files():
            return {os.path.join(d, f): read(os.path.join(d, f)) for d, _, fs in os.walk(cwd) for f in fs if os.path.realpath(os.path.join(d, f)) != target and os.path.join(d, f) != os.path.join(cwd, dst)}
        before = files()
        arguments = (['-d'] if flags else []) + ['--', given, dst]
        html_text, want = library(text, os.path.splitext('x' + os.path.basename(given).lstrip('.'))[1])
        status, printed = run(arguments, cwd, False)
        info = show(('source', text), ('arguments', arguments), ('status', status), ('printed', printed), ('library', want))
        if status != 0:
            raise Violation('exit status {}\n'.format(status) + info)
        if read(os.path.join(cwd, dst)) != want.encode('utf-8'):
            raise Violation('the destination is not what the library renders\n' + info + '\nwritten: {!r}'.format(read(os.path.join(cwd, dst))))
        if printed != (html_text + '\n' if flags else '') + want + '\n':
            raise Violation('not printed as the library renders it\n' + info)
        if files() != before:
            raise Violation('the source or another file changed\n' + info + '\nbefore: {!r}\nafter: {!r}'.format(before, files()))
        return printed
    finally:
        shutil.rmtree(cwd)


def characters(tier):
    """Every character at the beginning, in the middle and at the end of a file."""
    def gen():
        for c in range(0x110000 if tier == 'thorough' else 0x10000):
            if not 0xD800 <= c < 0xE000:
                yield ['.html', c]
                if c < 0x300 or 0x1FFE < c < 0x2070 or c in (0x1680, 0x180e, 0x3000, 0xfeff, 0xfffd, 0xffff) or c % 257 == 0:
                    yield ['.md', c]
        for c in (0xE0001, 0xE0020, 0x1F600, 0x10FFFF, 0x10000, 0x1FFFF):
            yield ['.html', c]
    return gen


def check_character(case):
    kind, c = case
    c = chr(c)
    return check_run(c + 'ab' + c + ' c' + c, kind, 'd', None, destination='out.txt')


def outputs():
    for out in ('full', 'broken', 'destination-full', 'both-full'):
        for kind, seq in (('.md', [0, 2, 9]), ('.html', [3, 4, 9]), ('.md', [2] * 200), ('.html', [])):
            for flags in ('', 'd'):
                for before in ('none', 'other', 'long'):
                    yield [out, kind, seq, flags, before]


def check_output(case):
    """The standard output, or the destination, cannot be written."""
    out, kind, seq, flags, before = case
    cwd = scratch()
    try:
        source = text_of_source(kind, seq)
        src = 'source' + kind
        with open(os.path.join(cwd, src), 'wb') as f:
            f.write(source.encode('utf-8'))
        dst = os.path.join(cwd, 'out.txt')
        if 'full' in out and out != 'full':
            os.symlink('/dev/full', dst)
        elif BEFORE[before] is not None:
            with open(dst, 'wb') as f:
                f.write(BEFORE[before])
        others = {n: read(os.path.join(cwd, n)) for n in os.listdir(cwd) if n != 'out.txt'}
        env = dict(os.environ, PYTHONPATH=REPO, PYTHONIOENCODING='utf-8', PYTHONUTF8='1', PYTHONDONTWRITEBYTECODE='1')
        if out in ('full', 'both-full'):
            stdout = os.open('/dev/full', os.O_WRONLY)
        elif out == 'broken':
            r, stdout = os.pipe()
            os.close(r)
        else:
            stdout = os.open('/dev/null', os.O_WRONLY)
        try:
            status = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'gopher_render'] + (['-d'] if flags else []) + [src, 'out.txt'], cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=stdout, stderr=subprocess.DEVNULL, timeout=60).returncode
        finally:
            os.close(stdout)
        COUNT.runs += 1
        COUNT.events += 1
        html_text, text = library(source, kind)
        info = show(('output', out), ('source', source), ('flags', flags), ('before', before), ('status', status))
        if status == 0 and (text or out == 'broken' or out == 'full'):
            raise Violation('nothing is wrong, it says\n' + info)
        if 'destination' not in out and 'both' not in out:
            written = read(dst)
            if written not in (BEFORE[before], text.encode('utf-8')):
                raise Violation('the destination is neither as before nor what the library renders\n' + info + '\n' + show(('written', written), ('library', text)))
        if others != {n: read(os.path.join(cwd, n)) for n in os.listdir(cwd) if n != 'out.txt'}:
            raise Violation('the source or another file changed\n' + info)
        return status
    finally:
        shutil.rmtree(cwd)


def spaces(tier):
    t = tier == 'thorough'
    return [
        Space('documents', documents(3 if t else 2), check_document, 'every sequence of blocks of Markdown, and of HTML, with and without the dump'),
        Space('combinations', combinations, check_combination, 'every combination of suffix, flags, source, and state and name of the destination'),
        Space('failures', failures, check_failure, 'sources that cannot be read, destinations that cannot be written and wrong arguments'),
        Space('histories', histories(3), check_history, 'every sequence of runs in one directory'),
        Space('paths', paths, check_path, 'every form and name of the source times every destination, the source itself and links among them'),
        Space('characters', characters(tier), check_character, 'every character at the beginning, in the middle and at the end of a file'),
        Space('outputs', outputs, check_output, 'a standard output or a destination that cannot be written'),
        Space('processes', processes, check_process, 'runs as processes of their own'),
    ]


ASSUMPTIONS = ['markdown and pygments are trusted.', 'Files are in UTF-8.', 'Most runs are in one process; those of the last space and part of the failures are processes of their own.']
