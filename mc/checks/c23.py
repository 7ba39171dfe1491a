"""C23 Every colour theme styles highlighted code without changing it."""
import importlib
import itertools
import pkgutil

from core import COUNT, Space, Violation
from lib import *
from checks.c22 import NAMES, ON, SGR, codes, parameters

THEMES = ['autumn', 'darkly', 'darkly_ansi', 'github', 'iced_gopher', 'monokai', 'monokai_ansi', 'tomorrow', 'tomorrow_night']
KNOWN = set(ON) | {'font', 'foreground_colour', 'background_colour', 'normalise', 'template', 'capitalized'}


def theme(name):
    return importlib.import_module('gopher_render.code_themes.' + name).renderers


def themes():
    import gopher_render.code_themes
    return sorted(set(THEMES) | {m.name for m in pkgutil.iter_modules(gopher_render.code_themes.__path__)})


def paths_of(selector):
    """The selectors of a list, each as the classes from the outermost element to the styled one; None for another form."""
    out = []
    for part in selector.split(','):
        path = part.split()
        if not path or not all(re.fullmatch(r'\.[\w-]+', c) for c in path):
            return None
        out.append([c[1:] for c in path])
    return out


def classes(t):
    """The classes of styled elements inside a highlighted block."""
    seen = []
    for selector in t:
        for path in paths_of(selector) or []:
            for c in path:
                if c not in seen and c not in ('highlight', 'codehilite'):
                    seen.append(c)
    return seen


def path_matches(path, chain):
    """Descendant selectors of classes: the last is on the element, the others on ancestors, in order."""
    if path[-1] not in chain[-1]:
        return False
    i = 0
    for names in chain[:-1]:
        if i < len(path) - 1 and path[i] in names:
            i += 1
    return i == len(path) - 1


def style(t, chain):
    """The settings for an element, given the classes of it and its ancestors, or None if no selector matches."""
    found = []
    for order, (selector, value) in enumerate(t.items()):
        matching = [len(path) for path in paths_of(selector) or [] if path_matches(path, chain)]
        if matching:
            found.append((max(matching), order, value[1]))
    s = {}
    for _, _, settings in sorted(found, key=lambda f: f[:2]):
        s.update(settings)
    return s


def valid_colour(c):
    if isinstance(c, bool):
        return False
    if isinstance(c, int):
        return 0 <= c <= 255
    if isinstance(c, str):
        return c in NAMES or c[:7] == 'bright_' and c[7:] in NAMES or bool(re.fullmatch('#([0-9a-fA-F]{3}){1,2}', c))
    return len(c) == 3 and all(0 <= x <= 255 for x in c)


def entries():
    for name in themes():
        for i in range(len(theme(name))):
            yield [name, i]


def check_entry(case):
    name, i = case
    t = theme(name)
    selector, value = list(t.items())[i]
    info = show(('theme', name), ('selector', selector), ('value', value))
    from gopher_render.rendering import AnsiEscapeCodeRenderer
    if not (isinstance(value, (tuple, list)) and len(value) == 2 and issubclass(value[0], AnsiEscapeCodeRenderer)):
        raise Violation('not a renderer and settings\n' + info)
    for k, v in value[1].items():
        if k not in KNOWN:
            raise Violation('{!r} is no setting\n'.format(k) + info)
        if k.endswith('_colour') and v is not None and not valid_colour(v):
            raise Violation('{!r} is no colour\n'.format(v) + info)
    if not codes(value[1])[0]:
        raise Violation('nothing is styled\n' + info)
    if paths_of(selector) is None:
        raise Violation('a selector of another form\n' + info)
    outs = []
    for path in paths_of(selector):
        # the elements that the selector is about
        nodes = ['x {y}']
        inner = [c for c in path if c not in ('highlight', 'codehilite')]
        for c in reversed(inner):
            nodes = [el('span', *nodes, class_=c)]
        outer = path[0] if path[0] in ('highlight', 'codehilite') else 'other'
        nodes = [el('div', el('pre', *nodes, ' rest'), class_=outer)]
        outs.append(themed(name, t, nodes))
    return outs


def bases():
    yield from themes()


def check_base(name):
    """The colours that a theme is meant to be used with, which it names both or neither of."""
    module = importlib.import_module('gopher_render.code_themes.' + name)
    found = {k: getattr(module, k, None) for k in ('background_colour', 'foreground_colour')}
    COUNT.events += 1
    if len([v for v in found.values() if v is None]) == 1 or not all(v is None or valid_colour(v) for v in found.values()):
        raise Violation('not two colours\n' + show(('theme', name), ('colours', found)))
    from pygments.token import STANDARD_TYPES
    odd = set(classes(theme(name))) - set(STANDARD_TYPES.values()) - {'hll', 'gc'}
    if odd:
        raise Violation('classes that code never has\n' + show(('theme', name), ('classes', sorted(odd))))
    return str(found)


def marks(out):
    """Where in the visible text (spaces and line breaks left out) which codes are."""
    at, n = {}, 0
    for piece in re.split('(\x1b\\[[0-9;]*m)', out):
        m = SGR.fullmatch(piece)
        if m:
            at.setdefault(n, []).extend(parameters([m.group(1)]))
        else:
            n += len(''.join(piece.split()))
    return {k: sorted(v) for k, v in at.items()}


def expected_marks(t, nodes):
    at = {}
    count = [0]

    def walk(nodes, chain):
        for n in nodes:
            if isinstance(n, str):
                count[0] += len(''.join(n.split()))
                continue
            here = chain + [n[1].get('class', '').split()]
            on, off = codes(style(t, here))
            if not text_of([n]):
                on = off = []
            at.setdefault(count[0], []).extend(on)
            walk(n[2], here)
            at.setdefault(count[0], []).extend(off)
    walk(nodes, [])
    return {k: sorted(v) for k, v in at.items() if v}


def themed(name, t, nodes, code=True):
    """The theme adds the codes of its styles around the texts, and nothing else."""
    source = to_html(nodes)
    out = render_html(source, dict_cfg(t))
    bare = render_html(source)
    info = show(('theme', name), ('source', source), ('output', out))
    # (at the end of a line, spaces are removed unless a code follows them)
    if [l.rstrip() for l in strip_escapes(out).split('\n')] != [l.rstrip() for l in bare.split('\n')]:
        raise Violation('the theme changes the text\n' + info + '\nwithout: {!r}'.format(bare))
    got, want = marks(out), expected_marks(t, nodes)
    if got != want:
        raise Violation('not the codes of the styles\n' + info + '\nexpected: {}\nactual: {}'.format(want, got))
    return out


def styled(name, t, names, shape):
    """Elements of two classes: on one element, nested, next to each other."""
    if shape == 0:
        return themed(name, t, [el('div', el('pre', el('span', 'x {y}', class_=' '.join(names)), ' rest\n  next'), class_='highlight')])
    if shape == 1:
        return themed(name, t, [el('div', el('pre', el('code', el('span', 'ab', el('span', 'cd', class_=names[1]), 'ef', class_=names[0]), '\n')), class_='highlight')])
    return themed(name, t, [el('div', el('pre', el('span', 'ab', class_=names[0]), el('span', 'cd', class_=names[1]), ' x'), class_='highlight')])


def dict_cfg(t):
    return dict(renderers=Verbatim(t))


class Verbatim(dict):
    """Renderers that are given as they are."""


def render_html(source, cfg={}):
    from gopher_render import GopherHTMLParser
    p = GopherHTMLParser(**({'renderers': dict(cfg['renderers'])} if cfg else {}))
    p.feed(source)
    p.close()
    COUNT.runs += 1
    COUNT.events += len(TOKEN.findall(source)) + 1
    return p.parsed


def pairs():
    for name in themes():
        cs = classes(theme(name)) + ['unlisted']
        for a, b in itertools.product(cs, repeat=2):
            for shape in (0, 1, 2):
                yield [name, [a, b], shape]


def check_pair(case):
    name, names, shape = case
    return styled(name, theme(name), names, shape)


PIECES = ['def', 'x', '{0}', ' ', '\n', '    ', '"a b"', '# q', '\t', '<&']


def sequences(n):
    """Highlighted code as the formatters of Pygments write it."""
    def gen():
        for name in themes():
            cs = classes(theme(name))
            some = cs[::max(1, len(cs) // 3)][:3]
            for k in range(1, n + 1):
                for pieces in itertools.product(range(len(PIECES)), repeat=k):
                    for styles in itertools.product(range(len(some) + 1), repeat=k):
                        if styles[0] == len(some) and k > 1:
                            continue
                        yield [name, pieces, [some[i] if i < len(some) else None for i in styles]]
    return gen


def check_sequence(case):
    name, pieces, styles = case
    body = [PIECES[p] if c is None else el('span', PIECES[p], class_=c) for p, c in zip(pieces, styles)]
    return themed(name, theme(name), [el('div', el('pre', el('span'), *body, '\n'), class_='highlight')])


CODE = {
    'python': 'import os\n\n@decorator\nclass A(B):\n    """Doc {0}."""\n    x = 1.5e3 + 0x1F\n\n    def f(self, *args, **kw):\n        # comment\n        return f"{self.x!r}" % (\'s\\n\', None, True)\n\tprint(not_tab)\n',
    'c': '#include <stdio.h>\n/* c */\nint main(void) {\n\tprintf("%d\\n", 0x10); // x\n\treturn \'a\';\n}\n',
    'html': '<!DOCTYPE html>\n<p class="x">a &amp; b</p>\n<!-- c -->\n', 'bash': 'for i in *; do\n  echo "$i" | grep -v \'x\' # c\ndone\n', 'json': '{"a": [1, 2.5, null, true], "b": "\\u00e9"}\n',
    'diff': '--- a\n+++ b\n@@ -1 +1 @@\n-x\n+y\n z\n', 'sql': 'SELECT a, COUNT(*) FROM t WHERE b = \'x\' -- c\n', 'css': '.a > b:hover { color: #fff; /* c */ }\n', 'js': 'const f = (x) => `a${x}` + /re/g; // c\n',
    'ruby': 'def f(x) :sym if @a; "#{x}" end\n', 'rst': '*em* **strong**\n=====\n', 'pycon': '>>> 1 / 0\nTraceback (most recent call last):\nZeroDivisionError: x\n',
}


def highlighted():
    for name in themes():
        for language in CODE:
            lines = CODE[language].split('\n')
            for i in range(len(lines)):
                for j in range(i + 1, len(lines) + 1):
                    yield [name, language, i, j]


def check_highlighted(case):
    name, language, i, j = case
    import pygments
    from pygments.formatters import HtmlFormatter
    from pygments.lexers import get_lexer_by_name
    code = '\n'.join(CODE[language].split('\n')[i:j])
    pieces = []
    source = pygments.highlight(code, get_lexer_by_name(language), HtmlFormatter(cssclass='highlight'))
    m = re.fullmatch('<div class="highlight"><pre>(.*)</pre></div>\n*', source, re.S)
    for p in re.split('(<span class="[^"]*">[^<]*</span>)', m.group(1)):
        c = re.fullmatch('<span class="([^"]*)">([^<]*)</span>', p)
        if c and not c.group(2):
            continue
        elif c:
            pieces.append(el('span', html.unescape(c.group(2)), class_=c.group(1)))
        elif p == '<span></span>':
            pieces.append(el('span'))
        elif '<' in p:
            return None  # (nested elements: not used by this formatter)
        elif p:
            pieces.append(html.unescape(p))
    return themed(name, theme(name), [el('div', el('pre', *pieces), class_='highlight')])


def spaces(tier):
    t = tier == 'thorough'
    return [
        Space('entries', entries, check_entry, 'every entry of every theme'),
        Space('bases', bases, check_base, 'the base colours and the names of the classes of every theme'),
        Space('pairs', pairs, check_pair, 'every pair of classes of every theme, on one element, nested and next to each other'),
        Space('sequences', sequences(3 if t else 2), check_sequence, 'sequences of styled pieces of code'),
        Space('highlighted', highlighted, check_highlighted, 'every range of lines of code in {} languages, highlighted by Pygments'.format(len(CODE))),
    ]


ASSUMPTIONS = ['A theme is the authority on its own colours; Pygments is trusted to highlight.']
