"""C05 Preformatted text is verbatim."""
import itertools

import ref
from core import COUNT, Space, Violation
from lib import *


def strings(n, alphabet='a \t\n'):
    for k in range(0, n + 1):
        for chars in itertools.product(alphabet, repeat=k):
            yield ''.join(chars)


# --- the text itself, without the reference

AROUND = {
    '': ('', ''), 'div': ('<div>', ''), 'section': ('<section>', ''), 'blockquote': ('<blockquote>', '> '), 'td': ('<table><tr><td>', ''),
    'b': ('<span>', ''), 'quotes': ('<blockquote><div><blockquote>', '> > '),
}


def verbatim(n):
    def gen():
        for s in strings(n):
            for around in AROUND:
                for code in (False, True):
                    for width in (67, 6):
                        yield [s, around, code, width]
    return gen


def check_verbatim(case):
    s, around, code, width = case
    open_, prefix = AROUND[around]
    close = ''.join('</{}>'.format(t) for t in re.findall('<(.*?)>', open_)[::-1])
    body = '<code>{}</code>'.format(s) if code else s
    source = '{}<pre>{}</pre>{}'.format(open_, body, close)
    out = render_html(source, dict(width=width, optimise=False))
    lines = out.split('\n')
    want = (s[:-1] if s.endswith('\n') else s).split('\n')
    blank = [i for i, l in enumerate(lines) if not l.strip(' >')]
    # The lines of the element, between blank lines for the margins
    found = [i for i in range(len(lines) - len(want) + 1)
             if all(lines[i + k].startswith(prefix + ('    ' + w if s else '')) and not lines[i + k][len(prefix + '    ' + w):].strip(' ')
                    for k, w in enumerate(want))]
    rest = [i for i in range(len(lines)) if not found or not found[0] <= i < found[0] + len(want)]
    if not found or (s.strip() and any(i not in blank for i in rest)):
        raise Violation('not verbatim\n' + show(('source', source), ('width', width), ('output', out)))
    if s.strip() and around != 'quotes' and len(lines) != len(want) + (3 if around == 'blockquote' else 2):
        raise Violation('wrong number of lines\n' + show(('source', source), ('width', width), ('output', out)))
    optimised = render_html(source, dict(width=width))
    if [l.rstrip() for l in lines] != optimised.split('\n'):
        raise Violation('optimised differs\n' + show(('source', source), ('width', width), ('output', optimised)))
    return out


# --- inline elements at every position in it

def inline(n):
    def gen():
        for s in strings(n):
            for i, j in itertools.combinations_with_replacement(range(len(s) + 1), 2):
                for tag in ('b', 'code', 'span', 'a', 'x', 'br'):
                    for around in ('', 'blockquote', 'div'):
                        pre = ['pre', {}, [s[:i], [tag, {'href': '/1'} if tag == 'a' else {}, [] if tag == 'br' else [s[i:j]]], s[j:]]]
                        yield [dict(link='inline', optimise=False, width=9), [pre if not around else [around, {}, [pre]]]]
    return gen


def long_lines():
    for n in range(0, 200, 3):
        for width in (1, 10, 67, 100):
            for around in ('', 'div', 'blockquote', 'section'):
                for settings in ({}, dict(indent=0), dict(indent=2, line_template='| {}'), dict(border=['=', '|', '-', '|'], padding=[1, 2, 1, 2])):
                    for text in ('x' * n, 'ab cd ' * (n // 6), 'def f(x):\n\treturn {}\n\n\n' + '\t' * (n % 7) + 'y' * n, '  ' + '{0}' * n + '\n  %s'):
                        pre = ['pre', {}, [text]]
                        yield [dict(width=width, optimise=False, renderers={'pre': ['PreRenderer', settings]}), [pre if not around else [around, {}, [pre]]]]


# --- what is preformatted: every sequence of tags

TOKENS = ['O:pre', 'C:pre', 'O:div', 'C:div', 'O:b', 'C:b', 'S:br', 'T: q\n  r ']


def sequences(n):
    def gen():
        for k in range(1, n + 1):
            for tokens in itertools.product(TOKENS, repeat=k):
                if 'O:pre' in tokens and tokens[-1][0] == 'T':
                    yield tokens
    return gen


def check_sequence(case):
    source = tokens_to_html(case)
    nodes = machine(case)
    cfg = dict(width=20)
    out = render_html(source, cfg)
    expect_equal(out, ref.render(nodes, cfg), source, cfg)
    return out


def resets():
    starts = ['<pre>', '<pre>a  b', '<pre><b>x', '<pre><pre>a</pre>', '<div><pre> x </pre>', '<pre></b>', '<pre>a</pre', '<p>a', '<pre><pre><pre>']
    for k in (1, 2):
        for first in itertools.product(starts, repeat=k):
            for closed in itertools.product((False, True), repeat=k):
                for doc in ('<p>a  b\n c</p>', 'a   b', '<pre>a  b\n c</pre>', '<div>a \n b</div><pre> c\n\n</pre>d  e'):
                    yield [first, closed, doc]


def check_reset(case):
    first, closed, doc = case
    p = make_parser({})
    for f, c in zip(first, closed):
        p.feed(f)
        if c:
            p.close()
        p.reset()
        COUNT.events += 2
    p.feed(doc)
    p.close()
    expect_equal(p.parsed, render_html(doc), doc, {}, 'preformatted state survives a reset after {}'.format(first))
    return p.parsed


# --- every character

CONTAINERS = [[], ['blockquote'], ['section', 'div']]


def characters():
    for start in range(0, 0x110000, 64):
        if 0x20000 <= start < 0xe0000 or start >= 0xe1000:
            if start % 0x1000:
                continue
        for n in range(4):
            for around in range(3):
                for margin in (0, 3):
                    yield [start, n, around, margin]


def check_characters(case):
    start, n, around, margin = case
    chars = [chr(c) for c in range(start, start + 64) if chr(c) not in '\r\n<>&' and not 0xd800 <= c < 0xe000]
    text = ['\n'.join('  a' + c + c + 'b ' for c in chars), '\n'.join(c + 'x' for c in chars), ''.join(chars), '\n'.join('y' + c + ' z' for c in chars)][n]
    nodes = [['pre', {}, [['code', {}, [text]] if n == 2 else text]]]
    for tag in CONTAINERS[around][::-1]:
        nodes = [[tag, {}, nodes]]
    cfg = dict(width=20, optimise=False, margin=[0, 0, 0, margin])
    source = to_html(nodes)
    out = render_html(source, cfg)
    prefix = ' ' * margin + '> ' * (around == 1) + '    '
    want = [prefix + line for line in text.split('\n')]
    lines = out.split('\n')
    if chars and (len(lines) < len(want) + 2 or not any(
            all(l.startswith(w) and not l[len(w):].strip(' ') for l, w in zip(lines[i:], want)) for i in range(len(lines) - len(want) + 1))):
        raise Violation('not verbatim\n' + show(('source', source), ('config', cfg), ('output', out)))
    return out


# --- whole trees

LABELS = ['pre', 'div', 'blockquote', 'section', 'h2', 'b', 'code', 'span', 'ul', 'dl', 'table', 'br', 'img']


def trees(size):
    def gen():
        for f in forests_upto(size, LABELS, ['t', 'u']):
            if has_pre(f):
                yield f
    return gen


def has_pre(f):
    return any(not isinstance(n, str) and (n[0] == 'pre' or has_pre(n[1])) for n in f)


def check_tree(case):
    nodes = number_texts(case, LINKS, lambda i, l: ' a{0}\n\tb{0}  c '.format(i) if l == 't' else 'd\n\n')
    cfg = dict(width=12, optimise=False)
    source = to_html(nodes)
    out = render_html(source, cfg)
    expect_equal(out, ref.render(nodes, cfg), source, cfg)
    return out


NEUTRAL_DOCS = [
    '<pre>a  b\n\t<x-y> c\n\n</x-y><code>d  e</code>\n f</pre>g  h',
    '<section><pre><x-y>  a\n b</x-y>\n</pre></section>',
    '<pre>\n\n a<x-y>\n<b>  b</b></x-y></pre><x-y>c  d</x-y>',
]
NEUTRAL_CFGS = [dict(width=10), dict(width=10, optimise=False)]


def spaces(tier):
    t = tier == 'thorough'
    return [
        Space('verbatim', verbatim(7 if t else 5), check_verbatim, 'every string over letters and whitespace in seven contexts'),
        Space('inline', inline(6 if t else 4), ref_check, 'an inline element at every position of every string'),
        Space('long-lines', long_lines, ref_check, 'lines of up to 200 characters, settings'),
        Space('sequences', sequences(7 if t else 6), check_sequence, 'every sequence of tags'),
        Space('resets', resets, check_reset, 'resets with preformatted text open'),
        Space('characters', characters, check_characters, 'every character of Unicode at the start, in the middle and at the end of lines'),
        Space('trees', trees(5 if t else 4), check_tree, 'every tree with preformatted text'),
        attribute_space(NEUTRAL_DOCS, NEUTRAL_CFGS),
        element_space(NEUTRAL_DOCS, NEUTRAL_CFGS),
        words_space(NEUTRAL_DOCS, NEUTRAL_CFGS, t),
        scaling_space(NEUTRAL_DOCS, NEUTRAL_CFGS, t),
    ]


ASSUMPTIONS = ['Lines are separated by line feeds.', 'Characters are the assigned planes of Unicode and samples of the others.']
