"""C04 Insignificant whitespace makes no difference."""
import itertools

import ref
from core import Space, Violation
from lib import *

GAPS = ['', ' ', '   ', '\n', '\t', '\r\n', ' \n\t ', '\n\n    ']     # between blocks
RUNS = [' ', '  ', '\n', '\t', '\r\n', ' \n ', '\t\n\n\t ', '     \n     ']  # between words

# Templates: | is a gap where whitespace is not significant, ~ a run of whitespace within text
DOCS = [
    '|<p>|aa~bb|</p>|<p>|cc|</p>|',
    '|<div>|<p>|aa~<b>bb</b>|</p>|</div>|',
    '|<ul>|<li>|aa~bb|</li>|<li>|cc|</li>|</ul>|',
    '|<ol>|<li>|<p>|aa|</p>|</li>|<li>|bb|</li>|</ol>|',
    '|<ul>|<li>|aa|<ul>|<li>|bb|</li>|</ul>|</li>|</ul>|',
    '|<blockquote>|<p>|aa|</p>|<p>|bb|</p>|</blockquote>|',
    '|<dl>|<dt>|aa|</dt>|<dd>|bb~cc|</dd>|</dl>|',
    '|<h1>|aa~bb|</h1>|<p>|cc|</p>|',
    '|<p>|aa|<br>|bb|<br>|cc|</p>|',
    '|aa~bb|<p>|cc|</p>|dd|',
    '|<section>|<div>|aa|</div>|bb|<div>|cc|</div>|</section>|',
    '|<p>|<em>aa</em>~bb<b>~cc~</b>dd|</p>|',
    '|<table>|<tr>|<td>|aa|</td>|<td>|bb|</td>|</tr>|</table>|',
    '|<p>|aa~<a href="/1">bb~cc</a>~<img src="/2">|</p>|',
    '|<li>|aa|<blockquote>|bb|</blockquote>|cc|</li>|',
    '|<pre>  a\n\n b </pre>|<p>|aa~bb|</p>|<pre>c\t d</pre>|',
    '|<p>|aa~<span>bb<br>|</span>|cc<u>~dd</u>|</p>|',
    '|<p>|<span>|<span>|aa|<br>|</span>|bb|</span>|<br>|<span>|</span>|cc|</p>|',
    '|<b>aa</b>~<i>bb</i>|<p>|<b>cc</b>|</p>|',
    '|<body>|<main>|<p>|aa|</p>|<hr>|<p>|bb|</p>|</main>|</body>|',
    '|<figure>|<img src="/1">|<figcaption>|aa|</figcaption>|</figure>|',
    '|<dd>|aa|<p>|bb|</p>|<ol>|<li>|cc|</li>|</ol>|dd|</dd>|',
]


def slots(doc):
    return [c for c in doc if c in '|~']


def fill(doc, values):
    out, it = '', iter(values)
    for c in doc:
        out += next(it) if c in '|~' else c
    return out


def canonical(doc):
    return fill(doc, ['' if c == '|' else ' ' for c in slots(doc)])


CFGS = [dict(), dict(width=7, optimise=False, link='after_block'), dict(margin=[1, 1, 1, 2], width=30, link='inline', img='footer')]


def pairs(k):
    """Every way to change up to k gaps at once, and all of them together."""
    def gen():
        for d, doc in enumerate(DOCS):
            s = slots(doc)
            base = ['' if c == '|' else ' ' for c in s]
            for n in range(1, k + 1):
                for where in itertools.combinations(range(len(s)), n):
                    for values in itertools.product(*[(GAPS if s[i] == '|' else RUNS)[1:] for i in where]):
                        v = list(base)
                        for i, x in zip(where, values):
                            v[i] = x
                        yield [d, v]
            for g in GAPS:
                for r in RUNS:
                    yield [d, [g if c == '|' else r for c in s]]
    return gen


CANON = {}


def check(case):
    d, values = case
    source = fill(DOCS[d], values)
    out = []
    for n, cfg in enumerate(CFGS):
        if (d, n) not in CANON:
            CANON[d, n] = render_html(canonical(DOCS[d]), cfg)
        got = render_html(source, cfg)
        expect_equal(got, CANON[d, n], source, cfg, 'insignificant whitespace changes the output (of {!r})'.format(canonical(DOCS[d])))
        out.append(got)
    return out


# --- every tree: pretty-printed against compact

LABELS = ['p', 'div', 'blockquote', 'ul', 'ol', 'li', 'dd', 'dt', 'h2', 'section', 'td', 'b', 'a', 'br', 'img', 'code', 'pre']


def pretty(nodes, style, depth, inline):
    """Serialise with whitespace wherever it is insignificant."""
    out = []
    for i, n in enumerate(nodes):
        before = i == 0 or not isinstance(nodes[i - 1], str) and nodes[i - 1][0] in ref.BLOCKS | {'br'}
        after = i == len(nodes) - 1 or not isinstance(nodes[i + 1], str) and nodes[i + 1][0] in ref.BLOCKS | {'br'}
        ws = {'lines': '\n' + '  ' * depth, 'tabs': '\n' + '\t' * depth, 'crlf': '\r\n', 'blank': '\n\n \n', 'space': ' '}[style]
        if isinstance(n, str):
            text = n.replace(' ', {'lines': '\n  ', 'tabs': '\t', 'crlf': '\r\n', 'blank': ' \n\n\t', 'space': '  '}[style])
            out.append((ws if before and not inline else '') + text + (ws if after and not inline else ''))
            continue
        tag, attrs, kids = n
        a = ''.join(' {}="{}"'.format(k, v) for k, v in attrs.items())
        breaking = tag in ref.BLOCKS | {'br'}
        lead = ws if not inline and (breaking and (i == 0 or not isinstance(nodes[i - 1], str)) or i == 0) else ''
        trail = ws if not inline and breaking and (i == len(nodes) - 1) else ''
        if tag in ref.VOID:
            out.append(lead + '<{}{}>'.format(tag, a) + trail)
        elif tag == 'pre':
            out.append(lead + to_html([n]) + trail)
        else:
            inner = pretty(kids, style, depth + 1, tag not in ref.BLOCKS)
            if tag in ref.BLOCKS and not kids:
                inner = ws
            out.append(lead + '<{}{}>'.format(tag, a) + inner + '</{}>'.format(tag) + trail)
    return ''.join(out)


def trees(size):
    def gen():
        for f in forests_upto(size, LABELS, ['t', 'u']):
            yield f
    return gen


def check_tree(case):
    nodes = number_texts(case, LINKS, lambda i, l: 'a{0} b{0}'.format(i) if l == 't' else 'c{}'.format(i))
    out = []
    for cfg in (dict(), dict(width=9, optimise=False)):
        want = render(nodes, cfg)
        for style in ('lines', 'tabs', 'crlf', 'blank', 'space'):
            source = pretty(nodes, style, 0, False)
            expect_equal(render_html(source, cfg), want, source, cfg, 'pretty-printing changes the output (of {!r})'.format(to_html(nodes)))
        out.append(want)
    return out


# --- whitespace within text, all strings

def strings(n):
    def gen():
        for k in range(1, n + 1):
            for chars in itertools.product('a \t\n', repeat=k):
                s = ''.join(chars)
                for context in ('<p>{}</p>', '<p>x{}y</p>', '<div>{}<p>b</p></div>', '<li><b>x</b>{}<b>y</b></li>', '{}', '<h1>{}</h1>',
                                'x<em>y{}y</em>x', '<p>{}<br>z</p>', '<pre>q</pre>{}', '<p>x<span>{}</span>y</p>'):
                    yield [s, context]
    return gen


def check_string(case):
    s, context = case
    source = context.format(s)
    cfg = dict(width=30)
    collapsed = context.format(' '.join(s.split()) if not s.strip() == '' else '')
    # Inside of inline content, leading and trailing whitespace is significant as one space
    if context in ('<p>x{}y</p>', '<li><b>x</b>{}<b>y</b></li>', 'x<em>y{}y</em>x', '<p>x<span>{}</span>y</p>'):
        lead = ' ' if s[0].isspace() else ''
        trail = ' ' if s[-1].isspace() else ''
        body = ' '.join(s.split())
        collapsed = context.format(lead + body + trail if body else ' ')
    got = render_html(source, cfg)
    expect_equal(got, render_html(collapsed, cfg), source, cfg, 'whitespace is not rendered as one space would be ({!r})'.format(collapsed))
    return got


NEUTRAL_DOCS = [
    '<div> a <x-y> b </x-y> <section> c <p> d </p> </section> e </div> f <br> g <ul> <li> h </li> </ul> <pre> i  j </pre> k',
]
NEUTRAL_CFGS = [dict(width=20), dict(optimise=False)]


MANY = ['aa~', 'aa~<b>bb</b>~', '<b>~</b>', '<p>|aa|</p>|', 'aa|<br>|', '<li>|aa|</li>|', '<i>~aa</i>']


def many(top):
    """A lot of gaps."""
    known, new = mentioned_words()
    sizes = sorted({n for n in list(range(2, 20)) + [2 ** k + d for k in range(5, top) for d in (-1, 0, 1)] + [m + d for m in known['numbers'] + new['numbers'] for d in (-1, 0, 1)] if 1 < n < 2 ** top})
    def gen():
        for n in sizes:
            for m in range(len(MANY)):
                for r in range(1, len(RUNS)) if n < 70 else (1, 4, 6):
                    for long_run in (False, True):
                        yield [n, m, r, long_run]
    return gen


def check_many(case):
    n, m, r, long_run = case
    unit = MANY[m]
    if long_run:
        # one gap of many characters instead of many gaps
        one = unit.replace('|', '').replace('~', ' ')
        source = 'x ' + one + unit.replace('|', RUNS[r] * n).replace('~', RUNS[r] * n) + one + 'y'
        want = 'x ' + one * 3 + 'y'
    else:
        source = 'x ' + unit.replace('|', RUNS[r]).replace('~', RUNS[r]) * n + 'y'
        want = 'x ' + unit.replace('|', '').replace('~', ' ') * n + 'y'
    cfg = CFGS[m % len(CFGS)]
    return same_output('whitespace makes a difference', want, source, cfg, render_html(want, cfg))


def spaces(tier):
    t = tier == 'thorough'
    return [
        Space('gaps', pairs(3 if t else 2), check, 'every change of up to {} gaps of {} documents'.format(3 if t else 2, len(DOCS))),
        Space('trees', trees(4 if t else 3), check_tree, 'every tree, pretty-printed in five ways'),
        Space('many', many(12 if t else 11), check_many, 'gaps in every number and of every length up to 20, around the powers of two and the numbers that the code mentions'),
        Space('strings', strings(8 if t else 6), check_string, 'every string over letters and whitespace in ten contexts'),
        attribute_space(NEUTRAL_DOCS, NEUTRAL_CFGS),
        element_space(NEUTRAL_DOCS, NEUTRAL_CFGS),
        words_space(NEUTRAL_DOCS, NEUTRAL_CFGS, t),
        scaling_space(NEUTRAL_DOCS, NEUTRAL_CFGS, t),
    ]


ASSUMPTIONS = ['Whitespace is spaces, tabs and line breaks (LF, CR LF).']
