"""C18 Blocks are laid out by margin, border and padding, nested exactly."""
import itertools

import ref
from core import Space, Violation
from lib import *

LONG = 'Some text that is long enough to be wrapped at any of the widths. It really is'
# block -> (renderer, document that has one around the content)
KINDS = {
    'div': ('BlockRenderer', ['some text', ['p', {}, ['and a paragraph']]]), 'p': ('ParagraphRenderer', [LONG]), 'pre': ('PreRenderer', ['one\n  two\n\nthree']),
    'blockquote': ('BlockQuoteRenderer', [['p', {}, [LONG]], 'x']), 'li': ('ListItemRenderer', [LONG]), 'h2': ('HeaderRenderer', ['Title']),
    'dd': ('DefinitionListItemRenderer', [LONG]), 'ul': ('ListRenderer', [['x', {}, ['text']]]), 'dl': ('DefinitionListRenderer', [['dd', {}, ['x']]]), 'h3': ('MarkdownHeaderRenderer', ['Three']),
    'dt': ('DefinitionListTermHeaderRenderer', ['Term']),
}


def sides(values):
    return [list(s) for s in itertools.product(values, repeat=4)]


def draw(lines, width, margin, padding, border):
    """The rectangle of the property, around lines, in a given width."""
    inside = width - margin[1] - margin[3]
    room = inside - len(border[1]) - len(border[3])
    body = [' ' * room] * padding[0] + [(' ' * padding[3] + l).ljust(room) for l in lines] + [' ' * room] * padding[2]
    body = [border[3] + l + border[1] for l in body]
    body = [c * inside for c in border[0]] + body + [c * inside for c in border[2]]
    return '\n' * margin[0] + '\n'.join(' ' * margin[3] + l for l in body) + '\n' * margin[2]


def single(kinds, margins, paddings, borders, widths):
    def gen():
        for kind in kinds:
            for m, p, b in itertools.product(sides(margins), sides(paddings), sides(borders)):
                for w in widths:
                    yield [kind, m, p, b, w]
    return gen


def check_single(case):
    kind, m, p, b, w = case
    settings = dict(margin=m, padding=p, border=b)
    nodes = [[kind, {}, KINDS[kind][1]]]
    if kind in ('li', 'dt'):
        # the first one has no margins by default
        nodes = [['x', {}, []]] + nodes
    source = to_html(nodes)
    cfg = dict(width=w, optimise=False, renderers={kind: [KINDS[kind][0], settings]})
    out = render_html(source, cfg)
    inner = w - m[1] - m[3] - p[1] - p[3] - len(b[1]) - len(b[3])
    plain = render_html(source, dict(width=inner, optimise=False, renderers={kind: [KINDS[kind][0], dict(margin=[0] * 4, padding=[0] * 4, border=[''] * 4)]}))
    # (nothing is a block of its own in a document that consists of it)
    expect_equal(out, draw(plain.split('\n'), w, m, p, b), source, cfg, 'not the rectangle that the settings say')
    rows = [l for l in out.split('\n')[m[0]:len(out.split('\n')) - m[2]]]
    if any(len(l) != w - m[1] for l in rows) or any(l[:m[3]].strip() for l in rows):
        raise Violation('the lines are not equally wide\n' + show(('source', source), ('config', cfg), ('output', out)))
    return out


BOXES = [dict(margin=m, padding=p, border=b) for m in ([0, 0, 0, 0], [1, 0, 1, 0], [0, 2, 0, 1], [2, 0, 0, 3]) for p in ([0, 0, 0, 0], [0, 1, 0, 2], [1, 0, 2, 0])
         for b in (['', '', '', ''], ['-', '|', '=', '||'], ['', '', '', '>'])]
FEWER = [BOXES[i] for i in (1, 4, 10, 12, 17, 23, 29, 34)]


def nested(kinds, n, boxes, widths):
    def gen():
        for chain in itertools.product(kinds, repeat=n):
            if any(chain.count(k) > 1 for k in chain) or any(k in ('p', 'h2', 'h3', 'dt', 'pre') for k in chain[:-1]):
                continue
            for bs in itertools.product(range(len(boxes)), repeat=n):
                for w in widths:
                    for last in range(2):
                        yield [chain, [boxes[b] for b in bs], w, last]
    return gen


def check_nested(case):
    chain, boxes, w, last = case
    renderers = {k: [KINDS[k][0], b] for k, b in zip(chain, boxes)}
    nodes = KINDS[chain[-1]][1]
    for i, k in enumerate(chain[::-1]):
        nodes = [['x', {}, []], [k, {}, nodes]] + ([' more'] if last and i == 0 else [])
    cfg = dict(width=w, optimise=False, renderers=renderers)
    return ref_check([cfg, nodes])


SEQUENCE = {
    't': 'text', 'b': ['b', {}, ['bold']], 'p': ['p', {}, ['para']], 'div': ['div', {}, ['block']], 'tight': ['tight', {}, ['tight']], 'u': ['section', {}, ['section']],
    'e': ['div', {}, []], 'ul': ['ul', {}, [['li', {}, ['item']]]], 'br': ['br', {}, []], 'h': ['h3', {}, ['head']], 'pre': ['pre', {}, ['pre']], 'x': ['x', {}, ['x']],
    'n': ['section', {}, [['section', {}, ['deep']]]], 'w': '\n  ', 'q': ['blockquote', {}, ['quote']],
}
CONTEXTS = [None, 'div', 'blockquote', 'li', 'p', 'section', 'dd']


def sequences(n, contexts):
    def gen():
        for k in range(1, n + 1):
            for seq in itertools.product(SEQUENCE, repeat=k):
                for c in contexts:
                    yield [c, seq]
    return gen


def check_sequence(case):
    context, seq = case
    nodes = [SEQUENCE[s] for s in seq]
    # (neighbouring texts are one text)
    source = to_html(nodes)
    if context:
        nodes = [[context, {}, nodes]]
        source = '<{0}>{1}</{0}>'.format(context, source)
    cfg = dict(width=40, renderers={'tight': ['BlockRenderer', {}]})
    out = render_html(source, cfg)
    # Independent of the reference: blocks do not share lines with anything
    alone = {'para', 'block', 'tight', 'section', 'item', 'head', 'pre', 'deep', 'quote'}
    for line in out.split('\n'):
        ws = re.sub(r'[^a-z ]', '', line).split()
        if len(ws) > 1 and alone.intersection(ws):
            raise Violation('a block shares its line: {!r}\n'.format(line) + show(('source', source), ('output', out)))
    if sum(out.count(w) for w in ('text', 'bold', 'para', 'block', 'tight', 'section', 'item', 'head', 'deep', 'quote')) != len([s for s in seq if s not in ('e', 'br', 'pre', 'x', 'w')]):
        raise Violation('not every part is there once\n' + show(('source', source), ('output', out)))
    expect_equal(out, ref.render(nodes, cfg), source, cfg)
    return out


# --- blocks of which nothing is shown

NOTHING = {
    't': 'text', 'b': ['b', {}, ['bold']], 'n': ['nav', {}, ['gone']], 'nn': ['nav', {}, [['p', {}, ['gone']], 'too']], 'e': ['section', {}, []], 'c': ['section', {}, [['nav', {}, ['gone']]]],
    'v': ['q', {}, ['gone']], 'p': ['p', {}, ['para']], 'z': ['p', {}, []], 'ul': ['ul', {}, [['li', {}, ['item']]]], 'br': ['br', {}, []], 's': ['section', {}, ['sec']], 'a': ['address', {}, []],
}


def nothing(n):
    def gen():
        for k in range(1, n + 1):
            for seq in itertools.product(NOTHING, repeat=k):
                if not any(s in ('n', 'nn', 'e', 'c', 'v', 'z', 'a') for s in seq):
                    continue
                for c in (None, 'div', 'li', 'b'):
                    yield [c, seq]
    return gen


def check_nothing(case):
    context, seq = case
    nodes = [NOTHING[s] for s in seq]
    nodes = [[context, {}, nodes]] if context else nodes
    return ref_check([dict(width=40, renderers={'nav': 'NonRenderer', 'q': 'NonRenderer'}), nodes])


CONTENT_LABELS = ['p', 'div', 'ul', 'li', 'blockquote', 'pre', 'h2', 'b', 'br', 'section']


def composition(size, labels, boxes, widths):
    """The content of a block is what it renders to by itself in the room that is left."""
    def gen():
        for f in forests_upto(size, labels, ['t', 'l']):
            for b in boxes:
                for w in widths:
                    yield [f, b, w]
    return gen


def check_composition(case):
    f, b, w = case
    nodes = number_texts(f, None, lambda i, l: 'text {}'.format(i) if l == 't' else LONG)
    source = to_html(nodes)
    around = '<div>{}</div>'.format(source)
    m, p, bo = b['margin'], b['padding'], b['border']
    inner = w - m[1] - m[3] - p[1] - p[3] - len(bo[1]) - len(bo[3])
    # other divs in the content have no settings
    cfg = dict(width=w, optimise=False, renderers={'body': ['BlockRenderer', b]})
    out = render_html('<body>{}</body>'.format(source), cfg)
    alone = render_html(source, dict(width=inner, optimise=False))
    want = draw(alone.split('\n'), w, m, p, bo)
    # (only the padding of lines that are wider than their block differs)
    expect_equal(out, want, source, cfg, 'the content of a block is not what it is by itself in its room')
    return out


def documents():
    for m in sides((0, 1, 3)):
        for w in (30, 67):
            for fmt in ('text', 'gophermap'):
                for kind in ('p', 'blocks', 'empty', 'text'):
                    for optimise in (True, False):
                        yield [m, w, fmt, kind, optimise]


def check_document(case):
    m, w, fmt, kind, optimise = case
    nodes = {'p': [['p', {}, [LONG]]], 'blocks': [['h2', {}, ['head']], ['ul', {}, [['li', {}, [LONG]]]], ['blockquote', {}, [LONG[:20]]], ['pre', {}, ['a\n\n b']]],
             'empty': [], 'text': ['text ', ['b', {}, ['bold']]]}[kind]
    cfg = dict(width=w, margin=m, fmt=fmt, host='h', optimise=optimise)
    source = to_html(nodes)
    out = render_html(source, cfg)
    alone = render_html(source, dict(width=w - m[1] - m[3], fmt=fmt, host='h', optimise=optimise))
    want = '\n' * m[0] + ''.join(' ' * m[3] + l for l in alone.splitlines(keepends=True)) + '\n' * m[2]
    if optimise:
        want = '\n'.join(l.rstrip() for l in want.split('\n'))
    expect_equal(out, want, source, cfg, 'the margins of the document')
    return out


NEUTRAL_DOCS = [
    '<div>a<section>b</section>c<x-y>d</x-y></div>e<section><p>f</p></section><div><div>g</div></div>',
]
NEUTRAL_CFGS = [dict(width=30, optimise=False, renderers={'div': ['BlockRenderer', dict(border=['-', '|', '=', '!'], margin=[1, 2, 3, 4], padding=[1, 2, 1, 2])]}), dict(margin=[1, 2, 1, 2])]


def spaces(tier):
    t = tier == 'thorough'
    return [
        Space('single', single(list(KINDS), (0, 2), (0, 1), ('', '#'), (40,)), check_single, 'all sides of margin, padding and border of every kind of block'),
        Space('borders', single(['div', 'p', 'li'], (0, 1), (0, 2), ('', '|', '+-'), (30, 67) if t else (30,)), check_single, 'wider borders'),
        Space('nested', nested(list(KINDS), 2, BOXES if t else FEWER, (40,)), check_nested, 'every pair of nested blocks'),
        Space('triple', nested(['div', 'blockquote', 'li', 'p', 'dd'], 3, FEWER if t else FEWER[2:7], (50,)), check_nested, 'three nested blocks'),
        Space('sequences', sequences(4 if t else 3, CONTEXTS), check_sequence, 'all sequences of blocks and texts in 7 contexts'),
        Space('nothing', nothing(5 if t else 4), check_nothing, 'all sequences with blocks and elements of which nothing is shown'),
        Space('composition', composition(4 if t else 3, CONTENT_LABELS, FEWER if t else BOXES[::2], (60,)), check_composition, 'every content in every box'),
        Space('documents', documents, check_document, 'margins of the document'),
        attribute_space(NEUTRAL_DOCS, NEUTRAL_CFGS),
        element_space(NEUTRAL_DOCS, NEUTRAL_CFGS),
        words_space(NEUTRAL_DOCS, NEUTRAL_CFGS, t),
        scaling_space(NEUTRAL_DOCS, NEUTRAL_CFGS, t),
    ]


ASSUMPTIONS = ['Widths leave room for the content; narrower ones are covered by C02 and C24.']
