"""C17 Every line of a quotation is prefixed, at every level."""
import itertools

import ref
from core import Space, Violation
from lib import *

PREFIXES = ['> {}', '| {}', '>>> {}', '{}', '>{}', '  ~  {}', '| {} |', '{}<', '({}  )']
LONG = 'some quoted text that is long enough to be wrapped at any of the widths here'


def leaf(i, l):
    return {'t': 'text {}'.format(i), 'l': LONG, 'n': 'a\n\n  b'}[l]


def trees(size, labels, leaves, widths, outer=True):
    def gen():
        for f in forests_upto(size, labels, leaves):
            for w in widths:
                yield [w, 0, [['blockquote', f]] if outer else f]
    return gen


def prefixes(size):
    def gen():
        for f in forests_upto(size, ['blockquote', 'p', 'ul', 'pre'], ['l', 'n']):
            for k in range(1, len(PREFIXES)):
                for w in (67, 21):
                    yield [w, k, [['blockquote', f]]]
    return gen


def levels(forest, depth=0):
    """The fewest levels of quotation around anything in the document."""
    for n in forest:
        if not isinstance(n, str) and n[0] == 'blockquote':
            yield from levels(n[1], depth + 1)
            yield depth + 1
        elif not isinstance(n, str):
            yield from levels(n[1], depth)


def check_tree(case):
    w, k, f = case
    prefix, suffix = PREFIXES[k].split('{}')
    cfg = dict(width=w)
    if k:
        cfg['renderers'] = {'blockquote': ['BlockQuoteRenderer', dict(line_template=PREFIXES[k])]}
    nodes = number_texts(f, None, leaf)
    source = to_html(nodes)
    out = render_html(source, cfg)
    # Independent of the reference: within a single quotation that contains anything every line has its prefix
    if len(f) == 1 and not isinstance(f[0], str) and f[0][0] == 'blockquote' and text_of(nodes).strip():
        if not (out.startswith('\n') and out.endswith('\n')):
            raise Violation('margins of the quotation\n' + show(('source', source), ('output', out)))
        for line in out[1:-1].split('\n'):
            if not (line + ' ' * 60).startswith(prefix) or not line.endswith(suffix.rstrip()):
                raise Violation('a line of a quotation has no prefix (or not what follows the text): {!r}\n'.format(line) + show(('source', source), ('config', cfg), ('output', out)))
        # and what follows is what the content renders to by itself in the width that is left
        section = [['section', {}, nodes[0][2]]]
        quoted = render([['blockquote', {}, section]], cfg)
        alone = render(section, dict(cfg, width=w - len(prefix + suffix), optimise=False))
        want = '\n' + '\n'.join((prefix + l + suffix).rstrip() for l in alone.splitlines() or ['']) + '\n'
        expect_equal(quoted, want, to_html([['blockquote', {}, section]]), cfg, 'the content of a quotation is not what it is by itself')
    expect_equal(out, ref.render(nodes, cfg), source, cfg)
    return out


def widths():
    for width in range(1, 68):
        for depth in range(1, 7):
            for k in range(len(PREFIXES)):
                for kind in ('p', 'text', 'pp', 'ul'):
                    yield [width, depth, k, kind]


def check_width(case):
    width, depth, k, kind = case
    body = {'p': [['p', {}, [LONG]]], 'text': [LONG], 'pp': [['p', {}, [LONG]], ['p', {}, ['short']], ['p', {}, [LONG]]],
            'ul': [['p', {}, ['x']], ['ul', {}, [['li', {}, [LONG]], ['li', {}, ['y']]]], ['p', {}, ['z']]]}[kind]
    nodes = body
    for i in range(depth):
        nodes = [['blockquote', {}, nodes if i == 0 else ([['p', {}, ['level {}'.format(i)]]] if i % 2 else []) + nodes]]
    cfg = dict(width=width, optimise=k % 2 == 0, renderers={'blockquote': ['BlockQuoteRenderer', dict(line_template=PREFIXES[k])]})
    return ref_check([cfg, nodes])


def paragraphs():
    """First and last paragraphs, with whitespace and other elements next to them."""
    for seq in itertools.product(['p', 'w', 'x', 't', 'div', 'comment', 'ul', 'q'], repeat=4):
        if 'p' in seq:
            yield seq


def check_paragraphs(case):
    nodes, source = [], ''
    for i, s in enumerate(case):
        node = {'p': ['p', {}, ['para {}'.format(i)]], 'w': '\n   ', 'x': ['x', {}, ['x']], 't': 'text', 'div': ['div', {}, ['d']],
                'ul': ['ul', {}, [['li', {}, ['i']]]], 'q': ['blockquote', {}, [['p', {}, ['q']]]]}.get(s)
        if node is None:
            source += '<!-- <p>comment</p> -->'
            continue
        nodes.append(node)
        source += to_html([node])
    source = '<blockquote>{}</blockquote>'.format(source)
    out = render_html(source)
    expect_equal(out, ref.render([['blockquote', {}, nodes]]), source)
    return out


def boxed():
    sides = [[0, 0, 0, 0], [1, 0, 1, 0], [0, 2, 0, 3], [2, 1, 2, 1]]
    for margin, padding in itertools.product(sides, repeat=2):
        for border in (['', '', '', ''], ['-', '|', '-', '|'], ['', '', '', '##']):
            for k in range(len(PREFIXES)):
                for nested in (0, 1, 2):
                    for optimise in (True, False):
                        yield [margin, padding, border, k, nested, optimise]


def check_boxed(case):
    margin, padding, border, k, nested, optimise = case
    body = [['p', {}, [LONG]], ['p', {}, ['last']]]
    for i in range(nested + 1):
        body = [['blockquote', {}, body]]
    cfg = dict(width=50, optimise=optimise, renderers={'blockquote': ['BlockQuoteRenderer', dict(line_template=PREFIXES[k], margin=margin, padding=padding, border=border)]})
    return ref_check([cfg, body])


NEUTRAL_DOCS = [
    '<blockquote><p>a</p><section>b</section><x-y>c</x-y><p>d</p></blockquote>',
    '<blockquote>a<blockquote><p>b</p><ul><li>c</li></ul></blockquote></blockquote>',
]
NEUTRAL_CFGS = [dict(width=20), dict(width=20, renderers={'blockquote': [None, dict(line_template='| {}')]})]


def spaces(tier):
    t = tier == 'thorough'
    return [
        Space('trees', trees(5 if t else 4, ['blockquote', 'p', 'ul', 'li', 'pre', 'h2'], ['t', 'l'], (30,)), check_tree, 'all contents of a quotation'),
        Space('everywhere', trees(4 if t else 3, BLOCK_LABELS + ['b', 'br', 'code'], ['t', 'l', 'n'], (67, 15)), check_tree, 'all contents of a quotation over all blocks'),
        Space('outside', trees(5 if t else 4, ['blockquote', 'p', 'ul', 'li'], ['t', 'l'], (30,), False), check_tree, 'quotations anywhere'),
        Space('prefixes', prefixes(4 if t else 3), check_tree, 'other prefixes'),
        Space('widths', widths, check_width, 'levels x widths x prefixes'),
        Space('paragraphs', paragraphs, check_paragraphs, 'everything next to paragraphs'),
        Space('boxed', boxed, check_boxed, 'margins, paddings and borders of quotations'),
        attribute_space(NEUTRAL_DOCS, NEUTRAL_CFGS),
        element_space(NEUTRAL_DOCS, NEUTRAL_CFGS),
        words_space(NEUTRAL_DOCS, NEUTRAL_CFGS, t),
        scaling_space(NEUTRAL_DOCS, NEUTRAL_CFGS, t),
    ]


ASSUMPTIONS = ['Prefixes have no literal braces.']
