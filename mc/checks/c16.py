"""C16 List items have their bullet or number and a hanging indent."""
import itertools
import re

import ref
from core import Space, Violation
from lib import *

LISTS = ('ul', 'ol')
LONG = 'some text of this item that is long enough to be wrapped at any width below one line'


def strict(parent, label):
    """Lists contain items, items contain anything but items."""
    if parent in LISTS:
        return label == 'li'
    return label != 'li'


def loose(parent, label):
    return True


def leaf(i, l):
    return {'t': 'item {} text'.format(i), 'w': '\n  ', 'l': LONG}[l]


def trees(size, labels, leaves, content, widths):
    def gen():
        for f in forests_upto(size, labels, leaves, content):
            # (text directly in a list is covered by the loose trees)
            if content is strict and text_in_list(f, None):
                continue
            for w in widths:
                yield [w, f]
    return gen


def text_in_list(f, parent):
    return any((isinstance(n, str) and n != 'w' and parent in LISTS) if isinstance(n, str) else text_in_list(n[1], n[0]) for n in f)


def check_tree(case):
    w, f = case
    return ref_check([dict(width=w), number_texts(f, None, leaf)])


def counts(limit):
    def gen():
        for n in list(range(1, 131)) + list(range(190, limit, 97)) + [999, 1000, 1001, limit]:
            for kind in ('ol', 'ul', 'spaced', 'comments', 'nested'):
                for width in (67, 9):
                    yield [n, kind, width]
    return gen


def check_count(case):
    n, kind, width = case
    tag = 'ul' if kind == 'ul' else 'ol'
    gap = {'spaced': '\n   ', 'comments': ' <!-- <li>x</li> --> '}.get(kind, '')
    items = ['<li>q{} {}</li>'.format(i, 'zz zz' if i % 7 == 0 else '') for i in range(n)]
    if kind == 'nested':
        items = ['<li>q{}{}</li>'.format(i, '<ol><li>in</li></ol>' if i % 3 == 0 else '') for i in range(n)]
    source = '<{0}>{2}{1}{2}</{0}>'.format(tag, gap.join(items), gap)
    cfg = dict(width=width)
    out = render_html(source, cfg)
    # Independent of the reference: each item's marker, and the indent of what follows
    if width == 67:
        found = re.findall(r'^(?:(\d+)\.|\*) q(\d+)\b', out, re.M)
        want = [(str(i + 1) if tag == 'ol' else '', str(i)) for i in range(n)]
        if found != want:
            raise Violation('markers\n' + show(('source', source), ('expected', want), ('actual', found), ('output', out)))
    nodes = [[tag, {}, [['li', {}, ['q{} {}'.format(i, 'zz zz' if i % 7 == 0 else '')] if kind != 'nested' else
                         ['q{}'.format(i)] + ([['ol', {}, [['li', {}, ['in']]]]] if i % 3 == 0 else [])] for i in range(n)]]]
    expect_equal(out, ref.render(nodes, cfg), source, cfg)
    return out


TEMPLATES = ['{0}. {1}', '({0}) {1}', '{0}{1}', '{0}: {1}', '   {0}   {1}', '{1}', 'No. {0}: {1}', '{0}. {1} ({0})', '{1} {0}']
BULLETS = ['* {}', '- {}', '{}', '+++ {}', '  o   {}', '>{}', '\u2022 {}', '[{}] ', '{}*', '( {}  )']


def settings():
    for start in (0, 1, 2, 9, 98, 999, -1, -10, 100000):
        for step in (1, 2, 0, -1, 10, 999):
            for template in range(len(TEMPLATES)):
                for n in (1, 2, 3, 12):
                    for width in (30, 67):
                        yield [start, step, template, n, width]
    

def check_settings(case):
    start, step, template, n, width = case
    cfg = dict(width=width, renderers={'ol > li': ['OrderedListItemRenderer', dict(start_index=start, step=step, line_template=TEMPLATES[template])]})
    nodes = [['ol', {}, [['li', {}, [LONG if i % 2 else 'short', ['ul', {}, [['li', {}, [LONG]]]]]] for i in range(n)]]]
    return ref_check([cfg, nodes])


def bullets():
    for b in range(len(BULLETS)):
        for n in (1, 2, 3):
            for outer in (None, 'blockquote', 'div', 'li', 'ol', 'dd'):
                for width in list(range(1, 41)) + [67]:
                    yield [b, n, outer, width]


def check_bullets(case):
    b, n, outer, width = case
    cfg = dict(width=width, renderers={'li': ['ListItemRenderer', dict(line_template=BULLETS[b])],
                                       'ol > li': ['OrderedListItemRenderer', dict(line_template='{0}. {1}')]})
    nodes = [['ul', {}, [['li', {}, [LONG + ' {}'.format(i)]] for i in range(n)]]]
    if outer == 'ol':
        nodes = [['li', {}, nodes]]
    if outer:
        nodes = [[outer, {}, nodes]]
    return ref_check([cfg, nodes])


def deep():
    for chain in itertools.product(('ul', 'ol'), repeat=5):
        for width in (67, 40, 14, 3):
            for place in range(3):
                yield [chain, width, place]


def check_deep(case):
    chain, width, place = case
    nodes = ['deepest ' + LONG]
    for i, tag in enumerate(chain):
        item = ['li', {}, ['level {} {}'.format(i, LONG[:20])] + nodes if i else nodes]
        others = [['li', {}, ['other {}'.format(k)]] for k in range(11)]
        nodes = [[tag, {}, [others + [item], [item] + others, others[:9] + [item] + others[9:]][place]]]
    return ref_check([dict(width=width), nodes])


def interleaved(n):
    """What is between the items does not count."""
    other = ['i', 'i', ' ', '\n', 'text', 'p', 'x', 'ol', 'comment', 'br']
    def gen():
        for seq in itertools.product(other[1:], repeat=n):
            if 'i' in seq:
                yield seq
    return gen


def check_interleaved(case):
    source, nodes, k = '', [], 0
    for s in case:
        if s == 'i':
            node = ['li', {}, ['q{}'.format(k)]]
        elif s in ('p', 'x'):
            node = [s, {}, ['o']]
        elif s == 'ol':
            node = ['ol', {}, [['li', {}, ['in']], ['li', {}, ['in']]]]
        elif s == 'br':
            node = ['br', {}, []]
        elif s == 'comment':
            source += '<!-- c -->'
            continue
        else:
            node = s
        k += 1
        nodes.append(node)
        source += to_html([node])
    # (text is not taken apart by the comment)
    return compare('<ol>' + source + '</ol>', [['ol', {}, nodes]], {})


def compare(source, nodes, cfg):
    out = render_html(source, cfg)
    found = re.findall(r'^(\d+)\. q', out, re.M)
    if found != [str(i + 1) for i in range(len(found))] or len(found) != source.count('<li>q'):
        raise Violation('items are numbered {}\n'.format(found) + show(('source', source), ('output', out)))
    expect_equal(out, ref.render(nodes, cfg), source, cfg)
    return out


NEUTRAL_DOCS = [
    '<ol><li>a</li><li>b <x-y>c</x-y></li><li>d</li></ol>',
    '<ul><li>a</li><li>b<ol><li>c</li><li>d</li></ol></li></ul>',
    '<section><ol><li><section>a</section></li><li><p>b</p><p>c</p></li></ol></section><ol><li>d</li></ol>',
]
NEUTRAL_CFGS = [dict(width=20), dict(width=30, renderers={'ol > li': [None, dict(start_index=9, step=3)], 'ul > li': [None, dict(line_template='-- {}')]})]
SCALING_CFGS = [dict(width=20), dict(width=30, renderers={'li': [None, dict(start_index=98, step=3)], 'ul': [None, dict(margin=[1, 0, 0, 2])]})]


def spaces(tier):
    t = tier == 'thorough'
    return [
        Space('trees', trees(7 if t else 6, ['ul', 'ol', 'li', 'p'], ['t'], strict, (67, 7)), check_tree, 'all trees of lists, items and paragraphs'),
        Space('blocks', trees(5 if t else 4, ['ul', 'ol', 'li', 'p', 'blockquote', 'pre', 'b', 'br', 'div'], ['t', 'l'], strict, (67, 20)), check_tree, 'lists with all kinds of blocks'),
        Space('loose', trees(4, ['ul', 'ol', 'li', 'p', 'b'], ['t', 'w', 'l'], loose, (40,)), check_tree, 'lists and items anywhere'),
        Space('counts', counts(2500 if t else 1200), check_count, 'every number of items up to 130, and up to {}'.format(2500 if t else 1200)),
        Space('settings', settings, check_settings, 'starts x steps x templates'),
        Space('bullets', bullets, check_bullets, 'bullets x widths'),
        Space('deep', deep, check_deep, 'every nesting of five lists'),
        Space('interleaved', interleaved(5 if t else 4), check_interleaved, 'everything between the items'),
        attribute_space(NEUTRAL_DOCS, NEUTRAL_CFGS),
        element_space(NEUTRAL_DOCS, NEUTRAL_CFGS),
        words_space(NEUTRAL_DOCS, SCALING_CFGS, t),
        scaling_space(NEUTRAL_DOCS, SCALING_CFGS, t),
    ]


ASSUMPTIONS = ['Marker templates have no literal braces.']
