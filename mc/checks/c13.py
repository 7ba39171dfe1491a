"""C13 Links and images are numbered, referenced and listed consistently."""
import itertools
import re
import unicodedata

import ref
from core import Space, Violation
from lib import *

PLACEMENTS = ['inline', 'footer', 'after_block']
ALL9 = list(itertools.product(PLACEMENTS, repeat=2))
SPEC = {
    'a2': ('a', {'href': '/t', 'title': 'Title of it'}), 'anchor': ('a', {'name': 'n', 'title': 'No'}), 'aempty': ('a', {'href': ''}),
    'img2': ('img', {'src': '/i', 'alt': 'A longer description'}), 'img3': ('img', {'alt': 'x'}), 'a': ('a', {'href': '/l'}), 'img': ('img', {'src': '/g', 'alt': 'pic'}),
}
LABELS = ['a', 'a2', 'img', 'img2', 'anchor', 'p', 'blockquote', 'ul', 'li', 'b', 'pre']
LINKS_ONLY = ['a', 'img', 'p', 'div', 'b']


def text(i, leaf):
    return ' word{} '.format(i)


def distinct(nodes, counter=None):
    """Addresses that tell the links apart."""
    counter = counter if counter is not None else itertools.count(1)
    for n in nodes:
        if not isinstance(n, str):
            for k in ('href', 'src'):
                if n[1].get(k):
                    n[1][k] += str(next(counter))
            distinct(n[2], counter)
    return nodes


def trees(size, labels, exact=False):
    def gen():
        for f in (forests if exact else forests_upto)(size, labels, ['t']):
            for p in range(9):
                yield [p, f]
    return gen


def links_of(nodes, cfg):
    """The links and images of a document that are numbered, in order."""
    out = []
    for n in nodes:
        if isinstance(n, str):
            continue
        if n[0] == 'a' and 'href' in n[1] and cfg['link'] != 'inline' or n[0] == 'img' and cfg['img'] != 'inline':
            out.append(n)
        out += links_of(n[2], cfg)
    return out


def check_tree(case):
    p, f = case
    cfg = dict(link=ALL9[p][0], img=ALL9[p][1], width=60)
    nodes = distinct(number_texts(f, SPEC, text))
    source = to_html(nodes)
    out = render_html(source, cfg)
    # Independently of the reference: every number is listed once, with its address
    links = links_of(nodes, cfg)
    listed = re.findall(r'\[(\d+)\] [^\n]*?: (/\w+|$)', out, re.M)
    if 'pre' not in source:
        want = sorted((i + 1, n[1].get('href', n[1].get('src', ''))) for i, n in enumerate(links))
        got = sorted((int(n), h) for n, h in listed)
        if got != want:
            raise Violation('links are not listed once each with their address\n' + show(('source', source), ('config', cfg), ('expected', want), ('actual', got), ('output', out)))
    expect_equal(out, ref.render(nodes, cfg), source, cfg)
    return out


def descriptions():
    """Every length of texts and titles around the limit, with spaces at every position of it."""
    for n in range(0, 26):
        for t in (None, 0, 1, 9, 10, 11, 12, 30):
            for p in range(9):
                for form in ('solid', 'spaced', 'nested', 'newline'):
                    yield [n, t, p, form]


def check_description(case):
    n, t, p, form = case
    cfg = dict(link=ALL9[p][0], img=ALL9[p][1], width=100)
    body = ''.join('abcdefghijklmnopqrstuvwxyz'[i % 26] for i in range(n))
    if form == 'spaced':
        body = ' '.join(body[i:i + 3] for i in range(0, n, 3))
    title = None if t is None else ('Title ' * 8)[:t]
    kids = [body]
    if form == 'nested':
        kids = [body[:n // 2], ['b', {}, [body[n // 2:]]]]
    if form == 'newline':
        kids = [body[:n // 2] + ' \n\t ' + body[n // 2:], ['br', {}, []], 'z']
    a = dict(href='/1')
    if title is not None:
        a['title'] = title
    nodes = [['p', {}, ['see ', ['a', a, kids], ' and ', ['img', dict(src='/2', alt=body), []], ' and ', ['img', dict(src='/3'), []],
                        ['a', dict(a, href='http://example.com/' + 'x' * n), [['img', dict(src='/4', alt=title or ''), []]]]]]]
    return ref_check([cfg, nodes])


def many(limit):
    def gen():
        for n in list(range(1, 40)) + [99, 100, 101, limit]:
            for p in range(9):
                for kind in ('a', 'img', 'mixed', 'blocks', 'nested'):
                    yield [n, p, kind]
    return gen


def check_many(case):
    n, p, kind = case
    cfg = dict(link=ALL9[p][0], img=ALL9[p][1], width=60)
    nodes = []
    for i in range(n):
        a = ['a', {'href': '/l{}'.format(i)}, ['t{}'.format(i)]]
        img = ['img', {'src': '/i{}'.format(i), 'alt': 'd{}'.format(i)}, []]
        if kind == 'a':
            nodes += [a, ' ']
        elif kind == 'img':
            nodes += [img, ' ']
        elif kind == 'mixed':
            nodes += [a, ' ', img, ' '] if i % 3 else [['p', {}, [img, a]]]
        elif kind == 'blocks':
            nodes.append(['p', {}, ['x ', a, ' ', img]])
        elif i < 12:
            nodes = [['blockquote', {}, ['q', a] + nodes + [img]]]
    return ref_check([cfg, nodes])


FEW = [None, '', 'x', '/x', 'http://e.example/y%20z', ' a  b ', 'mailto:x@y.example', '#x', '[1]', '\u00e9', '/%2F+&?a=b&c=%7e', 'x:y', '1', 'A LONGER description', '/a b', '..', '//h/x', 'X', '%', '"', '...', 'e.example']


def equal_parts():
    """Every address, title and text from the same few: they are the same, or parts of each other."""
    for href, title, text in itertools.product(range(len(FEW)), repeat=3):
        for p in (0, 4, 8, 2) if (href + title + text) % 5 == 0 else (4,):
            for img in (0, 1):
                yield [href, title, text, p, img]


def check_equal(case):
    href, title, text, p, img = case
    cfg = dict(link=ALL9[p][0], img=ALL9[p][1], width=60)
    href, title, text = FEW[href], FEW[title], FEW[text]
    if img:
        node = ['img', {k: v for k, v in (('src', href), ('title', title), ('alt', text)) if v is not None}, []]
    else:
        node = ['a', {k: v for k, v in (('href', href), ('title', title)) if v is not None}, [text] if text else []]
    return ref_check([cfg, [['p', {}, ['q ', node, ' r']], ['p', {}, ['s ', ['a', {'href': '/2'}, ['t']], ['img', {'src': '/3', 'alt': 'u'}, []]]]]])


def positions():
    """A link and an image in every kind of element, and in every pair of nested ones."""
    tags = BLOCK_LABELS + ['table', 'tr', 'td', 'b', 'em', 'span', 'code', 'x', 'a']
    for outer in [None] + tags:
        for tag in tags:
            for p in range(9):
                for order in (0, 1, 2):
                    yield [outer, tag, p, order]


def check_position(case):
    outer, tag, p, order = case
    cfg = dict(link=ALL9[p][0], img=ALL9[p][1], width=50)
    a, img = ['a', {'href': '/1', 'title': 'Ti'}, ['link']], ['img', {'src': '/2', 'alt': 'Picture of it'}, []]
    attrs = {'href': '/0'} if tag == 'a' else {}
    inner = [[tag, attrs, [['x ', a, ' y ', img], [a, img], [img, 'z', a, ['p', {}, [['a', {'href': '/3'}, ['n']]]]]][order]]]
    nodes = inner if outer is None else [[outer, {'href': '/9'} if outer == 'a' else {}, ['o '] + inner + [' e']], ['p', {}, ['after ', ['a', {'href': '/5'}, ['last']]]]]
    return ref_check([cfg, nodes])


SAME = [('a', '/x', None, 'one'), ('a', '/x', None, 'two'), ('a', '/x', 'one', 'one'), ('a', '/y', 'one', 'one'), ('a', '', None, 'one'), ('a', '#x', None, ''), ('img', '/x', None, 'one'), ('img', '/y', None, 'two'), ('img', '/x', None, '')]


def same(n):
    """Links and images that have addresses, titles or texts in common."""
    def gen():
        for k in range(2, n + 1):
            for seq in itertools.product(range(len(SAME)), repeat=k):
                for p in (4, 5, 7, 8) if k == n else range(9):
                    for blocks in (0, 1):
                        yield [seq, p, blocks]
    return gen


def check_same(case):
    seq, p, blocks = case
    cfg = dict(link=ALL9[p][0], img=ALL9[p][1], width=60)
    nodes = []
    for i in seq:
        tag, address, title, content = SAME[i]
        if tag == 'a':
            link = ['a', dict({'href': address}, **({} if title is None else {'title': title})), [content] if content else []]
        else:
            link = ['img', {'src': address, 'alt': content}, []]
        nodes += [['p', {}, [link]]] if blocks else [link, ' ']
    return ref_check([cfg, nodes])


PARTS = ('text', 'title', 'href', 'alt', 'src', 'words', 'elements', 'all')


def lengths(limit):
    """Texts, titles and addresses of every length."""
    def gen():
        for n in list(range(0, limit)) + [1000, 1023, 1024, 1025, 2049, 4097, 10001]:
            for part in PARTS:
                if n > 1100 and part in ('words', 'elements'):
                    continue
                for p in ((0, 4, 8) if n % 10 else range(9)):
                    yield [n, part, p]
    return gen


def check_lengths(case):
    n, part, p = case
    cfg = dict(link=ALL9[p][0], img=ALL9[p][1], width=60)

    def v(name):
        return 'x' * (n - 1) + 'y' * (n > 0) if part in (name, 'all') else 'ok'
    kids = [v('text')]
    if part == 'words':
        kids = ['a ' * n]
    elif part == 'elements':
        kids = [['b', {}, ['z']]] * n
    nodes = [['p', {}, ['q ', ['a', {'href': '/' + v('href'), 'title': v('title')}, kids], ' ',
                        ['img', {'src': '/' + v('src'), 'alt': v('alt')}, []], ' ', ['a', {'href': '/2'}, ['e']]]]]
    return ref_check([cfg, nodes])


def characters():
    """Every character of Unicode in each place."""
    for start in range(0, 0x110000, 64):
        if 0x20000 <= start < 0xe0000 or start >= 0xe1000:
            if start % 0x1000:
                continue
        for part in ('text', 'title', 'href', 'alt', 'src'):
            for p in (0, 4, 8):
                yield [start, part, p]


def check_characters(case):
    start, part, p = case
    cfg = dict(link=ALL9[p][0], img=ALL9[p][1], width=5000, extracted={'a': ['ExtractedLinkRenderer', dict(max_link_description=100)], 'img': ['ExtractedImageLinkRenderer', dict(max_link_description=100)]})
    chars = [chr(c) for c in range(start, start + 64) if not chr(c).isspace() and not 0xd800 <= c < 0xe000 and unicodedata.category(chr(c)) != 'Cc']
    text = ' '.join('x{}y'.format(c) for c in chars) if part not in ('href', 'src') else ''.join(chars)

    def v(name):
        return text if part == name else 'ok'
    nodes = [['p', {}, ['q ', ['a', {'href': '/' + v('href'), 'title': v('title')}, [v('text')]], ' ',
                        ['img', {'src': '/' + v('src'), 'alt': v('alt')}, []]]]]
    return ref_check([cfg, nodes])


def settings():
    for limit in (0, 1, 5, 10, 11, 100):
        for p in (4, 5, 7, 8):
            for margin in ([0, 0, 0, 0], [0, 0, 1, 2], [1, 0, 0, 0]):
                for t in range(2):
                    for capital in (False, True):
                        for given in ('a', 'img', 'both'):
                            yield [limit, p, margin, t, capital, given]


def check_settings(case):
    limit, p, margin, t, capital, given = case
    s = dict(max_link_description=limit, margin=margin)
    if t:
        s['templates'] = ['{href} <{description}> {link_reference}', '{link_reference} {title} {href}']
    extracted = {}
    if given in ('a', 'both'):
        extracted['a'] = ['ExtractedLinkRenderer', s]
    if given in ('img', 'both'):
        extracted['img'] = ['ExtractedImageLinkRenderer', s]
    cfg = dict(link=ALL9[p][0], img=ALL9[p][1], width=60, extracted=extracted, renderers={'a': ['LinkRenderer', dict(capitalized=capital)]})
    nodes = [['p', {}, ['q ', ['a', {'href': '/1'}, ['some text ', ['em', {}, ['here']]]], ['a', {'href': '/2', 'title': 'The title'}, ['te']],
                        ['img', {'src': '/3', 'alt': 'a description'}, []], ['img', {'src': '/4'}, []]]]]
    return ref_check([cfg, nodes])


NEUTRAL_DOCS = [
    '<p>a <a href="/1">b</a> <img src="/2" alt="c"></p><section>d<a href="/3" title="e">f</a><x-y><a href="/4">g</a></x-y></section>h<a name="i">j</a><img src="/5">',
    '<div>a<section>b <a href="/1">c</a></section>d <x-y>e<img src="/2" alt="f"></x-y></div>g <section><a href="/3">h</a><section>i</section></section>',
    '<a href="/1">a <x-y>b</x-y><section>c</section></a><section><section><a href="/2">d</a></section>e</section>',
]
NEUTRAL_CFGS = [dict(link=l, img=i, width=40) for l, i in ALL9[::4]]
ALL9_SCALED = [dict(link='after_block', img='after_block', width=40), dict(link='footer', img='after_block'), dict(link='after_block', img='inline')]


def spaces(tier):
    t = tier == 'thorough'
    return [
        Space('trees', trees(3, LABELS), check_tree, 'all forests of up to 3 nodes with links, images, anchors and blocks x 9 placements'),
        Space('links', trees(5 if t else 4, LINKS_ONLY), check_tree, 'all forests of up to {} nodes of links, images and blocks x 9 placements'.format(5 if t else 4)),
        Space('descriptions', descriptions, check_description, 'text and title lengths x placements'),
        Space('many', many(400), check_many, 'up to 400 links and images'),
        Space('positions', positions, check_position, 'links and images in every pair of elements x placements'),
        Space('same', same(4 if t else 3), check_same, 'every sequence of up to {} links and images that have addresses, titles or texts in common'.format(4 if t else 3)),
        Space('equal', equal_parts, check_equal, 'every address, title and text from the same {} x links and images x placements'.format(len(FEW))),
        Space('lengths', lengths(1100 if t else 300), check_lengths, 'texts, titles, addresses and numbers of words and elements of every length x placements'),
        Space('characters', characters, check_characters, 'every character of Unicode in every text and attribute x placements'),
        Space('settings', settings, check_settings, 'settings of the lists of links'),
        attribute_space(NEUTRAL_DOCS, NEUTRAL_CFGS),
        element_space(NEUTRAL_DOCS, NEUTRAL_CFGS),
        words_space(NEUTRAL_DOCS, NEUTRAL_CFGS, t),
        scaling_space(NEUTRAL_DOCS, ALL9_SCALED if t else ALL9_SCALED[:1], t),
    ] + ([Space('trees4', trees(4, LABELS, True), check_tree, 'all forests of 4 nodes')] if t else [])


ASSUMPTIONS = []
