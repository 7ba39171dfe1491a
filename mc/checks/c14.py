"""C14 Gophermap output has one well-formed line for each link, and only those."""
import itertools
import re

import ref
from core import Space, Violation
from lib import *

HOST, PORT = 'gopher.example', 7070
LINE = re.compile(r'([0-9a-zA-Z])\[(\d+)\] ([^\t\n]*)\t([^\t\n]*)\t([^\t\n]+)\t(\d+)')
PLACES = [(l, i) for l in ('footer', 'after_block') for i in ('inline', 'footer', 'after_block')]
SPEC = {
    'a': ('a', {'href': '/l'}), 'a2': ('a', {'href': 'http://x.org/', 'title': 'Ti tle'}), 'anchor': ('a', {'name': 'n'}),
    'img': ('img', {'src': '/g.png', 'alt': 'pic'}), 'img2': ('img', {'src': 'gopher://h.org/i', 'alt': 'A longer description'}),
}
LABELS = ['a', 'a2', 'img', 'img2', 'anchor', 'p', 'blockquote', 'ul', 'li', 'b', 'pre', 'h2']
LINKS_ONLY = ['a', 'img', 'p', 'div', 'b']


def documents_links(nodes, cfg):
    out = []
    for n in nodes:
        if isinstance(n, str):
            continue
        if n[0] == 'a' and n[1].get('href', None) is not None:
            out.append(n)
        elif n[0] == 'img' and cfg['img'] != 'inline':
            out.append(n)
        out += documents_links(n[2], cfg)
    return out


def invariant(nodes, cfg, source, out, total=None):
    """One line of four fields for each link; no other line with a tab."""
    links = documents_links(nodes, cfg) if total is None else range(total)
    info = show(('source', source), ('config', cfg), ('output', out))
    numbers = []
    for line in out.split('\n'):
        if '\t' in line:
            m = LINE.fullmatch(line)
            if not m:
                raise Violation('not a link line: {!r}\n'.format(line) + info)
            numbers.append(int(m.group(2)))
            if total is None and int(m.group(2)) <= len(links):
                link = links[int(m.group(2)) - 1]
                want = ref.gopher_link(re.sub('[\t\r\n]', '', (link[1].get('href') if link[0] == 'a' else link[1].get('src') or '').strip()), dict(cfg))
                if (m.group(1), m.group(4), m.group(5), m.group(6)) != tuple(str(x) for x in want):
                    raise Violation('link {} is {!r} rather than {!r}\n'.format(m.group(2), line, want) + info)
    if sorted(numbers) != list(range(1, len(links) + 1)):
        raise Violation('there are lines for the links {} rather than for 1 to {}\n'.format(numbers, len(links)) + info)
    return numbers


def config(p, **more):
    return dict(dict(fmt='gophermap', host=HOST, port=PORT, link=PLACES[p][0], img=PLACES[p][1], width=60), **more)


def trees(size, labels, margins):
    def gen():
        for f in forests_upto(size, labels, ['t']):
            for p in range(len(PLACES)):
                for m in margins:
                    yield [p, m, f]
    return gen


def distinct(nodes, counter=None):
    counter = counter if counter is not None else itertools.count(1)
    for n in nodes:
        if not isinstance(n, str):
            for k in ('href', 'src'):
                if n[1].get(k):
                    n[1][k] += str(next(counter))
            distinct(n[2], counter)
    return nodes


def check_tree(case):
    p, m, f = case
    cfg = config(p, margin=m)
    nodes = distinct(number_texts(f, SPEC, lambda i, l: ' wo\trd{} '.format(i)))
    source = to_html(nodes)
    out = render_html(source, cfg)
    numbers = invariant(nodes, cfg, source, out)
    if PLACES[p] == ('footer', 'footer') and numbers != sorted(numbers):
        raise Violation('the lines are not in the order of the document\n' + show(('source', source), ('output', out)))
    expect_equal(out, ref.render(nodes, cfg), source, cfg)
    return out


DIRT = ['\t', '\n', '\r\n', '\r', '\t\t', ' \t ', '\n\n', '\x0b', '\x0c', '\x1c', '\x85', '\u2028', '\xa0', 'a\tb', 'a\nb', 'a\r\nb', 'a\n', '\na', '\ta', 'a\t', '', ' ', '&#9;', '&#10;', '&#13;',
        'a&#9;b&#10;c', '%09', 'a%09b', '%0A', '%0d%0a', '%00', '%2509', 'a+b%20c', 'x' * 100, 'x ' * 60, 'a\x0bb', 'a\x85b', 'a\u2028b', 'a\x1cb', '\x1b[1m\tx\x1b[0m']


def dirty():
    for d in DIRT:
        for where in ('text', 'title', 'href', 'alt', 'src', 'pre', 'heading', 'all', 'name'):
            for p in range(len(PLACES)):
                for margin in ([0, 0, 0, 0], [1, 2, 1, 3]):
                    for outer in ('p', 'blockquote', 'li', 'pre', 'section', 'h2', 'td', 'dd'):
                        yield [d, where, p, margin, outer]


def check_dirty(case):
    d, where, p, margin, outer = case
    cfg = config(p, margin=margin)
    def v(*names):
        return d if where in names + ('all',) else 'ok'
    source = ('<{o}>q{text} <a href="/{href}" title="{title}">t{text}</a> <img src="/{src}" alt="{alt}"> <a href="http://h/{href}">u{text}</a> '
              '<a name="{name}" title="{title}">no</a><img src="/{src}"> e{text}</{o}><pre>{pre}</pre><h2>{heading}</h2>').format(
        o=outer, text=v('text'), href=v('href'), title=v('title'), src=v('src'), alt=v('alt'), pre=v('pre'), heading=v('heading'), name=v('name'))
    out = render_html(source, cfg)
    invariant([], cfg, source, out, total=2 if PLACES[p][1] == 'inline' else 4)
    return out


def settings():
    for p in range(len(PLACES)):
        for margin in ([0, 0, 0, 0], [0, 0, 1, 2], [1, 3, 0, 0], [2, 2, 2, 2]):
            for padding in ([0, 0, 0, 0], [1, 2, 1, 2]):
                for border in (['', '', '', ''], ['-', '|', '-', '|']):
                    for limit in (0, 10, 100):
                        for outer in ('p', 'blockquote', 'ul', 'div', 'boxed'):
                            for m in ([0, 0, 0, 0], [1, 0, 1, 4]):
                                yield [p, margin, padding, border, limit, outer, m]


def check_settings(case):
    p, margin, padding, border, limit, outer, m = case
    s = dict(margin=margin, padding=padding, border=border, max_link_description=limit)
    cfg = config(p, margin=m, extracted={'a': ['ExtractedLinkRenderer', s], 'img': ['ExtractedImageLinkRenderer', s]},
                 renderers={'boxed': ['BlockRenderer', dict(padding=[1, 1, 1, 1], border=['#', '#', '#', '#'], margin=[1, 2, 1, 2])]})
    nodes = [[outer, {}, ['q ', ['a', {'href': '/1'}, ['some text of it']], ' ', ['img', {'src': '/2.gif', 'alt': 'the alternate text'}, []], ['p', {}, [['a', {'href': 'http://a/', 'title': 'a title'}, ['x']]]]]]]
    source = to_html(nodes)
    out = render_html(source, cfg)
    invariant(nodes, cfg, source, out)
    expect_equal(out, ref.render(nodes, cfg), source, cfg)
    return out


def many():
    for n in list(range(1, 30)) + [99, 100, 101, 400]:
        for p in range(len(PLACES)):
            for outer in (None, 'p', 'li', 'blockquote'):
                yield [n, p, outer]


def check_many(case):
    n, p, outer = case
    cfg = config(p)
    nodes = []
    for i in range(n):
        pair = [['a', {'href': '/l{}.txt'.format(i)}, ['t{}'.format(i)]], ' ', ['img', {'src': '/i{}.gif'.format(i), 'alt': 'd{}'.format(i)}, []], ' ']
        nodes += pair if outer is None else [[outer, {}, pair]]
    source = to_html(nodes)
    out = render_html(source, cfg)
    numbers = invariant(nodes, cfg, source, out)
    expect_equal(out, ref.render(nodes, cfg), source, cfg)
    return out


PARTS = ('text', 'href', 'alt', 'src', 'pre', 'words', 'segments', 'query', 'host', 'web', 'title', 'all')


def lengths(limit):
    """Texts, addresses and other parts of every length."""
    def gen():
        for n in list(range(0, limit)) + [1000, 1023, 1024, 1025, 2049, 4097, 10001]:
            for part in PARTS:
                if n > 1100 and part == 'words':
                    continue
                for p in ((0, 1, 2) if n % 10 else range(len(PLACES))):
                    yield [n, part, p]
    return gen


def check_lengths(case):
    n, part, p = case
    x = 'x' * (n - 1) + 'y' * (n > 0)

    def v(name):
        return x if part in (name, 'all') else 'ok'
    cfg = config(p, extracted={'a': ['ExtractedLinkRenderer', dict(max_link_description=100000)]})
    if part == 'host':
        cfg['host'] = x + '.example'
    hrefs = ['/' + v('href'), 'gopher://{}.org:71/1/{}'.format(x if part == 'host' else 'h', v('href')), 'http://h.org/' + v('web'),
             '/' + 's/' * n if part == 'segments' else '/s', '/q?' + v('query'), 'gopher://h/0' + v('web')]
    nodes = [['p', {}, ['q ', ['img', {'src': '/' + v('src'), 'alt': v('alt')}, []]] +
              [['a', {'href': h, 'title': v('title')}, ['a ' * n if part == 'words' else v('text')]] for h in hrefs]], ['pre', {}, [v('pre')]]]
    source = to_html(nodes)
    out = render_html(source, cfg)
    invariant(nodes, cfg, source, out)
    expect_equal(out, ref.render(nodes, cfg), source, cfg)
    return out


def characters():
    for start in range(0, 0x110000, 64):
        if 0x20000 <= start < 0xe0000 or start >= 0xe1000:
            if start % 0x1000:
                continue
        for part in ('text', 'title', 'href', 'alt', 'pre', 'web', 'gopher'):
            for p in (0, 2):
                yield [start, part, p]


def check_characters(case):
    """No character makes a line anything else than it is."""
    start, part, p = case
    cfg = config(p, width=200)
    chars = [chr(c) for c in range(start, start + 64) if not 0xd800 <= c < 0xe000]
    text = ''.join('x{}'.format(c) for c in chars)

    def v(name):
        return text if part == name else 'ok'
    hrefs = ['/' + v('href'), 'http://h.org/' + v('web'), 'gopher://h.org/' + v('gopher')]
    nodes = [['p', {}, [v('text'), ['img', {'src': '/i' + v('href'), 'alt': v('alt')}, []]] +
              [['a', {'href': h, 'title': v('title')}, [v('text')]] for h in hrefs]], ['pre', {}, [v('pre')]]]
    source = to_html(nodes)
    out = render_html(source, cfg)
    invariant(nodes, cfg, source, out)
    return out


NEUTRAL_DOCS = [
    '<p>a <a href="/1">b</a> <img src="/2" alt="c"></p><section>d<a href="http://x/" title="e">f</a><x-y><a href="gopher://h/4">g</a></x-y></section>h<a name="i">j</a><img src="/5">',
    '<div>a<section>b <a href="/1">c</a></section>d <x-y>e<img src="/2" alt="f"></x-y></div>g <section><a href="/3">h</a></section>',
]
NEUTRAL_CFGS = [config(p) for p in (1, 5)]


def spaces(tier):
    t = tier == 'thorough'
    plain = [[0, 0, 0, 0]]
    return [
        Space('trees', trees(3, LABELS, plain), check_tree, 'all forests of up to 3 nodes with links, images, anchors and blocks x 6 placements'),
        Space('links', trees(5 if t else 4, LINKS_ONLY, plain), check_tree, 'all forests of up to {} nodes of links, images and blocks x 6 placements'.format(5 if t else 4)),
        Space('margins', trees(3 if t else 2, LABELS, [[1, 2, 1, 3], [0, 0, 0, 1]]), check_tree, 'the same with margins of the document'),
        Space('dirty', dirty, check_dirty, 'tabs, line breaks and control characters in every attribute and text'),
        Space('settings', settings, check_settings, 'settings of the link lines and of the blocks around them'),
        Space('lengths', lengths(1100 if t else 300), check_lengths, 'texts, addresses and their parts, hosts and titles of every length x placements'),
        Space('characters', characters, check_characters, 'every character of Unicode in every text and attribute x placements'),
        Space('many', many, check_many, 'up to 800 links and images'),
        attribute_space(NEUTRAL_DOCS, NEUTRAL_CFGS),
        element_space(NEUTRAL_DOCS, NEUTRAL_CFGS),
        words_space(NEUTRAL_DOCS, NEUTRAL_CFGS, t),
        scaling_space(NEUTRAL_DOCS, NEUTRAL_CFGS, t),
    ]


ASSUMPTIONS = ['The configured host has no tabs or line breaks in it.']
