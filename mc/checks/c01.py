"""C01 Text is preserved: every character once, in order, as data."""
import html
import itertools

import ref
from core import Space, Violation
from lib import *

LABELS = BLOCK_LABELS + INLINE_LABELS
ALPHA = 'abcdefghijklnopqrstuvwxyz'
CFGS = [
    dict(link='inline', img='footer'),
    dict(link='footer', img='inline', width=9),
    dict(link='after_block', img='after_block', width=23),
]


def token(i, leaf):
    # Distinguishable letters; the second form has a long word
    return {'t': ' {0}{1} {1} ', 'l': '{0}{1}{0}{0}{1}{1}{0}{1}{1}{1}{0}{0}'}[leaf].format(ALPHA[2 * i], ALPHA[2 * i + 1])


def letters(s):
    return ''.join(c for c in s if c in ALPHA)


def expected_text(nodes, cfg):
    """The letters of a document, with the descriptions of links where these are listed."""
    footer = []

    def walk(nodes, blocks):
        out = ''
        for n in nodes:
            if isinstance(n, str):
                out += letters(n)
                continue
            tag, attrs, kids = n
            mine = []
            body = walk(kids, mine if tag in ref.BLOCKS else blocks)
            if tag == 'a':
                if cfg['link'] == 'footer':
                    footer.append((n, body))
                elif cfg['link'] == 'after_block':
                    blocks.append((n, body))
            # Descriptions of links are in document order of the start tags
            out += body + ''.join(b for _, b in sort_starts(mine))
        return out

    order = {}

    def index(nodes):
        for n in nodes:
            if not isinstance(n, str):
                order[id(n)] = len(order)
                index(n[2])

    index(nodes)

    def sort_starts(links):
        return sorted(links, key=lambda l: order[id(l[0])])

    top = []
    out = walk(nodes, top)
    return out + ''.join(b for _, b in sort_starts(top) + sort_starts(footer))


EXTRACTED = {'a': ['ExtractedLinkRenderer', dict(max_link_description=100000, templates=['\n[{link_reference}] {description}: {href}'] * 2)],
             'img': ['ExtractedImageLinkRenderer', dict(templates=['\n[{link_reference}] {href}'] * 2)]}
IMAGES = {'img': ['ImageRenderer', dict(templates=dict(reference='![{link_reference}]', inline='!({href})'))]}
SPEC = {'a': ('a', {'href': '/1'}), 'img': ('img', {'src': '/2'})}


def trees(size):
    def gen():
        for n, cfg in itertools.product(range(len(CFGS)), range(1)):
            for f in forests_upto(size, LABELS, ['t', 'l'], content_model):
                yield [n, f]
    return gen


def check_tree(case):
    n, f = case
    cfg = dict(CFGS[n], renderers=IMAGES, extracted=EXTRACTED)
    nodes = number_texts(f, SPEC, token)
    source = to_html(nodes)
    out = render_html(source, cfg)
    want = expected_text(nodes, cfg)
    if letters(out) != want:
        raise Violation('the text is not preserved\n' + show(('source', source), ('config', cfg), ('text', want), ('output', out)))
    return out


SPECIAL = ['{}', '{0}', '{1}', '{content}', '{description}', '{{', '}}', '{', '}', '{}{}', '{!r}', '{:>30}', '%s', '%', '%(x)s',
           '\\', '\\1', '\\n', '\\g<0>', '<', '>', '<b>', '&', '&amp;', '&#65;', '"', "'", '*', '**', '_', '`', '```', '#', '[1]',
           '[', ']', '(', ':', '-', '--', '$', '$1', '^', '|', '~', '~~', '.', '!', '?', 'é', '日本', '😀', 'e\u0301', 'ß', 'ﬁ', '\u200b',
           '[m', '0m', 'none', 'None', '0', '\\033[1m', '//', '@', '+', '=', ';', ',']


def special():
    for s in SPECIAL:
        for text in (s, 'x' + s + 'y', s + ' ' + s + ' a{}b ' + s):
            for tag in LABELS:
                if tag in ('br', 'img'):
                    continue
                for outer in (None, 'p', 'li', 'blockquote', 'b'):
                    for width in (67, 3):
                        if outer and width == 3:
                            continue
                        node = [tag, dict(href='/1') if tag == 'a' else {}, [text]]
                        yield [dict(width=width), [node] if outer is None else [[outer, {}, ['q ', node, ' r']]]]


def attributes():
    for s in SPECIAL:
        for value in (s, 'x' + s, s + ' and ' + s):
            for link, img in itertools.product(('inline', 'footer', 'after_block'), repeat=2):
                for outer in ('p', 'blockquote', 'h2', 'section', 'li'):
                    yield [dict(link=link, img=img, width=300),
                           [[outer, {}, ['q ', ['a', dict(href=value, title=value), ['t']], ['img', dict(src=value, alt=value), []]]]]]


ENTITIES = ['&lt;', '&gt;', '&amp;', '&quot;', '&#65;', '&#x41;', '&#X41;', '&copy;', '&eacute;', '&amp;lt;', '&amp;amp;', '&lt;b&gt;',
            '&lt;/p&gt;', '&', '&&', '&a', '&a;', '&amp', '&lt', '&#', '&#;', '&#x;', '&unknown;', 'a&b', 'a & b', '&#123;&#125;', '&lbrace;0&rbrace;',
            'AT&T', '&#8364;', '&#128512;', '&notit;', '&hearts;&hearts;']


def entities():
    for e in ENTITIES:
        for pattern in ('{}', 'x{}y', '{} z', 'x {}', '{0} {0}'):
            for tag in LABELS:
                if tag in ('br', 'img'):
                    continue
                for outer in (None, 'blockquote', 'ul'):
                    yield [pattern.format(e), tag, outer]


def check_entities(case):
    text, tag, outer = case
    open_, close = ('<{}>'.format(outer), '</{}>'.format(outer)) if outer else ('', '')
    source = '{}<{}{}>{}</{}>{}'.format(open_, tag, ' href="/1"' if tag == 'a' else '', text, tag, close)
    node = [tag, dict(href='/1') if tag == 'a' else {}, [html.unescape(text)]]
    out = render_html(source)
    expect_equal(out, ref.render([[outer, {}, [node]] if outer else node]), source)
    return out


def long_words(limit, widths):
    def gen():
        for tag in ('p', 'li', 'dd', 'blockquote', 'pre', 'h2', 'div', 'section', 'td'):
            for outer in (None, 'div', 'blockquote', 'ol', 'dl'):
                for w in widths:
                    for n in list(range(1, 40)) + list(range(40, limit, 23)):
                        yield [w, tag, outer, n]
    return gen


def check_long(case):
    width, tag, outer, n = case
    alphabet = 'abcdefghijklmnopqrstuvwxyz'
    word = ''.join(alphabet[(i * i + i) % 26] for i in range(n))
    text = word + ' x' + word[::-1] + ' ' + word[:5]
    node = [tag, {}, [text]]
    nodes = [[outer, {}, [node]]] if outer else [node]
    out = render(nodes, dict(width=width))
    if ''.join(c for c in out if c in alphabet) != text.replace(' ', ''):
        raise Violation('the text is not preserved\n' + show(('case', nodes), ('width', width), ('output', out)))
    return out


def many():
    for count in list(range(1, 60)) + [99, 100, 101, 250, 1000]:
        for tag in ('p', 'li', 'blockquote', 'section', 'b', 'x', 'dd', 'h1', 'a'):
            for width in (67, 12):
                yield [count, tag, width]


def check_many(case):
    count, tag, width = case
    texts = [''.join(ALPHA[int(d)] for d in str(i)) for i in range(count)]
    source = ' '.join('<{0}{2}>{1}</{0}>'.format(tag, t, ' href="/1"' if tag == 'a' else '') for t in texts)
    out = render_html(source, dict(width=width, link='inline'))
    if letters(out) != ''.join(texts):
        raise Violation('the text is not preserved\n' + show(('source', source), ('width', width), ('output', out)))
    return out


LINES = ['', ' ', 'x', 'yz', ' xy z', 'y  ', ' \tz x']


def line_shapes(n):
    def gen():
        for k in range(2, n + 1):
            for shape in itertools.product(range(len(LINES)), repeat=k):
                for tag in ('p', 'li', 'section', 'b', 'pre', 'h2') if k < n else ('p', 'b'):
                    yield [tag, shape]
        for k in list(range(1, 40)) + [100, 257]:
            for i in range(len(LINES)):
                for tag in LABELS:
                    if tag not in ('br', 'img'):
                        yield [tag, [i] * k]
    return gen


def check_lines(case):
    # Any number of lines of source, of any shape, with and without other elements next to them
    tag, shape = case
    alphabet = itertools.cycle(ALPHA)
    text = '\n'.join(''.join(next(alphabet) if c.isalpha() else c for c in LINES[i]) for i in shape)
    outs = []
    for newline in ('\n', '\r\n'):
        t = text.replace('\n', newline)
        source = '<{0}{1}>{2}<i>qq</i>{2}</{0}>{2}'.format(tag, ' href="/1"' if tag == 'a' else '', t)
        out = render_html(source, dict(link='inline', width=20))
        want = letters(text + 'qq' + text * 2)
        if letters(out) != want:
            raise Violation('the text is not preserved\n' + show(('source', source), ('text', want), ('output', out)))
        outs.append(out)
    return outs


BLOCK = 128
CONTEXTS = [
    # open, close, whether the text is the value of an attribute, options
    ('<p>', '</p>', False, dict(width=40)),
    ('<p>', '</p>', False, dict(fmt='gophermap', host='h.example', port=70, width=40)),
    ('<p>q <i>', '</i> r</p>', False, dict(optimise=True, width=9)),
    ('', '', False, dict(width=67)),
    ('<pre>', '</pre>', False, dict(width=67)),
    ('<pre><code>', '</code></pre>', False, dict(width=67)),
    ('<blockquote><ul><li>', '</li></ul></blockquote>', False, dict(width=30)),
    ('<dl><dt>', '</dt></dl>', False, dict(width=30)),
    ('<h2>', '</h2>', False, dict(width=30)),
    ('<section><p>', '</p></section>', False, dict(width=30)),
    ('<p><a href="/1">', '</a></p>', False, dict(link='footer', width=67)),
    ('<p><a href="/1">', '</a></p>', False, dict(link='inline', width=67)),
    ('<p><a href="/1" title="', '"></a></p>', True, dict(link='inline', width=67)),
    ('<p><img src="/1" alt="', '"></p>', True, dict(img='inline', width=67)),
    ('<p><a href="/', '">t</a></p>', True, dict(link='inline', width=67)),
    ('<p><a href="/', '">t</a></p>', True, dict(link='footer', width=67)),
]
TITLED = {'a': ['InlineLinkRenderer', dict(templates=dict(reference='{content}{title}{href}', inline='{content}{title}{href}', untitled='{content}{href}'))]}


def characters():
    for start in range(0, 0x110000, BLOCK):
        for form in range(3):
            for n in range(len(CONTEXTS)):
                # Beyond what is assigned, one form and one context of each sort
                if start >= 0x20000 and start < 0xe0000 or start >= 0xe1000:
                    if form or n not in (0, 4, 9, 13):
                        continue
                yield [start, form, n]


def visible(s):
    return ''.join(c for c in s if not c.isspace())


def check_characters(case):
    start, form, n = case
    open_, close, value, cfg = CONTEXTS[n]
    chars = [chr(c) for c in range(start, start + BLOCK) if not 0xd800 <= c < 0xe000]
    if not chars:
        return ''
    text = ('xa{}bx ', 'x{}x', 'x {} x ')[form]
    text = ''.join(text.format(c) for c in chars)
    source = open_ + html.escape(text) + close
    out = render_html(source, cfg)
    shown = re.sub('(?m)^> ?', '', out) if 'blockquote' in open_ else out
    if visible(text) not in visible(shown):
        raise Violation('a character is not preserved\n' + show(('source', source), ('config', cfg), ('output', out)))
    return out


NEUTRAL_DOCS = [
    '<p>ab <x-y>cd</x-y> ef</p><section>gh <b>ij</b></section>kl<ul><li>mn<x-y>op<em>qr</em></x-y></li></ul>',
    '<x-y>a</x-y><div><x-y><section>b</section></x-y>c <a href="/1">d</a></div><pre>e <x-y>f</x-y></pre><h2>g <x-y>h</x-y></h2>',
    '<blockquote>a<section><p>b</p><x-y>c<br>d</x-y></section></blockquote><dl><dt>e</dt><dd>f <x-y>g</x-y></dd></dl><x-y>h<section>i</section>j</x-y><img src="/2" alt="k">',
]
NEUTRAL_CFGS = [dict(width=30, link='inline'), dict(fmt='gophermap', host='h', width=9)]


def spaces(tier):
    thorough = tier == 'thorough'
    size = 4 if thorough else 3
    return [
        Space('trees', trees(size), check_tree, 'all forests of up to {} nodes over {} elements and 2 texts, 3 configurations'.format(size, len(LABELS))),
        Space('special', special, ref_check, 'every special string x element x context'),
        Space('attributes', attributes, ref_check, 'every special string as address, title and alternate text x placements'),
        Space('entities', entities, check_entities, 'every character reference x element x context'),
        Space('long-words', long_words(400 if thorough else 120, range(1, 30) if thorough else (1, 2, 5, 11, 67)), check_long, 'word lengths x widths x blocks'),
        Space('lines', line_shapes(5 if thorough else 4), check_lines, 'texts of every shape of lines of source'),
        Space('characters', characters, check_characters, 'every character of Unicode x ways to be next to others x contexts'),
        Space('many', many, check_many, 'documents with up to 1000 elements in a row'),
        attribute_space(NEUTRAL_DOCS, NEUTRAL_CFGS),
        element_space(NEUTRAL_DOCS, NEUTRAL_CFGS),
        words_space(NEUTRAL_DOCS, NEUTRAL_CFGS, thorough),
        scaling_space(NEUTRAL_DOCS, NEUTRAL_CFGS, thorough),
    ]


ASSUMPTIONS = ['Elements, attributes and text come from the listed alphabets; trees are bounded in size.']
