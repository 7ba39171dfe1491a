"""C24 Any input renders: no document makes the renderer fail or hang."""
import contextlib
import io
import itertools
import unicodedata

import ref
from core import COUNT, Space, Violation
from lib import *

CONFIGS = [dict(fmt=f, link=l, img=i, host='h.example')
           for f in ('text', 'gophermap') for l in ('footer', 'after_block', 'inline') for i in ('footer', 'after_block', 'inline')
           if f == 'text' or l != 'inline']
FEW = [CONFIGS[2], CONFIGS[4], CONFIGS[8], CONFIGS[9], CONFIGS[13]]
ELEMENTS = sorted(ref.BLOCKS | ref.VOID | set('''a abbr b bdi bdo button cite code data datalist del dfn em i iframe ins kbd label map mark math meter
noscript object optgroup option output picture progress q rp rt ruby s samp script select slot small span strong style sub sup svg template textarea time u
var video audio canvas center font tt x-y'''.split()))


def attempt(source, cfg, chunks=None):
    """The render must succeed and give a string; feeding it in two pieces as well."""
    info = show(('source', source[:600]), ('config', cfg))
    p = make_parser(cfg)
    with contextlib.redirect_stderr(io.StringIO()):
        for piece in chunks or [source]:
            p.feed(piece)
        p.close()
    COUNT.runs += 1
    COUNT.events += len(TOKEN.findall(source)) + 1
    if type(p.parsed) is not str:
        raise Violation('the result is not a string: {!r}\n'.format(p.parsed) + info)
    p.parsed.encode('utf-8', 'surrogatepass')
    return p.parsed


MARKUP = ['t', ' ', '\n', '<p>', '</p>', '<b>', '</b>', '<ul>', '<li>', '</li>', '</ul>', '<ol>', '<pre>', '</pre>', '<code>', '</code>', '<blockquote>', '</blockquote>', '<br>', '<img>',
          '<img src="/i.png" alt="x">', '<a href="/l">', '<a>', '</a>', '<dl>', '<dt>', '<dd>', '</dl>', '<h1>', '</h1>', '<div>', '</div>', '<hr/>', '<table>', '<td>']
BROKEN = ['t', '<', '>', '<p', '<p ', '<p class', '<p class=', '<p class="', '<p class="a"', '</', '</p', '</>', '<>', '<!', '<!-', '<!--', '-->', '<!-- c -->', '<!DOCTYPE html>', '<!x', '<?', '<?php',
          '?>', '<![CDATA[', ']]>', '&', '&amp', '&amp;', '&#', '&#x', '&#0;', '&#x110000;', '&#xd800;', '&#99999999999;', '&nosuch;', '&#27;', '\x00', '\x1b', '\x1b[', '\x1b[31m', '\t', '\r', '\x0c', '\x85', '\u2028', '\xa0', '\u200b',
          '\u0301', '\ud800', '\U0001f600', '\uff21', '"', "'", '=', '/', '/>', '{', '}', '{}', '{0}', '{x}', '%s', '\\', '<p{}>', '</p{}>', '<script>', '</script>', '<style>', '</style>',
          '<title>', '<textarea>', '<a href=/{}>', '<img alt="{0}" src="{x}">', '<li>', '<pre>', '<a href>', '<p class="\t\n">', '<p id>', '<p id="">', '<p =x>', '<p "x">', '<p a a a>', '<P CLASS=X>', '<1>', '<é>', '<a:b>', '<p/x/y>']


def sequences(tokens, n, configs, exact=False):
    def gen():
        for k in range(n if exact else 1, n + 1):
            for seq in itertools.product(range(len(tokens)), repeat=k):
                for c in configs:
                    yield [list(seq), c]
    return gen


def check_markup(case):
    seq, cfg = case
    return attempt(''.join(MARKUP[i] for i in seq), cfg)


def check_broken(case):
    seq, cfg = case
    pieces = [BROKEN[i] for i in seq]
    return attempt(''.join(pieces), cfg), attempt(''.join(pieces), cfg, pieces)


URLS = ['', ' ', '/', '//', '///', '#', '?', ':', '::', 'x:', ':x', 'a:b:c', '//h', '//h:x', '//h:99999', '//[', '//[::1', '//[::1]', '//]', 'http://', 'http:', 'http:/x', 'http://[', 'http://[x]/', 'http://h:x/',
        'http://h:-1/', 'http://h:99999/', 'http://@', 'http://u:p@h:1/', 'gopher:', 'gopher:x', 'gopher://', 'gopher:///x', 'gopher://:', 'gopher://:70', 'gopher://h:', 'gopher://h:x', 'gopher://h:70000/', 'gopher://[::1]:7/x',
        'gopher://[', 'gopher://h/%zz', 'gopher://h/0', 'gopher://h/\x00', 'mailto:', 'mailto:a@b', 'javascript:alert(1)', 'data:,x', 'tel:+1', '.', '..', '../x', './', 'a.', '.a', 'a.b.', 'a b', 'a\nb', 'a\tb', '\u00e9', '\u2100', '\uff0f',
        'http://\u2100.x/', 'http://a\u2048b/', '{}', '{href}', '%', 'x' * 300, '/' * 100, ':' * 50, '[]', 'http://[]', 'http://[v1.x]/', 'http://[::1%eth0]/', '\ud800', '1:2', '-:x', '+x:y', 'HTTP://H/', 'a;b', 'h:70', '\x01\x02', '\\\\h\\x']


def addresses():
    for i in range(len(URLS)):
        for form in range(7):
            for c in CONFIGS:
                yield [i, form, c]


ADDRESS_FORMS = ['<a href="{0}">text</a>', '<p>a <a href="{0}" title="{0}">text</a> b</p>', '<a href="{0}"></a>', '<img src="{0}">', '<p><img src="{0}" alt="{0}"></p>',
                 '<ul><li><a href="{0}"><img src="{0}" title="x"></a></li></ul>', '<a title="{0}">t</a><img alt="{0}"><a href="{0}" title><img src="{0}" alt></a>']


def check_address(case):
    i, form, cfg = case
    return attempt(ADDRESS_FORMS[form].replace('{0}', html.escape(URLS[i])), cfg)


WIDE_DOCS = [
    '<p>ab cde. f-gh i</p>', '<ul><li>ab cd<ul><li>ef gh</li></ul></li></ul>', '<ol><li>a</li><li>bc d</li></ol>', '<blockquote><p>ab cd</p><p>e</p></blockquote>', '<pre>ab\n cd\n</pre>', '<h1>ab c</h1><h2></h2>',
    '<dl><dt>ab c</dt><dd>de f</dd></dl>', '<p><a href="/x.txt">ab cd</a> e</p>', '<p>a <img src="/x.png" alt="b c"></p>', '<div><div><p>ab cd</p></div></div>', '<p></p><ul><li></li></ul><blockquote></blockquote>', '<p><code>ab</code></p>', 'ab cd',
    '<ul><li><pre>a  b</pre></li><li><blockquote><ol><li>x y</li></ol></blockquote></li></ul>', '<p>a\u0301b\uff21 \x1b[1mcd\x1b[0m e</p>', '<p>https://example.com/a-b/c?d</p>', '<p>a<br>b <b>c d</b></p>',
]
BOXES = [([0, 0, 0, 0], 0), ([1, 1, 1, 1], 1), ([0, 3, 0, 5], 2), ([0, 9, 0, 9], 3)]
KINDS = ['p', 'li', 'blockquote', 'pre', 'dd', 'div', 'h1', 'ul', 'ol > li']


def widths(top):
    def gen():
        for w in range(1, top + 1):
            for d in range(len(WIDE_DOCS)):
                for c in FEW:
                    yield [d, dict(c, width=w), None]
                    yield [d, dict(c, width=w, margin=[1, 2, 1, 3]), None]
                for tag in KINDS:
                    for b in range(len(BOXES)):
                        yield [d, dict(width=w, link='after_block'), [tag, b]]
                for j in ('left', 'right', 'center', 'full', 'none'):
                    for blw in (True, False):
                        for indent in ((0, 0), (2, 0), (0, 3), (5, 9)):
                            yield [d, dict(width=w), [j, blw, indent]]
    return gen


def check_width(case):
    d, cfg, style = case
    cfg = dict(cfg)
    if style and len(style) == 2:
        tag, b = style
        box, edge = BOXES[b]
        cfg['renderers'] = {tag: [None, dict(margin=box, padding=[0, edge, 1, edge], border=['-' * (edge > 0), '|' * edge, '=' * (edge > 0), '!' * edge])]}
    elif style:
        j, blw, indent = style
        cfg['renderers'] = {t: [None, dict(justification=j, break_long_words=blw, initial_indent=indent[0], subsequent_indent=indent[1])] for t in ('p', 'li', 'dd', 'ol > li')}
    return attempt(WIDE_DOCS[d], cfg)


def nested():
    for a in ELEMENTS:
        for b in ELEMENTS:
            for form in range(3):
                for c in FEW[:3]:
                    yield [a, b, form, c]


def check_nested(case):
    a, b, form, cfg = case
    source = ['<{0}>q<{1}>r s</{1}>t</{0}>', '<{0}><{1}></{1}></{0}>', '<{0} href="/x" src="/y" class="c d"><{1} href src class id>r</{0}>s'][form].format(a, b)
    return attempt(source, cfg)


def vocabulary():
    """Every attribute with every kind of value on every element."""
    for tag in ELEMENTS:
        for name in ATTRIBUTES:
            yield [tag, name, False]


def vocabulary_all():
    for tag, name, _ in vocabulary():
        yield [tag, name, True]


def check_vocabulary(case):
    tag, name, complete = case
    out = []
    values = [v for v in ATTRIBUTES[name] if v]
    for i, value in enumerate([None, '{}', '-1.5e3', '\ud800', 'a:b', '\t\n'] + (values if complete else values[:2])):
        attribute = ' ' + name + ('' if value is None else '="{}"'.format(html.escape(value)))
        element = '<{0}{1}>x<{0}{1}>y</{0}></{0}>'.format(tag, attribute)
        source = '{0}<ol{1}><li{1}>a{0}</li></ol><p{1}><a href="/1"{1}>{0}</a><img src="/2"{1}></p>'.format(element, attribute)
        for cfg in (FEW[1], FEW[4]) if complete else (FEW[1 + i % 2 * 3],):
            out.append(attempt(source, cfg))
    return out


def deep():
    for n in (1, 2, 5, 10, 25, 50, 75, 100):
        for tags in [[e] for e in ELEMENTS] + [list(x) for x in itertools.permutations(['ul', 'li', 'blockquote', 'p', 'b', 'a', 'div'], 2)]:
            for closed in (0, 1):
                for w in (1, 20, 67):
                    yield [n, tags, closed, dict(FEW[1], width=w)]


def check_deep(case):
    n, tags, closed, cfg = case
    path = [tags[i % len(tags)] for i in range(n)]
    source = ''.join('<{}{}>'.format(t, ' href="/x"' if t == 'a' else '') for t in path) + 'some text'
    if closed:
        source += ''.join('</{}>'.format(t) for t in reversed(path))
    return attempt(source, cfg)


def long():
    for n in (10, 100, 1000, 5000):
        for i in range(len(LONG)):
            for c in FEW[:3]:
                yield [n, i, c]


LONG = ['x', 'word ', '<p>a</p>', '<br>', '<', '&', '<b>', '</b>', '<li>a', '-', ' ', '\n', '<!--', '\x1b[1m', 'a.', '<a href="/x">y</a>', '<img src="/y" alt="z">', '</p', '<p ', '="', '&#', 'é', '<pre>\n', '\t', '](', '<dt>a<dd>b']


def check_long(case):
    n, i, cfg = case
    piece = LONG[i]
    if piece in ('<b>', '<li>a', '<pre>\n', '<dt>a<dd>b'):
        n = min(n, 50)  # (these nest: within the depth of the property)
    return attempt(piece * n, cfg)


def characters():
    """Every character (of the large blocks of letters, some) in every place."""
    for c in range(0x110000):
        kind = unicodedata.category(chr(c))
        if kind in ('Lo', 'Lu', 'Ll', 'Mn', 'So', 'Cn', 'Co', 'Cs') and c > 0x24f and c % 64 or c >= 0x30000 and c % 4096:
            continue
        for form in range(3):
            yield [c, form]


def check_character(case):
    c, form = case
    ch = ('{}', 'x {} y', '{0}{0}')[form].format(chr(c))
    v = html.escape(ch)
    source = '{0}<ol start="{0}" type="{0}"><li value="{0}">{0}<li class="{0}">a{0}</ol><div id="{0}">{0}</div><h2 id="{0}" class="x {0}">{0}</h2><p lang="{0}" style="{0}">a {0}. {0}B <a href="{0}" title="{0}">{0}</a><a href="http://{0}/">b</a><a href="gopher://h:{0}/a.{0}">c</a><img src="{0}" alt="{0}" width="{0}"><code class="{0}">{0}</code></p><pre>{0}</pre><x-y k="{0}">{0}</x-y>'.format(v)
    return attempt(source, FEW[1]), attempt(source, FEW[4])


VOCABULARY_DOCS = ['a<ul><li>b <a href="/1">c</a><li><b>d</b></ul><x-y>e</x-y>', '<pre><code>a\n b</code></pre><blockquote><p class="x">c<br>d<img src="/2" alt="y"></p></blockquote>', '<dl><dt>a<dd>b</dl><h1 id="x">c</h1>']


def styles():
    """Every style of the renderers with every kind of odd content."""
    for content in ('', ' ', '\n', '\x1b[1m', '\x1b[0m\x1b[1m x', 'ß', 'ŉ', '{}', '{0} {x}', '\x1b', '\ud800', 'a\x00b', '\u2028', 'x' * 100):
        for tag in ('h1', 'p', 'li', 'em', 'a', 'code', 'pre', 'dt', 'dd', 'blockquote'):
            for s in (dict(capitalized=True), dict(spread=1), dict(spread=3, spread_char='_'), dict(centered=True), dict(underlined=True), dict(underlined=True, underline_full=True, centered=True, spread=2),
                      dict(justification='full', capitalized=True), dict(justification='none'), dict(template='<{}>'), dict(line_template='{} >')):
                for w in (1, 3, 67):
                    yield [content, tag, s, w]


def check_style(case):
    content, tag, s, w = case
    return attempt('<{0} href="/x">{1}</{0}>'.format(tag, html.escape(content)), dict(width=w, renderers={tag: [None, s]}))


def spaces(tier):
    t = tier == 'thorough'
    return [
        Space('markup', sequences(MARKUP, 2, CONFIGS), check_markup, 'every sequence of up to 2 of {} tokens, every configuration'.format(len(MARKUP))),
        Space('markup3', sequences(MARKUP, 3, CONFIGS if t else [CONFIGS[4], CONFIGS[13]], True), check_markup, 'every sequence of 3 of the tokens'),
    ] + ([Space('markup4', sequences(MARKUP[3:], 4, [CONFIGS[4]], True), check_markup, 'every sequence of 4 of the tags')] if t else []) + [
        Space('broken', sequences(BROKEN, 2, FEW if t else FEW[:2]), check_broken, 'every sequence of up to 2 of {} pieces of broken markup and odd characters'.format(len(BROKEN))),
    ] + ([Space('broken3', sequences(BROKEN, 3, [CONFIGS[4]], True), check_broken, 'every sequence of 3 of them')] if t else []) + [
        Space('addresses', addresses, check_address, '{} odd addresses in every place, every configuration'.format(len(URLS))),
        Space('widths', widths(30 if t else 12), check_width, 'every width from 1 up, with boxes and justifications'),
        Space('nested', nested, check_nested, 'every element in every element'),
        Space('vocabulary', vocabulary_all if t else vocabulary, check_vocabulary, 'every attribute with every kind of value on every element'),
        Space('characters', characters, check_character, 'every character in every place'),
        words_space(VOCABULARY_DOCS, [FEW[1], FEW[4]], t, judge=attempt),
        Space('deep', deep, check_deep, 'nestings up to a depth of a hundred'),
        Space('long', long, check_long, 'repetitions'),
        Space('styles', styles, check_style, 'odd content of styled elements'),
    ]


ASSUMPTIONS = ['A case that takes more than 20 s, and again more than 60 s, counts as one that does not finish.',
               'Elements nested hundreds of levels deep exceed the recursion limit of Python and are out of scope.']
