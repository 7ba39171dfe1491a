"""C06 The result does not depend on how the document is cut into pieces."""
import itertools

from core import COUNT, Space, Violation
from lib import *

# Short documents: every composition into pieces
SHORT = [
    '<p>a  b\n c</p>', 'a &amp; b', '<b>a</b> <i>b', '<br/>a<br>b ', '<pre>a\n\n b', '<a href=x>y', 'a<!--b--> c', '<p>\n a \n</p>', '<ol><li>a<li>b', ' a \n b \t c',
    '&lt;p&gt; x', 'a</b>c d', '<img src=a>', '<p a="b>c">d', '<h1>a\nb</h1>', '&#65;&#x42; ', 'a<b>b</b>c', '\r\na\r\nb', '<!DOCTYPE x>a', '<x y=\'z\'>w',
]
# Longer documents: every split into up to four pieces
LONG = [
    '<div class="a b" id=x>\n  <p>Some <em>text</em> &amp; more\n  lines &#8212; of it.</p>\n</div>\n',
    '<ul>\n <li>one <a href="/x.txt" title="a  title">link</a></li>\n <li><p>two</p><img src="p.png" alt="an image"/></li>\n</ul>',
    '<pre><code>def f():\n\treturn {}  # x\n\n</code></pre><p>after   it</p>',
    'text <!-- a comment <p> --> more <!-- --> text<br/>and</p> <b>bold<i>both</b> rest',
    '<blockquote><p>a</p>\n\n<p>b <code>c  d</code></p></blockquote><hr><h2> Title\n  here </h2>',
    '<script>if (a < b && c > d) { x("</p>"); }</script><style>p > a { }</style><p>x</p>',
    '<!DOCTYPE html>\n<html><head><title>T</title></head><body><dl><dt>a</dt><dd>b\n c</dd></dl></body></html>\n',
    '<p>AT&T &copy; &notanentity; 1 < 2 &lt; 3 && 4 &#xe9;&eacute;</p>',
    '<?xml version="1.0"?><p attr novalue x=1 y=\'2\'>q</p><![CDATA[ data ]]> tail',
]


def compositions_of(text):
    """Every way to cut a text: bit i of the number tells whether there is a cut after character i."""
    return range(1 << (len(text) - 1))


def short():
    for d, doc in enumerate(SHORT):
        for bits in compositions_of(doc):
            yield [d, bits]


def pieces_of_bits(text, bits):
    out, start = [], 0
    for i in range(len(text) - 1):
        if bits >> i & 1:
            out.append(text[start:i + 1])
            start = i + 1
    out.append(text[start:])
    return out


CFGS = [dict(), dict(link='after_block', img='footer', width=11, optimise=False)]
WHOLE = {}


def compare(doc, pieces, key):
    out = []
    for n, cfg in enumerate(CFGS):
        if (key, n) not in WHOLE:
            WHOLE[key, n] = render_html(doc, cfg)
        p = make_parser(cfg)
        for piece in pieces:
            p.feed(piece)
        p.close()
        COUNT.runs += 1
        COUNT.events += len(pieces) + 1
        if p.parsed != WHOLE[key, n]:
            raise Violation('the result depends on the pieces\n' + show(('pieces', pieces), ('config', cfg), ('at once', WHOLE[key, n]), ('in pieces', p.parsed)))
        out.append(p.parsed)
    return out


def check_short(case):
    d, bits = case
    return compare(SHORT[d], pieces_of_bits(SHORT[d], bits), ('s', d))


def long_(cuts):
    def gen():
        for d, doc in enumerate(LONG):
            for k in range(1, cuts + 1):
                for where in itertools.combinations(range(1, len(doc)), k):
                    yield [d, where]
            yield [d, list(range(1, len(doc)))]
            for size in range(2, 40):
                for start in range(1, size + 1):
                    yield [d, list(range(start, len(doc), size))]
    return gen


def check_long(case):
    d, where = case
    doc = LONG[d]
    where = [0] + list(where) + [len(doc)]
    return compare(doc, [doc[a:b] for a, b in zip(where, where[1:])], ('l', d))


# Every document made of a few tokens, cut at every place, with empty pieces too
TOKENS = ['<p>', '</p>', '<b>', '</b>', 'a b', ' ', '\n', '&amp;', '<br>', '<!--c-->', '<pre>', '</pre>', '<a href="/1">', '<li>', '</x>']


def documents(n):
    def gen():
        for k in range(1, n + 1):
            for tokens in itertools.product(range(len(TOKENS)), repeat=k):
                yield tokens
    return gen


def check_document(case):
    parts = [TOKENS[i] for i in case]
    doc = ''.join(parts)
    WHOLE.clear()
    out = compare(doc, list(doc), 'd')
    compare(doc, parts, 'd')
    compare(doc, [''] + [x for p in parts for x in (p, '')], 'd')
    for i in range(1, len(doc)):
        compare(doc, [doc[:i], doc[i:]], 'd')
    return out


# Characters of which something may be made at the start or end of a text, at every place of a document
SPECIAL = ['\ufeff', '\x00', '\r', '\x1a', '\x0c', '\x85', '\u2028', '\xa0', '\u200b', '\x1b', '\x1b[1m', '\x08', '\ufffd', '\ufffe', '\U0001f600', 'e\u0301', '\u00df', '\x7f', '--', '\\', '#!', '{}', '%', '<?', '\t', '\n\n']
PATTERNS = ['{}', '{}a', 'a{}', 'a{}b', '<p>{}</p>', '<p>a {} b</p>', '<pre>{}a{}</pre>', '<pre>a\n{}\n</pre>', '<b>{}</b>{}', '{}<p>a', '<a href="{}" title="{}">x</a>', '<!--{}-->a', '<img alt="{}" src=x>', '<p>a{}{}b</p>', '<li>a<br>{}<br>b', '&amp;{}&lt;']


def specials():
    for s in range(len(SPECIAL)):
        for p in range(len(PATTERNS)):
            yield [s, p]


def check_special(case):
    s, p = case
    doc = PATTERNS[p].replace('{}', SPECIAL[s])
    WHOLE.clear()
    out = compare(doc, list(doc), 'd')
    for i in range(0, len(doc) + 1):
        for j in range(i, len(doc) + 1):
            compare(doc, [doc[:i], doc[i:j], doc[j:]], 'd')
    return out


UNITS = ['x', 'ab ', 'a&amp;', '<b>c</b>', '<p>d</p>', '<a href="/1">e</a>', '<!-- -->', '<br>', '\n', '&#x41;', '</i>']


def many(top):
    """A lot of pieces."""
    known, new = mentioned_words()
    sizes = sorted({n for n in list(range(1, 30)) + [2 ** k + d for k in range(5, top) for d in (-1, 0, 1)] + [m + d for m in known['numbers'] + new['numbers'] for d in (-1, 0, 1)] if 0 < n < 2 ** top})
    def gen():
        for n in sizes:
            for u in range(len(UNITS)):
                for around in (0, 1, 2):
                    if n < 300 or UNITS[u] in ('x', 'ab ', 'a&amp;', '<!-- -->', '\n', '&#x41;') and (n < 5000 or u < 2):
                        yield [n, u, around]
    return gen


def check_many(case):
    n, u, around = case
    before, after = [('', ''), ('<p>q', '</p>r'), ('<pre>q', '</pre>r')][around]
    doc = before + UNITS[u] * n + after
    WHOLE.clear()
    compare(doc, [before] + [UNITS[u]] * n + [after], 'd')
    compare(doc, list(doc), 'd')
    return compare(doc, [doc[i:i + 7] for i in range(0, len(doc), 7)], 'd')


def spaces(tier):
    t = tier == 'thorough'
    return [
        Space('short', short, check_short, 'every composition into pieces of {} short documents'.format(len(SHORT))),
        Space('long', long_(3 if t else 1), check_long, 'every cut into up to {} pieces (and pieces of every size) of {} documents'.format(4 if t else 2, len(LONG))),
        Space('long2', (lambda: (c for c in long_(2)() if len(c[1]) == 2)), check_long, 'every cut into three pieces') if not t else
        Space('long4', (lambda: ([d, w] for d in range(3) for w in itertools.combinations(range(1, 40), 4))), check_long, 'every cut into five pieces of the first 40 characters'),
        Space('specials', specials, check_special, 'every special character in every place, cut at every pair of positions'),
        Space('many', many(13 if t else 12), check_many, 'pieces in every number up to 30, around the powers of two and the numbers that the code mentions'),
        Space('documents', documents(4 if t else 3), check_document, 'every document of up to {} tokens, cut everywhere'.format(4 if t else 3)),
    ]


ASSUMPTIONS = []
