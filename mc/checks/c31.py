"""C31 How the markup is written makes no difference."""
import itertools
import re

from core import COUNT, Space, Violation
from lib import *

# Documents as tokens: texts (literal characters), ('O', tag, [(attribute, value)]), ('C', tag)


def O(tag, **attrs):
    return ['O', tag, [[k.rstrip('_'), v] for k, v in attrs.items()]]


def C(tag):
    return ['C', tag]


DOCS = [
    [O('p', class_='a b'), 'x & y', O('b'), 'z', C('b'), C('p'), O('p'), 'w', C('p')],
    ['q ', O('a', href='/1?a=b&c', title='T "t"'), 'l\u00e9', C('a'), ' r', O('br'), O('img', src='/2', alt="it's"), 's'],
    [O('ul'), O('li'), 'a b', C('li'), O('li'), O('p'), 'c', C('p'), 'd', C('li'), C('ul')],
    [O('pre'), 'a\n  <b>\n', O('code'), ' c', C('code'), '\n\nd', C('pre'), 'e'],
    [O('blockquote'), O('h2', id='x'), 'T', C('h2'), O('p'), 'a', C('p'), C('blockquote'), 'f', O('hr'), 'g'],
    [O('dl'), O('dt'), 'T', C('dt'), O('dd'), 'a ', O('em'), 'b', C('em'), C('dd'), C('dl'), O('ol'), O('li'), 'c', C('li'), C('ol')],
    [O('div', class_='n'), O('span'), ' a ', O('x-y'), 'b', C('x-y'), C('span'), C('div'), 'c', O('u'), 'd'],
    [O('p'), 'One. Two three, four-five six.', O('br'), 'seven', C('p')],
    [O('div'), 'x  y\n  z ', O('b'), '  u \t', C('b'), '\n\n', O('i'), 'v', C('i'), C('div'), ' w\n\n s '],
    [O('li'), 'x\n\n', O('span'), 'y \n', C('span'), ' z  z'],
    [O('code', class_='a'), 'x\ny', C('code'), O('h1'), O('img', src='/i'), C('h1'), O('a', name='n'), 't', C('a')],
]
RULES = {'.a': [None, dict(capitalized=True)], '#x': [None, dict(template='= {} =')], 'p:first-child': [None, dict(margin=[2, 0, 0, 1])],
         'b + *': [None, dict(template='<{}>')], 'li:last-child': [None, dict(line_template='- {}')], '[title]': [None, dict(capitalized=True)],
         'div > span:first-child': ['EmRenderer', {}], '.n': [None, dict(padding=[0, 0, 1, 2])]}
CFGS = [dict(width=12, renderers=RULES), dict(width=12, renderers=RULES, link='inline', optimise=False),
        dict(width=30, renderers=RULES, fmt='gophermap', host='h', link='after_block', img='footer')]


def escape_text(s):
    return html.escape(s, quote=False)


def write(tokens, start=None, end=None):
    out = []
    for t in tokens:
        if isinstance(t, str):
            out.append(escape_text(t))
        elif t[0] == 'O':
            out.append('<' + t[1] + ''.join(' {}="{}"'.format(k, html.escape(v)) for k, v in t[2]) + '>')
        else:
            out.append('</' + t[1] + '>')
    return out


expected_cache = {}


def expected(d, c):
    if (d, c) not in expected_cache:
        expected_cache[d, c] = render_html(''.join(write(DOCS[d])), CFGS[c])
    return expected_cache[d, c]


def compare(d, c, source):
    out = render_html(source, CFGS[c])
    if out != expected(d, c):
        raise Violation('a document written in another way is rendered differently\n' + show(
            ('as usual', ''.join(write(DOCS[d]))), ('written as', source), ('config', CFGS[c]), ('expected', expected(d, c)), ('actual', out)))
    return out


# --------------------------------------------------------- comments and the like

SILENT = ['<!-- c -->', '<!---->', '<!-- <p> </p> & -- x\n -->', '<!DOCTYPE html>', '<?php x ?>', '<!ELEMENT y>', '<![CDATA[z]]>', '<!--a--><!--b-->']


def gaps(d):
    """The positions where a comment can be: between tokens, and between the characters of texts."""
    pieces = write(DOCS[d])
    places = []
    for i, (piece, token) in enumerate(zip(pieces, DOCS[d])):
        places.append((i, 0))
        if isinstance(token, str):
            n = len(re.findall('&[a-z]+;|.', piece, re.S))
            places += [(i, j) for j in range(1, n)]
    return places + [(len(pieces), 0)]


def silent(n):
    def gen():
        for d in range(len(DOCS)):
            for c in range(len(CFGS)):
                for where in itertools.combinations(range(len(gaps(d))), n):
                    for what in itertools.product(range(len(SILENT) if n == 1 else 2), repeat=n):
                        yield [d, c, where, what]
    return gen


def insert(d, inserts):
    pieces = write(DOCS[d])
    out = []
    for i, piece in enumerate(pieces + ['']):
        units = re.findall('&[a-z]+;|.', piece, re.S) if i < len(DOCS[d]) and isinstance(DOCS[d][i], str) else [piece]
        for j, u in enumerate(units):
            out += [SILENT[w] for g, w in inserts if g == (i, j)]
            out.append(u)
    return ''.join(out)


def check_silent(case):
    d, c, where, what = case
    places = gaps(d)
    return compare(d, c, insert(d, [(places[g], w) for g, w in zip(where, what)]))


def all_silent():
    for d in range(len(DOCS)):
        for c in range(len(CFGS)):
            for w in range(len(SILENT)):
                for step in (1, 2, 3):
                    yield [d, c, w, step]


def check_all_silent(case):
    d, c, w, step = case
    return compare(d, c, insert(d, [(g, w) for g in gaps(d)[::step]]))


# ------------------------------------------------------------ the form of a tag

TAG_FORMS = [lambda s: s, str.upper, str.title, lambda s: s[:1].upper() + s[1:].lower()]
ENDS = ['</{}>', '</{} >', '</{}\n>', '</{}\t x="y">']


def tags(d):
    return [i for i, t in enumerate(DOCS[d]) if not isinstance(t, str)]


def cases_of_tags(full):
    def gen():
        for d in range(len(DOCS)):
            n = len(tags(d))
            for c in range(len(CFGS)):
                for forms in itertools.product(range(2), repeat=n) if full or n <= 8 else ([a] * k + [b] * (n - k) for a in range(4) for b in range(4) for k in range(n + 1)):
                    yield [d, c, list(forms), 0]
                for e in range(1, len(ENDS)):
                    yield [d, c, [0] * n, e]
    return gen


def check_tags(case):
    d, c, forms, end = case
    pieces = write(DOCS[d])
    for i, f in zip(tags(d), forms):
        t = DOCS[d][i]
        name = TAG_FORMS[f](t[1])
        if t[0] == 'O':
            pieces[i] = '<' + name + ''.join(' {}="{}"'.format(TAG_FORMS[f](k), html.escape(v)) for k, v in t[2]) + '>'
        else:
            pieces[i] = ENDS[end].format(name)
    return compare(d, c, ''.join(pieces))


# ---------------------------------------------------------------- void elements

VOIDS = ['<{}>', '<{}/>', '<{} />', '<{}></{}>', '<{}\n>', '<{}/ >']


def void_forms():
    for d in range(len(DOCS)):
        at = [i for i in tags(d) if DOCS[d][i][1] in VOID]
        for c in range(len(CFGS)):
            for forms in itertools.product(range(len(VOIDS)), repeat=len(at)):
                yield [d, c, list(forms)]


def check_void(case):
    d, c, forms = case
    pieces = write(DOCS[d])
    at = [i for i in tags(d) if DOCS[d][i][1] in VOID]
    for i, f in zip(at, forms):
        pieces[i] = VOIDS[f].format(pieces[i][1:-1], DOCS[d][i][1])
    return compare(d, c, ''.join(pieces))


# ------------------------------------------------------------------- attributes

QUOTES = [' {}="{}"', " {}='{}'", ' {} = "{}"', '\n{}="{}"', ' {}={}', '\t {}= {}']


def attribute_forms():
    for d in range(len(DOCS)):
        for i in tags(d):
            attrs = DOCS[d][i][2] if DOCS[d][i][0] == 'O' else []
            if not attrs:
                continue
            for c in range(len(CFGS)):
                for order in itertools.permutations(range(len(attrs))):
                    for forms in itertools.product(range(len(QUOTES)), repeat=len(attrs)):
                        for extra in ('', ' data-z', ' zz="1"', ' ', '\n', '  ZZ=y'):
                            for before in (0, 1):
                                yield [d, c, i, list(order), list(forms), extra, before]


def check_attributes(case):
    d, c, i, order, forms, extra, before = case
    pieces = write(DOCS[d])
    tag, attrs = DOCS[d][i][1:]
    written = []
    for a in order:
        name, value = attrs[a]
        form = QUOTES[forms[a]]
        value = html.escape(value)
        if '"' not in form and "'" not in form:
            value = value.replace(' ', '&#32;')
        written.append(form.format(name, value))
    if extra.strip():
        written.insert(0 if before else len(written), extra)
        extra = ''
    pieces[i] = '<' + tag + ''.join(written) + extra + '>'
    return compare(d, c, ''.join(pieces))


# --------------------------------------------------------- character references

NAMED = {'&': '&amp;', '<': '&lt;', '>': '&gt;', '"': '&quot;', "'": '&apos;', '\u00e9': '&eacute;', '.': '&period;', ',': '&comma;', '-': '&#x0002d;', '=': '&equals;'}
FORMS = [lambda ch: html.escape(ch), lambda ch: '&#{};'.format(ord(ch)), lambda ch: '&#x{:x};'.format(ord(ch)), lambda ch: NAMED.get(ch, '&#X{:04X};'.format(ord(ch)))]


def values(d):
    """Texts and attribute values: (token, attribute or None)"""
    out = []
    for i, t in enumerate(DOCS[d]):
        if isinstance(t, str):
            out.append((i, None, t))
        elif t[0] == 'O':
            out += [(i, a, v) for a, (k, v) in enumerate(t[2])]
    return out


def references(short):
    def gen():
        for d in range(len(DOCS)):
            for v, (i, a, s) in enumerate(values(d)):
                for c in range(len(CFGS)):
                    if len(s) <= short:
                        for forms in itertools.product(range(4), repeat=len(s)):
                            yield [d, c, v, list(forms)]
                    else:
                        for where in itertools.chain.from_iterable(itertools.combinations(range(len(s)), n) for n in (1, 2, len(s))):
                            for f in (1, 2, 3):
                                yield [d, c, v, [f if j in where else 0 for j in range(len(s))]]
    return gen


def check_references(case):
    d, c, v, forms = case
    i, a, s = values(d)[v]
    pieces = write(DOCS[d])
    new = ''.join(FORMS[f](ch) for f, ch in zip(forms, s))
    if a is None:
        pieces[i] = new
    else:
        tag, attrs = DOCS[d][i][1:]
        pieces[i] = '<' + tag + ''.join(' {}="{}"'.format(k, new if n == a else html.escape(w)) for n, (k, w) in enumerate(attrs)) + '>'
    return compare(d, c, ''.join(pieces))


# ---------------------------------------- documents of all shapes, all at once

def trees(size):
    def gen():
        for f in forests_upto(size, ['p', 'ul', 'li', 'b', 'a', 'br', 'pre', 'blockquote', 'h2', 'img'], ['t']):
            for c in range(len(CFGS)):
                yield [f, c]
    return gen


SHOUT = re.compile(r'<(/?)([a-z0-9]+)([^>]*)>')


def check_tree(case):
    f, c = case
    nodes = number_texts(f, {'a': ('a', {'href': '/1', 'title': 'x'}), 'p': ('p', {'class': 'a'})}, lambda i, leaf: 'w{} & v'.format(i))
    source = to_html(nodes)
    want = render_html(source, CFGS[c])
    ways = {
        'comments': '<!--x-->' + re.sub('(<[^>]*>)', r'<!-- y -->\1<!---->', source) + '<!-- -->',
        'comments in texts': source.replace('w', 'w<!-- -->').replace(' v', ' <?q ?>v'),
        'capitals': SHOUT.sub(lambda m: '<' + m.group(1) + m.group(2).upper() + m.group(3) + '>', source),
        'slashes': re.sub('<(br|img)([^>]*)>', r'<\1\2 />', source),
        'references': source.replace('w', '&#119;').replace('&amp;', '&#x26;').replace('/1', '&#47;1'),
        'quotes': source.replace('"', "'"),
        'doctype': '<!DOCTYPE html>' + source,
        'no quotes': source.replace('"', '').replace('/1', '/1 '),
    }
    for how, other in ways.items():
        out = render_html(other, CFGS[c])
        if out != want:
            raise Violation('a document written in another way is rendered differently: {}\n'.format(how) + show(
                ('as usual', source), ('written as', other), ('config', CFGS[c]), ('expected', want), ('actual', out)))
    return want


NEUTRAL_DOCS = [''.join(write(doc)) for doc in DOCS]


def spaces(tier):
    t = tier == 'thorough'
    return [
        Space('comments', silent(1), check_silent, 'every kind of comment, declaration and instruction at every position of {} documents'.format(len(DOCS))),
        Space('comments2', silent(2), check_silent, 'two comments at every pair of positions'),
        Space('everywhere', all_silent, check_all_silent, 'comments at all positions at once'),
        Space('tags', cases_of_tags(t), check_tags, 'every assignment of cases to the tags and attributes, forms of end tags'),
        Space('void', void_forms, check_void, 'every assignment of forms to the void elements'),
        Space('attributes', attribute_forms, check_attributes, 'every order, quoting and spacing of attributes'),
        Space('references', references(6 if t else 5), check_references, 'every assignment of forms to the characters of texts and attributes'),
        Space('trees', trees(4 if t else 3), check_tree, 'every document tree written in eight ways'),
        attribute_space(NEUTRAL_DOCS, [dict(width=12), dict(width=30, fmt='gophermap', host='h', link='after_block', img='footer')]),
        words_space(NEUTRAL_DOCS, [dict(width=12), dict(width=30, fmt='gophermap', host='h', link='after_block', img='footer')], t, reference=False),
    ] + ([Space('comments3', silent(3), check_silent, 'three comments at every triple of positions')] if t else [])


ASSUMPTIONS = ["Python's html.parser is trusted to recognise tags, comments and character references."]
