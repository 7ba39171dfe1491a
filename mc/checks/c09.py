"""C09 Elements nest as the tags say, and stray tags do no harm."""
import itertools

import ref
from core import COUNT, Space, Violation
from lib import *

# (html.parser takes the content of title for plain text)
ALL = sorted((ref.BLOCKS - {'title'}) | ref.VOID | set('a b i u s em strong span code del ins x x-y sub sup button label select option'.split()))


def brackets(tags):
    """Every element shows its name and what it contains."""
    return {t: ['InlineRenderer', dict(template='({} {{}})'.format(t))] for t in tags}


def expected(nodes):
    return ''.join(n if isinstance(n, str) else '({} {})'.format(n[0], expected(n[2])) for n in nodes)


def observe(tokens):
    source = tokens_to_html(tokens)
    tags = set(t.split(':', 1)[1] for t in tokens if t[0] != 'T')
    renderers = brackets(tags)
    if 'ol' in tags and 'li' in tags:
        renderers['ol > li'] = renderers['li']
    out = render_html(source, dict(renderers=renderers, link='footer', img='footer', optimise=False,
                                   extracted={'a': ['NonRenderer', {}], 'img': ['NonRenderer', {}]}))
    want = expected(machine(tokens))
    listed = '\n' if any(t[:2] in ('O:', 'S:') and t[2:] in ('a', 'img') for t in tokens) else ''
    if out != want + listed:
        raise Violation('the elements are not where the tags put them\n' + show(('source', source), ('expected', want), ('actual', out)))
    return out


ALPHABET = ['O:b', 'C:b', 'O:p', 'C:p', 'S:p', 'O:br', 'C:br', 'T:']
ALPHABET2 = ['O:ul', 'C:ul', 'O:li', 'C:li', 'O:a', 'C:a', 'S:img', 'C:img', 'S:a', 'T:', 'O:pre', 'C:pre', 'O:hr']
ALPHABET3 = ['O:x', 'O:y', 'O:z', 'C:x', 'C:y', 'C:z', 'T:']


def number(tokens):
    return [t + 'q{}'.format(i) if t == 'T:' else t for i, t in enumerate(tokens)]


def sequences(alphabet, n):
    def gen():
        for k in range(1, n + 1):
            for tokens in itertools.product(alphabet, repeat=k):
                yield tokens
    return gen


def check_sequence(case):
    return observe(number(case))


def pairs():
    for a in ALL:
        for b in ALL:
            for pattern in ('AtBuavb', 'AtBubvaw', 'AtauBvbw', 'tSuBvbw', 'tauBvbw'):
                yield [a, b, pattern]


def check_pair(case):
    a, b, pattern = case
    tokens = []
    for i, c in enumerate(pattern):
        tokens.append({'A': 'O:' + a, 'B': 'O:' + b, 'a': 'C:' + a, 'b': 'C:' + b, 'S': 'S:' + a}.get(c, 'T:{}{}'.format(c, i)))
    return observe(tokens)


# Elements of all kinds in which others have had an implied end, with those that imply ends
NAMES = UNKNOWN_INLINE + UNKNOWN_BLOCKS + ['menuitem', 'optgroup', 'option', 'colgroup', 'frameset', 'dir', 'menu', 'center', 'listing', 'marquee', 'multicol', 'layer', 'hgroup', 'search', 'math', 'mi', 'foreignobject', 'desc', 'path', 'g', 'use', 'circle']
PARTNERS = ['', 'x', 'p', 'div', 'b', 'li', 'td', 'th', 'tr', 'a', 'br', 'dd', 'h1', 'option', 'button', 'pre', 'ul', 'table', 'body']


def names():
    for a in NAMES:
        for b in PARTNERS:
            for pattern in ('AtBuavb', 'AtBubvaw', 'AtauBvbw', 'tSuBvbw', 'tauBvbw', 'BtAuAvbw', 'BtAuavAwaxby'):
                yield [a, b or a, pattern]
                if b:
                    yield [b, a, pattern]
    known, new = mentioned_words()
    for source, partners in ((known, ['', 'p', 'b']), (new, PARTNERS)):
        for a in sorted({w.lower() for w in source['words']} - SPECIAL - set(NAMES)):
            if re.fullmatch('[a-z][a-z0-9-]*', a):
                for b in partners:
                    for pattern in ('AtBuavb', 'AtBubvaw', 'tSuBvbw', 'BtAuAvbw'):
                        yield [a, b or a, pattern]
                        if b:
                            yield [b, a, pattern]


def scale():
    for n in list(range(1, 60)) + [100, 1000]:
        for kind in ('deep', 'deep-unclosed', 'wide', 'voids', 'stray', 'alternate', 'too-many-ends'):
            for tag in ('b', 'p', 'li', 'x', 'pre', 'a'):
                if n > 60 and kind.startswith('deep') or n > 60 and kind == 'too-many-ends':
                    continue
                yield [n, kind, tag]


def check_scale(case):
    n, kind, tag = case
    o, c, t = 'O:' + tag, 'C:' + tag, ['T:{}.'.format(i) for i in range(2 * n + 1)]
    tokens = {
        'deep': [x for i in range(n) for x in (o, t[i])] + [x for i in range(n) for x in (c, t[n + i])],
        'deep-unclosed': [x for i in range(n) for x in (o, t[i])],
        'wide': [x for i in range(n) for x in (o, t[2 * i], c, t[2 * i + 1])],
        'voids': [o] + [x for i in range(n) for x in ('O:br', t[i], 'C:br')] + [c, t[n]],
        'stray': [o] + [x for i in range(n) for x in ('C:u', t[i])] + [c, t[n]],
        'alternate': [x for i in range(n) for x in (o, 'O:i', t[2 * i], c, t[2 * i + 1], 'C:i', c)],
        'too-many-ends': [o] * n + [t[0]] + [x for i in range(2 * n) for x in (c, t[i + 1])],
    }[kind]
    return observe(tokens)


def decorations():
    """The same for tags written in other ways: case, attributes, spaces and comments."""
    forms = ['<b>', '<B>', '<b >', '<b class="x">', '<b\n>', '<b a b=c>', '<!-- --><b>', '<b/ >', "<b a='>'>"]
    ends = ['</b>', '</B>', '</b >', '</b\n>', '</b x>', '<!--</b>--></b>']
    for f in forms:
        for e in ends:
            for g in forms:
                yield [f, e, g]


def check_decoration(case):
    f, e, g = case
    source = 'q' + f + 'r' + g + 's' + e + 't' + e + 'u' + e + 'v'
    out = render_html(source, dict(renderers=brackets(['b'])))
    want = 'q(b r(b s)t)uv'
    expect_equal(out, want, source)
    return out


def spaces(tier):
    t = tier == 'thorough'
    return [
        Space('sequences', sequences(ALPHABET, 7 if t else 5), check_sequence, 'every sequence over 8 tokens'),
        Space('sequences2', sequences(ALPHABET2, 5 if t else 4), check_sequence, 'every sequence over 13 tokens'),
        Space('sequences3', sequences(ALPHABET3, 8 if t else 6), check_sequence, 'every sequence of start and end tags of three elements'),
        Space('pairs', pairs, check_pair, 'every pair of elements, nested, crossed and self-closed'),
        Space('names', names, check_pair, 'every name of an element with the elements that have implied ends'),
        Space('scale', scale, check_scale, 'deep and long documents'),
        Space('decorations', decorations, check_decoration, 'other ways to write tags'),
    ]


ASSUMPTIONS = ["Python's html.parser is trusted to recognise tags.", 'script, style, title and textarea elements (whose content html.parser does not parse) are not used.']
