"""C03 ANSI styling is invisible to layout and is never damaged."""
import itertools

from core import Space, Violation
from lib import *

# Styles: (settings, codes on, codes off)
E = '\x1b[{}m'
STYLES = [
    (dict(foreground_colour='red'), ['31'], ['39']),
    (dict(bold=True, background_colour=7), ['1', '48;5;7'], ['22', '49']),
    (dict(foreground_colour='#a1b2c3', underline=True, normalise=True), ['4', '38;2;161;178;195'], ['0']),
    (dict(font=2), ['12'], ['10']),
    (dict(italic=True, crossed_out=True, foreground_colour=(1, 2, 3), background_colour='bright_blue'),
     ['3', '9', '38;2;1;2;3', '104'], ['23', '29', '39', '49']),
]
TAGS = ['s-a', 's-b', 's-c']


def styles(numbers):
    return {t: ['AnsiEscapeCodeRenderer', STYLES[n][0]] for t, n in zip(TAGS, numbers)}


PLAIN = {t: 'InlineRenderer' for t in TAGS}


def runs(n, count):
    """All sets of up to `count` properly nested, distinct intervals of n words."""
    intervals = [(i, j) for i in range(n) for j in range(i + 1, n + 1)]
    for k in range(1, count + 1):
        for chosen in itertools.combinations(intervals, k):
            if all(b[0] >= a[1] or a[0] >= b[1] or (a[0] <= b[0] and b[1] <= a[1]) or (b[0] <= a[0] and a[1] <= b[1])
                   for a, b in itertools.combinations(chosen, 2)):
                yield chosen


def mark_up(ws, seps, chosen):
    """HTML of the words with styled runs, the expected codes as (letters before, run, on/off)."""
    n = len(ws)
    out, letters, codes = '', 0, []
    opened = sorted(range(len(chosen)), key=lambda r: (chosen[r][0], -chosen[r][1]))
    for i, w in enumerate(ws):
        for r in opened:
            if chosen[r][0] == i:
                out += '<{}>'.format(TAGS[r])
                codes.append((letters, r, True))
        out += w
        letters += sum(c.isalpha() for c in w)
        for r in opened[::-1]:
            if chosen[r][1] == i + 1:
                out += '</{}>'.format(TAGS[r])
                codes.append((letters, r, False))
        if i < n - 1:
            out += seps[i]
    return out, codes


def expected_codes(codes, numbers):
    out = []
    for letters, r, on in codes:
        for code in STYLES[numbers[r]][1 if on else 2]:
            out.append((letters, E.format(code)))
    return out


def actual_codes(output):
    out, letters, i = [], 0, 0
    while i < len(output):
        m = ESC.match(output, i)
        if m:
            out.append((letters, m.group(0)))
            i = m.end()
        else:
            letters += output[i].isalpha()
            i += 1
    return out


def compare(source, cfg, renderers, codes=None, numbers=(), sequence_only=False):
    styled = render_html(source, dict(cfg, renderers=dict(renderers, **styles(numbers))))
    plain = render_html(source, dict(cfg, renderers=dict(renderers, **PLAIN)))
    info = lambda: show(('source', source), ('config', cfg), ('renderers', renderers), ('styles', numbers), ('unstyled', plain), ('styled', styled))
    if strip_escapes(styled) != plain:
        raise Violation('styling changes the layout\n' + info())
    if '\x1b' in plain:
        raise Violation('a damaged escape sequence\n' + info())
    if codes is not None:
        want, got = expected_codes(codes, numbers), actual_codes(styled)
        if sequence_only:
            want, got = [c for _, c in want], [c for _, c in got]
        if want != got:
            raise Violation('the escape sequences are not where they belong\n' + info() + '\n' + show(('expected', want), ('actual', got)))
    return styled


# --- wrapping and justification

JUSTIFICATIONS = ['left', 'full', 'right', 'center']
TEXT_KINDS = dict(p='ParagraphRenderer', li='ListItemRenderer', dd='DefinitionListItemRenderer')


def wrapping(lengths_list, seps_list, widths, count, tags, numbers_list):
    def gen():
        for lengths in lengths_list:
            for seps in itertools.product(seps_list, repeat=len(lengths) - 1):
                for chosen in runs(len(lengths), count):
                    for numbers in numbers_list:
                        for tag in tags:
                            for width in widths:
                                yield [lengths, seps, chosen, numbers, tag, width]
    return gen


def check_wrapping(case):
    lengths, seps, chosen, numbers, tag, width = case
    source, codes = mark_up(words(lengths), seps, chosen)
    out = []
    for j in JUSTIFICATIONS:
        renderers = {tag: [TEXT_KINDS[tag], dict(justification=j)]}
        out.append(compare('<{0}>{1}</{0}>'.format(tag, source), dict(width=width, optimise=False), renderers, codes, numbers))
    return out


# --- every kind of block

BLOCKS = [
    ('h1', {}), ('h1', {'h1': ['HeaderRenderer', dict(centered=True)]}), ('h1', {'h1': ['HeaderRenderer', dict(underlined=True)]}),
    ('h1', {'h1': ['HeaderRenderer', dict(underlined=True, centered=True, underline_full=True)]}),
    ('h1', {'h1': ['HeaderRenderer', dict(underlined=True, centered=True)]}),
    ('h1', {'h1': ['HeaderRenderer', dict(centered=True, border=['=', '|', '-', '||'], padding=[1, 2, 1, 1])]}),
    ('p', {'p': ['ParagraphRenderer', dict(border=['=', '|', '-', '||'], padding=[1, 2, 1, 1], margin=[1, 1, 1, 3])]}),
    ('p', {'p': ['ParagraphRenderer', dict(line_template='<<{}>>')]}),
    ('p', {'p': ['ParagraphRenderer', dict(capitalized=True)]}), ('li', {'li': ['ListItemRenderer', dict(capitalized=True)]}),
    ('p', {'p': ['ParagraphRenderer', dict(initial_indent=3, subsequent_indent=1, justification='full')]}),
    ('p', {'p': ['ParagraphRenderer', dict(break_long_words=False)]}), ('p', {'p': ['ParagraphRenderer', dict(fix_sentence_endings=False)]}),
    ('p', {'p': ['ParagraphRenderer', dict(break_on_hyphens=False)]}), ('p', {'p': ['ParagraphRenderer', dict(justification='none')]}),
    ('li', {}), ('dd', {}), ('dt', {}), ('div', {}), ('section', {}), ('td', {}), ('blockquote', {}), ('pre', {}),
    ('div', {'div': ['BlockRenderer', dict(border=['*', '|', '*', '|'], padding=[0, 1, 0, 1])]}),
    ('pre', {'pre': ['PreRenderer', dict(border=['*', '|', '*', '|'], padding=[0, 1, 0, 1])]}),
    ('b', {}), ('em', {}), ('u', {}), ('del', {}), ('span', {}), ('span', {'span': ['InlineRenderer', dict(capitalized=True, template='({})')]}),
]
AROUND = [[], ['blockquote'], ['ul', 'li'], ['ol', 'li'], ['dl', 'dd'], ['div'], ['blockquote', 'blockquote'], ['blockquote', 'ol', 'li']]


def blocks(widths, texts, count, numbers_list):
    def gen():
        for b in range(len(BLOCKS)):
            for around in AROUND:
                for t in range(len(texts)):
                    for chosen in runs(len(texts[t][0]), count):
                        for numbers in numbers_list:
                            for width in widths:
                                yield [b, around, list(texts[t]), chosen, numbers, width]
    return gen


def check_blocks(case):
    b, around, (ws, seps), chosen, numbers, width = case
    tag, renderers = BLOCKS[b]
    source, codes = mark_up(ws, seps, chosen)
    source = '<{0}>{1}</{0}>'.format(tag, source)
    for a in around[::-1]:
        source = '<{0}>{1}</{0}>'.format(a, source)
    out = [compare(source, dict(width=width, optimise=o), renderers, codes, numbers) for o in (False, True)]
    if strip_escapes(out[1]) != '\n'.join(l.rstrip() for l in strip_escapes(out[0]).split('\n')):
        raise Violation('styling changes what optimising removes\n' + show(('source', source), ('outputs', out)))
    return out


TEXTS = [
    (['aaa', 'bb', 'cccc', 'd'], [' ', ' ', ' ']),
    (['Aaa', 'bb', 'cc', 'Ddddd'], ['-', '. ', '']),
    (['aaaaaaaaaaaaaaa', 'bbbbbbbb', 'c'], ['', ' ']),
    (['aa.', 'Bb!', 'cc-dd', 'e'], [' ', ' ', ' ']),
]


# --- spreading (letters are spaced, so the codes' positions are those of the letters)

def spreads():
    for lengths in ([3], [2, 3], [1, 1, 4], [5, 2, 2]):
        for chosen in runs(len(lengths), 2):
            for spread in range(0, 4):
                for char in (' ', '.', '  ', '='):
                    for capital, centred, underlined, full in itertools.product((False, True), repeat=4):
                        for template in ('{}', '# {} #'):
                            yield [lengths, chosen, dict(spread=spread, spread_char=char, capitalized=capital, centered=centred,
                                                         underlined=underlined, underline_full=full, template=template)]


def check_spreads(case):
    lengths, chosen, settings = case
    source, codes = mark_up(words(lengths), [' '] * 5, chosen)
    return compare('<h2>' + source + '</h2>', dict(width=41), {'h2': ['HeaderRenderer', settings]}, codes, [4, 2])


# --- styled descriptions of links are trimmed by what is visible

def links():
    for lengths in ([3], [10], [11], [5, 4], [5, 5], [4, 4, 4], [2, 9], [13, 1], [1, 1, 1, 1, 1, 1], [6, 6, 6]):
        for chosen in runs(len(lengths), 2):
            for placement in ('footer', 'after_block', 'inline'):
                for width in (67, 13):
                    for limit in (1, 4, 10, 12):
                        yield [lengths, chosen, placement, width, limit]


def check_links(case):
    lengths, chosen, placement, width, limit = case
    source, codes = mark_up(words(lengths), [' '] * 9, chosen)
    cfg = dict(width=width, link=placement, extracted={'a': ['ExtractedLinkRenderer', dict(max_link_description=limit)]})
    source = '<p><a href="/1">' + source + '</a></p>'
    numbers = [0, 4]
    if placement == 'inline':
        return compare(source, cfg, {}, codes, numbers)
    out = compare(source, cfg, {}, codes + codes, numbers, sequence_only=True)
    if placement == 'footer':
        for fmt in (dict(fmt='gophermap', host='h'),):
            compare(source, dict(cfg, **fmt), {}, codes + codes, numbers, sequence_only=True)
    return out


# --- every form of an escape sequence

FORMS = ['', '0', '1', '01', '001', ';', ';;', '1;', ';1', '0;1', '1;2;3', '255', '1000', '99999', '38;5;200', '48;2;1;2;3', '38;2;255;255;255;48;2;0;0;0', '1;3;4;38;2;1;2;3;48;2;4;5;6'] + [
    ';'.join(str(i) for i in range(n)) for n in list(range(4, 20)) + [32, 33, 50, 100]] + ['1' * n for n in (2, 3, 4, 5, 8, 9, 10, 20, 100)]
FORM_DOCS = [
    '<{0}>{1}aa <s-a>bb cc</s-a> dd <s-a>ee</s-a>ff-gg. <s-a>Hhhhhhh</s-a>hhhhhhhh ii <s-b>jj <s-a>kk</s-a> ll</s-b></{0}>',
]
FORM_BLOCKS = [('p', ['ParagraphRenderer', {}]), ('p', ['ParagraphRenderer', dict(justification='full')]), ('p', ['ParagraphRenderer', dict(justification='right', capitalized=True)]), ('li', ['ListItemRenderer', {}]),
               ('h1', ['HeaderRenderer', dict(underlined=True, centered=True, spread=1, capitalized=True)]), ('div', ['BlockRenderer', dict(border=['-', '|', '-', '|'], padding=[0, 1, 0, 1])]), ('dd', ['DefinitionListItemRenderer', dict(justification='center')]),
               ('a', ['LinkRenderer', {}])]


def forms():
    for f in range(len(FORMS)):
        for g in (f, 1, 0):
            for b in range(len(FORM_BLOCKS)):
                for width in (7, 12, 20, 67):
                    for times in (1, 2, 5):
                        yield [f, g, b, width, times]


def sgr_class():
    from gopher_render.rendering import InlineRenderer

    class Sgr(InlineRenderer):
        def render(self, content):
            s = self.settings
            return s['on'] + super().render(content) + s['off']
    return Sgr


def check_forms(case):
    f, g, b, width, times = case
    CUSTOM.setdefault('Sgr', sgr_class())
    tag, block = FORM_BLOCKS[b]
    source = FORM_DOCS[0].format(tag, 'x-' if tag != 'a' else '').replace('<a>', '<a href="/">')
    on, off = E.format(FORMS[f]) * times, E.format(FORMS[g]) * times
    cfg = dict(width=width, optimise=False)
    styled = render_html(source, dict(cfg, renderers={tag: block, 's-a': ['Sgr', dict(on=on, off=off)], 's-b': ['AnsiEscapeCodeRenderer', dict(bold=True, normalise=True)]}))
    plain = render_html(source, dict(cfg, renderers={tag: block, 's-a': 'InlineRenderer', 's-b': 'InlineRenderer'}))
    if strip_escapes(styled) != plain:
        raise Violation('styling changes the layout\n' + show(('source', source), ('codes', (on, off)), ('config', cfg), ('block', block), ('unstyled', plain), ('styled', styled)))
    n = 2 if tag == 'a' else 1
    if (styled.count(on), styled.count(off)) < (4 * n, 4 * n):
        raise Violation('an escape sequence is lost or damaged\n' + show(('source', source), ('codes', (on, off)), ('config', cfg), ('block', block), ('styled', styled)))
    return styled


# --- styling on the text functions themselves

def functions():
    for lengths in itertools.product((1, 2, 4), repeat=3):
        for chosen in runs(3, 2):
            for width in range(1, 12):
                yield [lengths, chosen, width]


def check_functions(case):
    from core import COUNT
    from gopher_render import rendering
    lengths, chosen, width = case
    plain = ' '.join(words(lengths))
    html_, codes = mark_up(words(lengths), [' ', ' '], chosen)
    styled = html_
    for r, t in enumerate(TAGS):
        styled = styled.replace('<' + t + '>', ''.join(E.format(c) for c in STYLES[r][1]))
        styled = styled.replace('</' + t + '>', ''.join(E.format(c) for c in STYLES[r][2]))
    out = []
    for name in ('full_justify', 'left_justify', 'right_justify', 'center_justify', 'center', 'right'):
        f = getattr(rendering, name, None)
        if f is None and name in ('center', 'right'):
            continue    # only a helper
        a, b = f(styled, width), f(plain, width)
        COUNT.runs += 2
        COUNT.events += 2
        if strip_escapes(a) != b:
            raise Violation(name + ' is affected by styling\n' + show(('text', styled), ('width', width), ('unstyled', b), ('styled', a)))
        if actual_codes(a) != actual_codes(styled):
            raise Violation(name + ' moves or damages escape sequences\n' + show(('text', styled), ('width', width), ('styled', a)))
        out.append(a)
    return out


def spaces(tier):
    t = tier == 'thorough'
    return [
        Space('wrapping', wrapping([[3, 1, 4], [1, 2, 3, 2]], [' ', '-', '. ', ''] if t else [' ', '. '], range(1, 16) if t else (1, 2, 3, 5, 8, 11), 2, ['p', 'li', 'dd'],
                                   [[0, 1], [2, 4], [3, 0]] if t else [[0, 1], [2, 4]]), check_wrapping, 'all placements of up to 2 styled runs x separators x widths x justifications'),
        Space('blocks', blocks(list(range(1, 40, 2)) if t else [3, 30], TEXTS if t else TEXTS[1:3], 2, ([0, 2], [1, 4], [2, 1]) if t else ([1, 2],)), check_blocks, 'styled runs in every kind of block in every context'),
        Space('three-runs', wrapping([[2, 1, 3]], [' ', ''], (2, 4, 6) if not t else range(1, 10), 3, ['p'], [[0, 1, 2], [4, 2, 3]]), check_wrapping, 'all placements of up to 3 styled runs'),
        Space('spreads', spreads, check_spreads, 'heading settings'),
        Space('links', links, check_links, 'styled link descriptions'),
        Space('lines', wrapping([[2, 1, 2, 1, 3, 2, 1, 2]], [' '], range(5, 23) if t else (7, 8, 10, 13), 2, ['p', 'li'], [[2, 2], [0, 0], [2, 0]]) if t else wrapping([[2, 1, 2, 3, 2, 1]], [' '], (6, 8, 9, 11), 2, ['p'], [[2, 2], [0, 0], [2, 0]]), check_wrapping, 'styled runs in lines of many words'),
        Space('forms', forms, check_forms, 'every form of an escape sequence'),
        Space('functions', functions, check_functions, 'text functions called directly'),
    ]


ASSUMPTIONS = ['Styled runs begin and end with a visible character that is not a space.']
