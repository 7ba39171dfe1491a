"""C02 Text is wrapped greedily to exactly the width that is available."""
import itertools
import textwrap

import ref
from core import Space, Violation
from lib import *

KIND = dict(p='ParagraphRenderer', li='ListItemRenderer', dd='DefinitionListItemRenderer')


def lines(maxwords, maxlen, maxwidth):
    def gen():
        for n in range(1, maxwords + 1):
            for lengths in itertools.product(range(1, maxlen + 1), repeat=n):
                for width in range(1, maxwidth + 1):
                    yield [width, lengths]
    return gen


def check_lines(case):
    """Independent of the reference: the definition of greedy wrapping itself."""
    width, lengths = case
    ws = words(lengths)
    source = '<p>{}</p>'.format(' '.join(ws))
    out = render_html(source, dict(width=width, optimise=False))
    got = out.split('\n')
    info = show(('source', source), ('width', width), ('output', out))
    if got[0] != '' or got[-1] != '':
        raise Violation('margins of a paragraph\n' + info)
    got = got[1:-1]
    if any(len(l) != width for l in got):
        raise Violation('a line is not padded to the width\n' + info)
    # Words longer than a line are cut so that each line is filled.
    want, line = [], ''
    for w in ws:
        room = width - len(line) - 1 if line else width
        if len(w) <= room:
            line = line + ' ' + w if line else w
            continue
        if len(w) > width:
            # A long word starts on the current line if there is room after the space
            if line and room >= 1:
                line, w = line + ' ' + w[:room], w[room:]
            if line:
                want.append(line)
            while len(w) > width:
                want.append(w[:width])
                w = w[width:]
            line = w
            continue
        want.append(line)
        line = w
    want.append(line)
    if [l.rstrip() for l in got] != want:
        raise Violation('lines are not filled greedily\n' + info + '\nexpected: {!r}'.format(want))
    return out


def characters(maxlen, widths, alphabet):
    def gen():
        for n in range(1, maxlen + 1):
            for chars in itertools.product(alphabet, repeat=n):
                for width in widths:
                    for tag in ('p', 'li', 'dd'):
                        yield [width, tag, ''.join(chars)]
    return gen


def check_characters(case):
    width, tag, text = case
    nodes = [[tag, {}, [text]]]
    cfg = dict(width=width, optimise=False)
    source = to_html(nodes)
    out = render_html(source, cfg)
    expect_equal(out, ref.render(nodes, cfg), source, cfg)
    return out


TEXTS = ['aa bbb c dddd. Eeeee f.  Gg hh. i j-k lll-mm nnnnnnnnnnnn o p. q-r',
         'one two-three--four. Five six! Seven? eight. "Nine" ten eleven-twelve.',
         'x ' * 12 + 'yyyyyyyyyyyyyyyyyyyyyyyyyyyyyy z.']


def options():
    for text in TEXTS:
        for tag in ('p', 'li', 'dd'):
            for width in list(range(8, 26)) + [40, 67]:
                for initial, subsequent in itertools.product((0, 1, 4), repeat=2):
                    for fix, long_, hyphens in itertools.product((True, False), repeat=3):
                        s = dict(initial_indent=initial, subsequent_indent=subsequent, fix_sentence_endings=fix,
                                 break_long_words=long_, break_on_hyphens=hyphens)
                        yield [dict(width=width, optimise=False, renderers={tag: [KIND[tag], s]}), [[tag, {}, [text]]]]


LONG = ('It was the best of times, it was the worst of times, it was the age of wisdom, it was the age of foolishness, it was the '
        'epoch of belief, it was the epoch of incredulity. It was the season of Light - it was the season of Darkness! Was it the '
        'spring of hope? It was the winter of despair. We had everything before us, we had nothing before-us, well-known, '
        'incomprehensibilitiesandantidisestablishmentarianism.')


def nestings(depth, widths):
    outer = ['div', 'blockquote', 'ul>li', 'ol>li', 'dl>dd', 'section', 'padded', 'bordered', 'margins']
    def gen():
        for d in range(0, depth + 1):
            for chain in itertools.product(outer, repeat=d):
                for tag in ('p', 'li', 'dd'):
                    for width in widths:
                        yield [width, chain, tag]
    return gen


BOXED = {'padded': dict(padding=[0, 2, 0, 1]), 'bordered': dict(border=['', '||', '', '|']), 'margins': dict(margin=[0, 3, 0, 1])}


def check_nesting(case):
    width, chain, tag = case
    nodes = [[tag, {}, [LONG[:150]]]]
    renderers = {}
    for c in chain[::-1]:
        if c in BOXED:
            renderers[c] = ['BlockRenderer', BOXED[c]]
        for t in c.split('>')[::-1]:
            nodes = [[t, {}, nodes]]
    cfg = dict(width=width, optimise=False, renderers=renderers)
    source = to_html(nodes)
    out = render_html(source, cfg)
    expect_equal(out, ref.render(nodes, cfg), source, cfg)
    # Where there is room for the text at all, nothing is wider than the document
    used = sum(dict(blockquote=2, padded=3, bordered=3, margins=4).get(c, 0) for c in chain)
    used += sum({'ul>li': 2, 'ol>li': 3, 'dl>dd': 2}.get(c, 0) for c in chain) + (2 if tag != 'p' else 0)
    if width - used >= 1:
        wide = [l for l in out.split('\n') if len(l) > width]
        if wide:
            raise Violation('lines are wider than the document\n' + show(('source', source), ('width', width), ('lines', wide)))
    return out


def breaks(size):
    labels = ['br', 'b', 'span', 'code', 'a']
    def gen():
        for f in forests_upto(size, labels, ['t', 'l']):
            for tag in ('p', 'li', 'dd'):
                for width in (5, 11, 67):
                    yield [width, tag, f]
    return gen


def check_breaks(case):
    width, tag, f = case
    nodes = [[tag, {}, number_texts(f, {'a': ('a', {'href': '/1'})}, lambda i, l: ' ab{} cd '.format(i) if l == 't' else 'efghijkl')]]
    cfg = dict(width=width, optimise=False, link='inline')
    source = to_html(nodes)
    out = render_html(source, cfg)
    expect_equal(out, ref.render(nodes, cfg), source, cfg)
    return out


def sweep(maxwidth, step):
    def gen():
        for tag in ('p', 'li', 'dd', 'ol'):
            for width in range(1, maxwidth):
                for start in range(0, 120, step):
                    yield [width, tag, start]
    return gen


def check_sweep(case):
    width, tag, start = case
    text = LONG[start:]
    nodes = [['ol', {}, [['li', {}, [text]]]]] if tag == 'ol' else [[tag, {}, [text]]]
    cfg = dict(width=width, optimise=False)
    source = to_html(nodes)
    out = render_html(source, cfg)
    expect_equal(out, ref.render(nodes, cfg), source, cfg)
    return out


def alphabet(step):
    """Every character of Unicode, next to letters and on its own."""
    def gen():
        for start in range(0, 0x110000, step):
            if 0x20000 <= start < 0xe0000 or start >= 0xe1000:
                if start % 0x1000:
                    continue
            for form in ('a{} b', '{}ab ', 'a {} b ', 'a{}b ', 'ab{}cd'):
                for n in range(6):
                    yield [start, step, form, n]
    return gen


ALPHABET = [(['p'], 7), (['p'], 30), (['ul', 'li'], 9), (['dl', 'dd'], 11), (['blockquote', 'p'], 12), (['section', 'ol', 'li'], 20)]


def check_alphabet(case):
    start, step, form, n = case
    tags, width = ALPHABET[n]
    chars = [chr(c) for c in range(start, start + step) if not 0xd800 <= c < 0xe000 and chr(c) not in '\n\r\t\x0b\x0c\x1b' and (c < 128 or not chr(c).isspace() or form in ('a{}b ', 'ab{}cd'))]
    if not chars:
        return ''
    nodes = [''.join(form.format(c) for c in chars)]
    for tag in tags[::-1]:
        nodes = [[tag, {}, nodes]]
    return ref_check([dict(width=width, optimise=False), nodes])


NEUTRAL_DOCS = [
    '<p>One two three. Four five-six <b>seven</b> eight nine</p><ol><li>One two three four five <x-y>six seven</x-y></li></ol>',
    '<section><dl><dt>One two</dt><dd>three four. Five six</dd></dl><ul><li>One two three four five <x-y>six</x-y></li></ul></section>',
]
NEUTRAL_CFGS = [dict(width=14), dict(width=7, optimise=False)]


def spaces(tier):
    t = tier == 'thorough'
    return [
        Space('lines', lines(5 if t else 4, 5, 12), check_lines, 'all sequences of words of 1-5 letters x widths 1-12'),
        Space('characters', characters(7 if t else 5, (1, 2, 3, 5) if t else (1, 2, 4), 'a-. '), check_characters, 'all strings over letters, hyphens, stops and spaces'),
        Space('characters2', characters(5 if t else 4, (2, 3, 5), 'aA.!"-'), check_characters, 'all strings over characters that matter to sentences and hyphens'),
        Space('options', options, ref_check, 'all combinations of the wrapping options'),
        Space('nestings', nestings(3, range(1, 50) if t else (1, 3, 7, 12, 20, 33, 67)), check_nesting, 'chains of up to 3 blocks around a text'),
        Space('breaks', breaks(5 if t else 4), check_breaks, 'inline elements and line breaks in wrapped text'),
        Space('alphabet', alphabet(16 if t else 64), check_alphabet, 'every character of Unicode, next to others and on its own'),
        Space('sweep', sweep(140, 1 if t else 13), check_sweep, 'a long text at every width'),
        attribute_space(NEUTRAL_DOCS, NEUTRAL_CFGS),
        element_space(NEUTRAL_DOCS, NEUTRAL_CFGS),
        words_space(NEUTRAL_DOCS, NEUTRAL_CFGS, t),
        scaling_space(NEUTRAL_DOCS, NEUTRAL_CFGS, t),
    ]


ASSUMPTIONS = ["The standard library's textwrap is trusted as the definition of the wrapping options."]
