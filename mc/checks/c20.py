"""C20 Headings are marked, spread, cased, centred and underlined as configured."""
import itertools

import ref
from core import Space, Violation
from lib import *

TEMPLATES = ['{}', '** {} **', '{}:']
TEXTS = [['Title'], ['a'], ['Two Words'], ['with ', ['em', {}, ['emphasis']], ' in it'], [['b', {}, ['all']]], [], ['x' * 30], ['odd text'], ['\u00e9t\u00e9 \u00df']]
CONTEXTS = [None, 'div', 'blockquote', 'li', 'section', 'boxed']
LEVELS = ['h1', 'h2', 'h3', 'h4', 'h5', 'h6']
BOXED = ['BlockRenderer', dict(margin=[0, 1, 0, 2], padding=[0, 1, 0, 1], border=['', '|', '', '|'])]


def wrap(context, nodes):
    return nodes if context is None else [[context, {}, nodes]]


def settings(texts, contexts, widths, kinds):
    def gen():
        for kind in kinds:
            for template, cap, spread, char, centered, ul, uchar, full in itertools.product(
                    range(len(TEMPLATES)), (False, True), (0, 1, 3), (' ', '.'), (False, True), (False, True), '=-', (False, True)):
                if spread == 0 and char != ' ' or not ul and (uchar != '=' or full):
                    continue
                for text in texts:
                    for c in contexts:
                        for w in widths:
                            yield [kind, dict(template=TEMPLATES[template], capitalized=cap, spread=spread, spread_char=char, centered=centered, underlined=ul,
                                              underline_char=uchar, underline_full=full), text, c, w]
    return gen


def check_settings(case):
    kind, s, text, context, w = case
    tag = 'dt' if kind.startswith('Def') else 'h2'
    cfg = dict(width=w, optimise=False, renderers={tag: [kind, s], 'boxed': BOXED})
    nodes = wrap(context, [[tag, {}, TEXTS[text]]])
    source = to_html(nodes)
    out = render_html(source, cfg)
    if context is None and text in (0, 1, 2, 6, 7) and kind == 'HeaderRenderer':
        # Independent of the reference: the definition itself
        t = TEXTS[text][0]
        if s['capitalized']:
            t = t.upper()
        t = (s['spread_char'] * s['spread']).join(t)
        t = s['template'].replace('{}', t)
        lines = [t]
        if s['underlined']:
            lines.append(s['underline_char'] * (w if s['underline_full'] else len(t)))
        got = out.split('\n')
        if got[0] or got[-1] or len(got) != len(lines) + 2:
            raise Violation('not the lines of a heading\n' + show(('source', source), ('config', cfg), ('output', out)))
        for line, want in zip(got[1:-1], lines):
            if line.strip() != want.strip() or len(line) != max(w, len(want)):
                raise Violation('{!r} rather than {!r}\n'.format(line, want) + show(('source', source), ('config', cfg), ('output', out)))
            before = len(line) - len(line.lstrip(' '))
            after = len(line) - len(line.rstrip(' '))
            if s['centered'] and abs(before - after) > 1 or not s['centered'] and before:
                raise Violation('{!r} is not where it should be\n'.format(line) + show(('source', source), ('config', cfg), ('output', out)))
        if s['centered'] and s['underlined'] and not s['underline_full'] and len(got[1]) - len(got[1].lstrip()) != len(got[2]) - len(got[2].lstrip()):
            raise Violation('the underline is not below the text\n' + show(('source', source), ('config', cfg), ('output', out)))
    expect_equal(out, ref.render(nodes, cfg), source, cfg)
    return out


def default():
    for level in LEVELS:
        for text in range(len(TEXTS)):
            for outer in CONTEXTS + ['ol', 'dd', 'td', 'p', 'ul', 'h1', 'b', 'a', 'pre', 'x']:
                for before, after in itertools.product(('', 'text', 'p', 'h1'), repeat=2):
                    for w in (67, 10):
                        yield [level, text, outer, before, after, w]


def check_default(case):
    level, text, outer, before, after, w = case
    def part(s):
        return [] if s == '' else ['text'] if s == 'text' else [[s, {}, ['other']]]
    nodes = wrap(outer, part(before) + [[level, {}, TEXTS[text]]] + part(after))
    if outer == 'a':
        nodes[0][1]['href'] = '/1'
    cfg = dict(width=w, optimise=False, renderers={'boxed': BOXED})
    out = ref_check([cfg, nodes])
    if outer is None and isinstance(TEXTS[text][:1], list) and TEXTS[text] and isinstance(TEXTS[text][0], str) and len(TEXTS[text]) == 1:
        marks = '#' * int(level[1])
        want = '{} {} {}'.format(marks, TEXTS[text][0], marks)
        if want not in [l.rstrip() for l in out.split('\n')]:
            raise Violation('no line {!r}\n'.format(want) + show(('nodes', nodes), ('output', out)))
    return out


def sequences(n):
    """Headings do not change each other: a renderer for one level is not seen at another."""
    def gen():
        for seq in itertools.product(LEVELS, repeat=n):
            for given in (None, 'h1', 'h2', 'h6'):
                yield [seq, given]
    return gen


OWN = dict(capitalized=True, spread=1, underlined=True, centered=True, template='<{}>', margin=[2, 0, 0, 1])


def check_sequence(case):
    seq, given = case
    cfg = dict(width=30, renderers={given: ['HeaderRenderer', OWN]} if given else {})
    nodes = [[level, {}, ['head {}'.format(i)]] for i, level in enumerate(seq)]
    ref_check([cfg, nodes])
    # with settings only, the marks remain
    cfg = dict(width=30, renderers={given: [None, dict(capitalized=True, underlined=True, margin=[0, 0, 1, 0], template='none')]} if given else {})
    return ref_check([cfg, nodes])


def markdown():
    for level in LEVELS:
        for cap, spread, centered, ul, full in itertools.product((False, True), (0, 1, 2), (False, True), (False, True), (False, True)):
            for text in range(len(TEXTS)):
                for w in range(1, 40, 3):
                    yield [level, dict(capitalized=cap, spread=spread, centered=centered, underlined=ul, underline_full=full), text, w]


def check_markdown(case):
    level, s, text, w = case
    return ref_check([dict(width=w, optimise=False, renderers={level: ['MarkdownHeaderRenderer', s]}), [[level, {}, TEXTS[text]]]])


def lengths():
    for n in range(1, 45):
        for w in range(1, 45):
            for centered, full, ul in itertools.product((False, True), repeat=3):
                for context in (None, 'boxed', 'blockquote'):
                    yield [n, w, centered, full, ul, context]


def check_length(case):
    n, w, centered, full, ul, context = case
    cfg = dict(width=w, optimise=False, renderers={'h2': ['HeaderRenderer', dict(centered=centered, underlined=ul, underline_full=full)], 'boxed': BOXED})
    return ref_check([cfg, wrap(context, [['h2', {}, ['x' * n]]])])


NEUTRAL_DOCS = [
    '<h1>a b</h1><h2>c <x-y>d</x-y></h2><section><h3>e</h3></section><h6>f</h6>',
    '<h4><section>a</section></h4><h5>b</h5>',
]
NEUTRAL_CFGS = [dict(width=20), dict(width=30, renderers={'h%d' % i: ['HeaderRenderer', dict(template='= {} =', capitalized=True, spread=i % 3, underlined=i % 2 == 0, centered=i % 4 < 2)] for i in range(1, 7)})]


def spaces(tier):
    t = tier == 'thorough'
    return [
        Space('settings', settings(range(len(TEXTS)), CONTEXTS, (40, 41, 7) if t else (40,), ['HeaderRenderer']), check_settings, 'all combinations of the settings'),
        Space('terms', settings((0, 2, 3), CONTEXTS[:3], (40, 41), ['DefinitionListTermHeaderRenderer']), check_settings, 'the same for the terms of definition lists'),
        Space('default', default, check_default, 'levels x texts x contexts'),
        Space('sequences', sequences(5 if t else 4), check_sequence, 'sequences of headings'),
        Space('markdown', markdown, check_markdown, 'settings with marks'),
        Space('lengths', lengths, check_length, 'lengths x widths'),
        attribute_space(NEUTRAL_DOCS, NEUTRAL_CFGS),
        element_space(NEUTRAL_DOCS, NEUTRAL_CFGS),
        words_space(NEUTRAL_DOCS, NEUTRAL_CFGS, t),
    ]


ASSUMPTIONS = ['The underline character is a single character.']
