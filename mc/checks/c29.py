"""C29 Definition lists show terms as headings and definitions with markers."""
import itertools
import re
import textwrap

import ref
from core import COUNT, Space, Violation
from lib import *

LONG = 'a definition that is long enough to be wrapped, at a word or two-part-word and more than once. It goes on here.'
P, UL, DL = 'p', 'ul', 'dl'


def entry(kind, i):
    """The parts of a definition list. Each has words that tell it from the others."""
    return {
        't': lambda: el('dt', 'term{}'.format(i)),
        'T': lambda: el('dt', 'term{} of '.format(i), el('b', 'bold'), ' and ', el('code', 'code'), ' kind'),
        'd': lambda: el('dd', 'def{} short'.format(i)),
        'l': lambda: el('dd', 'def{} '.format(i) + LONG),
        'i': lambda: el('dd', 'def{} '.format(i), el('em', 'em ' + LONG[:40]), ' ', el('a', 'link', href='/x.txt'), '.'),
        'p': lambda: el('dd', el('p', 'def{} '.format(i) + LONG)),
        'q': lambda: el('dd', el('p', 'def{} one'.format(i)), el('p', 'two ' + LONG[:60])),
        'u': lambda: el('dd', 'def{}'.format(i), el('ul', el('li', 'x ' + LONG[:50]), el('li', 'y'))),
        'o': lambda: el('dd', el('ol', el('li', 'def{}'.format(i)), el('li', el('p', 'z')))),
        'D': lambda: el('dd', 'def{}'.format(i), el('dl', el('dt', 'in'), el('dd', 'ner ' + LONG[:50]), el('dt', 'term'), el('dd', 'n'))),
        'Q': lambda: el('dd', el('blockquote', el('p', 'def{} '.format(i) + LONG[:60]))),
        'r': lambda: el('dd', 'def{}'.format(i), el('pre', 'a  b\nc')),
        'b': lambda: el('dd', 'def{}'.format(i), el('br'), 'after ' + LONG[:30]),
        'e': lambda: el('dd'),
        'E': lambda: el('dt'),
        'B': lambda: el('dt', 'term{}'.format(i), el('br'), 'line'),
        'N': lambda: el('dt', el('p', 'term{} of a block'.format(i)), 'and a line'),
        'x': lambda: 'text{}'.format(i),
        's': lambda: '\n    ',
        'g': lambda: el('div', el('dt', 'group{}'.format(i)), el('dd', 'grouped ' + LONG[:40])),
        'n': lambda: el('p', 'par{}'.format(i)),
        'I': lambda: el('dt', el('img', src='/i.png', alt='image{}'.format(i))),
    }[kind]()


def sequences(kinds, lengths, widths, contexts=(None,)):
    def gen():
        for n in lengths:
            for seq in itertools.product(kinds, repeat=n):
                for w in widths:
                    for c in contexts:
                        yield [''.join(seq), w, c]
    return gen


def document(seq, context):
    nodes = [el('dl', *[entry(k, i) for i, k in enumerate(seq)])]
    for c in (context or '').split():
        nodes = {
            'after': lambda: ['text before'] + nodes, 'p': lambda: [el('p', 'before')] + nodes + [el('p', 'after')], 'twice': lambda: nodes + [el('dl', el('dt', 'last'), el('dd', LONG))], 'spaced': lambda: ['\n '] + nodes + ['\n'],
        }.get(c, lambda: [el(c, *nodes)])()
    return nodes


def check_sequence(case):
    seq, w, context = case
    nodes = document(seq, context)
    cfg = dict(width=w)
    source = to_html(nodes)
    out = render_html(source, cfg)
    if set(seq) <= set('tdl') and context is None:
        plainly(seq, w, source, out)
    expect_equal(out, ref.render(nodes, cfg), source, cfg)
    return out


def plainly(seq, w, source, out):
    """Terms and definitions line by line, without the reference renderer."""
    lines = ['']
    for i, k in enumerate(seq):
        if k == 't':
            lines += ([] if i == 0 else ['']) + ['term{}'.format(i)]
        else:
            text = 'def{} '.format(i) + ('short' if k == 'd' else LONG)
            wrapped = textwrap.wrap(text, max(w - 2, 1), fix_sentence_endings=True)
            lines += ([''] if i == 0 else []) + [(': ' + wrapped[0]).rstrip()] + [('  ' + l).rstrip() for l in wrapped[1:]]
    want = '\n'.join(lines) + '\n'
    if w > 8 and out.rstrip('\n') != want.rstrip('\n'):
        raise Violation('not terms, each on its line, and marked definitions\n' + show(('source', source), ('width', w), ('expected', want), ('actual', out)))


TERMS = [None, dict(margin=[0, 0, 0, 0]), dict(margin=[1, 0, 1, 2]), dict(template='== {} =='), dict(capitalized=True, underlined=True), dict(underlined=True, underline_full=True, centered=True, underline_char='-'), dict(spread=1, padding=[0, 0, 1, 3])]
DEFS = [None, dict(line_template='- {}'), dict(line_template='   =>   {}', margin=[0, 0, 0, 4]), dict(justification='full', initial_indent=2), dict(justification='right', subsequent_indent=3, capitalized=True), dict(line_template='{}', border=['-', '|', '-', '|'], padding=[0, 1, 0, 1]), dict(margin=[2, 5, 1, 0])]
LISTS = [None, dict(margin=[0, 0, 0, 0]), dict(margin=[2, 3, 1, 5], padding=[1, 0, 0, 2], border=['=', '', '=', '|'])]


def settings(seqs, widths):
    def gen():
        for t in range(len(TERMS)):
            for d in range(len(DEFS)):
                for l in range(len(LISTS)):
                    for s in seqs:
                        for w in widths:
                            yield [t, d, l, s, w]
    return gen


def check_settings(case):
    t, d, l, seq, w = case
    r = {}
    if TERMS[t] is not None:
        r['dt'] = ['DefinitionListTermHeaderRenderer', TERMS[t]]
    if DEFS[d] is not None:
        r['dd'] = ['DefinitionListItemRenderer', DEFS[d]]
    if LISTS[l] is not None:
        r['dl'] = ['DefinitionListRenderer', LISTS[l]]
    return ref_check([dict(width=w, renderers=r), document(seq, None)])


def widths(top):
    def gen():
        for w in range(1, top):
            for seq in ('tl', 'tdtl', 'Til', 'tpq', 'tu', 'tD', 'tQ', 'to', 'tr', 'tb', 'dl', 'ee', 'tEde', 'gg', 'xtd'):
                for c in (None, 'blockquote', 'li ul', 'div', 'dd dl', 'p'):
                    yield [seq, w, c]
    return gen


def many():
    for n in list(range(1, 40)) + [100, 500]:
        for pattern in ('td', 'tdd', 'ttd', 'tdl', 'tu', 'd', 't'):
            yield [(pattern * n)[:n], 40, None]


KINDS = 'tTdlipquoDQrbeExsgnIBN'
CONTEXTS = (None, 'after', 'p', 'twice', 'spaced', 'blockquote', 'li ul', 'div', 'dd dl', 'section', 'li ol')


NEUTRAL_DOCS = [
    '<dl><dt>a</dt><dd>b <x-y>c</x-y></dd><dd>d</dd><dt>e</dt><dt>f</dt><dd><p>g</p><section>h</section></dd></dl>',
    '<section><dl><dt>a <b>b</b></dt><dd>c d e f</dd></dl></section><dl><dd>g</dd></dl>',
]
NEUTRAL_CFGS = [dict(width=20), dict(width=9, renderers={'dd': [None, dict(line_template='-> {}', margin=[0, 0, 1, 2])], 'dt': [None, dict(template='<{}>')]})]


def spaces(tier):
    t = tier == 'thorough'
    return [
        Space('simple', sequences('tdl', range(1, 9 if t else 8), (67, 30, 11)), check_sequence, 'every sequence of terms and definitions'),
        Space('sequences', sequences(KINDS, (1, 2), (67, 31, 13), CONTEXTS), check_sequence, 'every sequence of up to 2 of {} kinds of parts, in all contexts'.format(len(KINDS))),
        Space('sequences3', sequences(KINDS, (3,), (67, 31, 13), CONTEXTS[::3]) if t else sequences(KINDS, (3,), (31,), (None, 'li ul')), check_sequence, 'every sequence of 3 parts'),
        Space('sequences4', sequences(KINDS if t else 'tdlqDe', (4, 5) if not t else (4,), (30,)), check_sequence, 'longer sequences'),
        Space('settings', settings(('tltd', 'ttdu', 'Tq', 'tDd') + (('dtb', 'tQo') if t else ()), (50, 22)), check_settings, 'settings of terms, definitions and lists'),
        Space('widths', widths(90 if t else 70), check_sequence, 'every width'),
        Space('many', many, check_sequence, 'long lists'),
        attribute_space(NEUTRAL_DOCS, NEUTRAL_CFGS),
        element_space(NEUTRAL_DOCS, NEUTRAL_CFGS),
        words_space(NEUTRAL_DOCS, NEUTRAL_CFGS, t),
        scaling_space(NEUTRAL_DOCS, NEUTRAL_CFGS, t),
    ]
