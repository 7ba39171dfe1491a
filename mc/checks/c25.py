"""C25 Optimising only removes trailing whitespace."""
import itertools

from core import Space, Violation
from lib import *

LABELS = BLOCK_LABELS + INLINE_LABELS
BOXED = {t: [None, dict(padding=[1, 1, 1, 1], border=['-', '|', '-', '|'])] for t in ('p', 'blockquote', 'div', 'li', 'h1', 'pre', 'ul', 'dd')}
BLANKS = {t: [None, dict(margin=[1, 2, 1, 3], padding=[1, 3, 1, 0], border=[' ', ' ', ' ', ' '])] for t in ('p', 'blockquote', 'div', 'li', 'h3', 'ul', 'dl')}
SIDES = {'p': [None, dict(justification='center', border=['', ' |', '', ''])], 'li': [None, dict(justification='right', line_template='*  {}  ')], 'h1': [None, dict(centered=True, underlined=True, underline_char=' ')],
         'blockquote': [None, dict(line_template='>  {} ')], 'em': [None, dict(template=' {}  ')], 'pre': [None, dict(line_template='{}  ')]}
CONFIGS = [dict(width=12), dict(width=12, margin=[1, 2, 2, 3], link='after_block'), dict(width=20, renderers=BOXED), dict(width=24, renderers=BLANKS, link='inline', img='footer'), dict(width=15, renderers=SIDES),
           dict(width=16, fmt='gophermap', host='h', renderers=BOXED), dict(width=12, margin=[0, 0, 1, 2], fmt='gophermap', host='h', link='after_block', renderers=BLANKS), dict(width=30, margin=[2, 0, 0, 1], fmt='gophermap', host='h', img='after_block')]


def both(source, cfg):
    raw = render_html(source, dict(cfg, optimise=False))
    out = render_html(source, dict(cfg, optimise=True))
    expect_equal(out, '\n'.join(line.rstrip() for line in raw.split('\n')), source, cfg, 'optimising changes more, or less, than whitespace at the end of lines')
    if 'optimise' not in cfg and render_html(source, cfg) != out:
        raise Violation('optimising is not the default\n' + show(('source', source), ('config', cfg)))
    return out


def trees(sizes):
    def gen():
        for n, configs in sizes:
            for f in forests(n, LABELS, ['t']):
                for c in configs:
                    yield [c, f]
    return gen


TEXTS = ['ab cd ef gh', 'x ', ' y', 'long-word-here  z', 'q. r']


def check_tree(case):
    cfg, forest = case
    return both(to_html(number_texts(forest, LINKS, lambda i, leaf: TEXTS[i % len(TEXTS)])), cfg)


# Characters that are or look like whitespace, or separate lines, and codes
CHARS = ['a', ' ', '\n', '\t', '\r', '\x0b', '\x0c', '\x1c', '\x85', '\xa0', '\u2028', '\u2029', '\u3000', '\u200b', '\ufeff', '\x00', '\x1b[0m', '\x1b[1m', '|', '.']
PLACES = ['{}', '<p>{}</p>', '<pre>{}</pre>', '<pre><code>{}</code></pre>', '<ul><li>{}</li></ul>', '<blockquote>{}</blockquote>', '<h1>{}</h1>', '<p><b>{}</b></p>', '<dl><dt>{}</dt><dd>{}</dd></dl>', '<p><a href="/x" title="{}">{}</a></p>', '<p>a<br>{}<br></p>', '<p><code>{}</code></p>']


def characters(n):
    def gen():
        for k in range(1, n + 1):
            for seq in itertools.product(range(len(CHARS)), repeat=k):
                for place in range(len(PLACES)):
                    for c in (CONFIGS[0], CONFIGS[5]) if k < 3 else (CONFIGS[0],):
                        yield [c, seq, place]
    return gen


def check_characters(case):
    cfg, seq, place = case
    return both(PLACES[place].replace('{}', html.escape(''.join(CHARS[i] for i in seq))), cfg)


WORDS_DOCS = ['<p>ab cd ef gh <a href="/x">y z</a></p><ul><li>b c d e f<li>c</ul><x-y>e</x-y>', '<pre>a \n  b</pre><blockquote><p>c<br>d</p></blockquote><h1>t u v</h1>']


def spaces(tier):
    t = tier == 'thorough'
    return [
        Space('trees', trees([(1, CONFIGS), (2, CONFIGS), (3, CONFIGS if t else CONFIGS[2:7:2])] + ([(4, CONFIGS[2:3])] if t else [])), check_tree, 'every document tree over {} elements and text, with paddings and borders'.format(len(LABELS))),
        Space('characters', characters(4 if t else 3), check_characters, 'every sequence of characters, whitespace of all kinds included, in every place'),
        words_space(WORDS_DOCS, [CONFIGS[0], CONFIGS[5]], t, judge=both),
    ]
