"""C21 Inline elements are decorated exactly, in every combination."""
import itertools

import ref
from core import Space, Violation
from lib import *

LABELS = ['em', 'i', 'strong', 'b', 'u', 'ins', 's', 'del', 'code', 'span', 'x', 'br', 'sub', 'q']
SMALL = ['em', 'b', 'code', 'span', 'br', 'u']
MARKS = dict(em='_{}_', i='_{}_', strong='**{}**', b='**{}**', u='_{}_', ins='_{}_', s='~~{}~~', span='{}', x='{}', sub='{}', q='{}')
MARKS['del'] = '~~{}~~'
CONTEXTS = [None, 'p', 'section', 'li', 'h2', 'pre', 'blockquote', 'td']


def leaf(i, l):
    return {'t': 'w{}'.format(i), 's': ' w{} '.format(i), 'e': ' '}[l]


def expected(nodes, parent=None, marks=MARKS):
    """Markers around content, in a context that does not touch lines."""
    out = ''
    for n in nodes:
        if isinstance(n, str):
            out += n
        elif n[0] == 'br':
            out += '\n'
        elif n[0] == 'code':
            inner = expected(n[2], 'code', marks)
            out += inner if parent == 'pre' else '```\n{}\n```\n'.format(inner) if '\n' in inner else '`{}`'.format(inner)
        else:
            out += marks[n[0]].replace('{}', expected(n[2], n[0], marks))
    return out


def trees(size, labels, leaves, contexts):
    def gen():
        for f in forests_upto(size, labels, leaves):
            for c in contexts:
                yield [c, f]
    return gen


def check_tree(case):
    context, f = case
    nodes = number_texts(f, None, leaf)
    around = nodes if context is None else [[context, {}, nodes]]
    source = to_html(around)
    cfg = dict(width=200, optimise=False)
    out = render_html(source, cfg)
    if context == 'section':
        # Independent of the reference: nothing but markers is added to the text
        # (whitespace at the ends and next to line breaks does not count)
        squeeze = lambda s: re.sub(' *\n *', '\n', re.sub(' +', ' ', s)).strip(' ')
        want = expected(nodes)
        if squeeze(out) != squeeze(want) and 'code' not in source:
            raise Violation('not the right markers\n' + show(('source', source), ('expected', want), ('actual', out)))
    if context == 'pre':
        want = expected(nodes, 'pre')
        lines = '\n' + '\n'.join('    ' + l for l in want.splitlines()) + '\n'
        if [l.rstrip() for l in out.split('\n')] != [l.rstrip() for l in lines.split('\n')]:
            raise Violation('not the right markers in preformatted text\n' + show(('source', source), ('expected', lines), ('actual', out)))
    expect_equal(out, ref.render(around, cfg), source, cfg)
    return out


TEMPLATES = ['<{}>', '{}', '*{}', '{}*', ' {} ', '[{}](x)']
KINDS = dict(em='EmRenderer', b='StrongRenderer', u='UnderlineRenderer', s='StrikethroughRenderer', span='InlineRenderer', x='InlineRenderer', i='EmRenderer', ins='UnderlineRenderer')


def templates():
    for tag in KINDS:
        for t in range(len(TEMPLATES)):
            for cap in (False, True):
                for other in KINDS:
                    for shape in range(6):
                        for context in ('p', 'section', 'h2', 'pre'):
                            yield [tag, t, cap, other, shape, context]


def check_templates(case):
    tag, t, cap, other, shape, context = case
    cfg = dict(width=100, optimise=False, renderers={tag: [KINDS[tag], dict(template=TEMPLATES[t], capitalized=cap)]})
    T = lambda *kids: [tag, {}, list(kids)]
    O = lambda *kids: [other, {}, list(kids)]
    nodes = [
        ['one ', T('two'), ' three'], ['one', T('two', O('three'), 'four'), 'five'], [O('one', T('two'), 'three'), T('four'), O('five')],
        [T(T('one'), T()), 'two'], [T('one', ['code', {}, ['Two']], ['br', {}, []], 'three'), T('four ')], [T('a'), T('b'), ' ', T('c ', O('d'), ' e'), O()],
    ][shape]
    return ref_check([cfg, [[context, {}, nodes]]])


def codes():
    """Code elements everywhere, with and without line breaks."""
    for outer in (None, 'p', 'pre', 'section', 'li', 'blockquote', 'b', 'h2', 'dd'):
        for middle in (None, 'b', 'span', 'code', 'x', 'a'):
            for body in range(7):
                for around in range(4):
                    for given in range(3):
                        yield [outer, middle, body, around, given]


def check_codes(case):
    outer, middle, body, around, given = case
    br = ['br', {}, []]
    code = ['code', {}, [['x'], ['x ', br, 'y'], [br], [], ['x', ['b', {}, ['y']], 'z'], ['`x`'], [' x ']][body]]
    nodes = [code] if middle is None else [[middle, {'href': '/1'} if middle == 'a' else {}, [code]]]
    nodes = [nodes, ['q '] + nodes + [' r'], nodes + ['r'], ['q'] + nodes][around]
    if outer:
        nodes = [[outer, {}, nodes]]
    cfg = dict(width=60, optimise=False)
    if given:
        cfg['renderers'] = {'code': ['CodeRenderer', [None, dict(inline_template='<{}>'), dict(block_template='[[\n{}]]\n', inline_template='{}')][given]]}
    return ref_check([cfg, nodes])


def code_text():
    """Line breaks in the text of code."""
    for text in ('a\nb', 'a\n', '\na', 'a\n\nb', ' a\n  b', 'a'):
        for outer in ('pre', 'p', 'section', None, 'li'):
            for pre in (False, True):
                yield [text, outer, pre]


def check_code_text(case):
    text, outer, pre = case
    nodes = [['code', {}, [text]]]
    if pre:
        nodes = [['pre', {}, nodes]]
    if outer:
        nodes = [[outer, {}, nodes]]
    return ref_check([dict(width=60), nodes])


def breaks():
    """A line break gives exactly one."""
    for seq in itertools.product(['br', 'a', ' ', 'b', '\n'], repeat=5):
        for context in ('section', 'p', 'li', 'blockquote'):
            yield [context, seq]


def check_breaks(case):
    context, seq = case
    nodes = [['br', {}, []] if s == 'br' else ['b', {}, ['c']] if s == 'b' else s for s in seq]
    out = ref_check([dict(width=60, optimise=True), [[context, {}, nodes]]])
    if context == 'section' and out.count('\n') != seq.count('br'):
        raise Violation('not one line break for each element\n' + show(('nodes', nodes), ('output', out)))
    return out


def wrapped(size):
    """Markers count when text is wrapped."""
    def gen():
        for f in forests_upto(size, SMALL, ['t', 's']):
            for w in (5, 9, 14):
                for c in ('p', 'li'):
                    yield [w, c, f]
    return gen


def check_wrapped(case):
    w, c, f = case
    return ref_check([dict(width=w), [[c, {}, number_texts(f, None, leaf)]]])


NEUTRAL_DOCS = [
    '<p>a <em>b</em><strong>c</strong> <u>d</u><del>e</del> <code>f</code><x-y>g</x-y><span>h</span><br><ins>i</ins><s>j</s></p>',
    '<pre><code>a\nb</code></pre><section><code>c\nd</code> <b>e <i>f</i></b></section>',
]
NEUTRAL_CFGS = [dict(width=40), dict(width=40, renderers={'em': [None, dict(template='/{}/', capitalized=True)], 'span': ['InlineRenderer', dict(template='<{}>')]})]


def spaces(tier):
    t = tier == 'thorough'
    return [
        Space('all', trees(3, LABELS, ['t', 's'], CONTEXTS), check_tree, 'all forests of up to 3 nodes over all inline elements, 8 contexts'),
        Space('small', trees(5 if t else 4, SMALL, ['t', 's'], ['p', 'section', 'pre']), check_tree, 'all forests of up to {} nodes over six inline elements'.format(5 if t else 4)),
        Space('templates', templates, check_templates, 'templates and capitalisation'),
        Space('codes', codes, check_codes, 'code everywhere'),
        Space('code-text', code_text, check_code_text, 'code with line breaks in its text'),
        Space('breaks', breaks, check_breaks, 'sequences with line breaks'),
        Space('wrapped', wrapped(5 if t else 4), check_wrapped, 'inline elements in wrapped text'),
        attribute_space(NEUTRAL_DOCS, NEUTRAL_CFGS),
        element_space(NEUTRAL_DOCS, NEUTRAL_CFGS),
        words_space(NEUTRAL_DOCS, NEUTRAL_CFGS, t),
        scaling_space(NEUTRAL_DOCS, NEUTRAL_CFGS, t),
    ]


ASSUMPTIONS = []
