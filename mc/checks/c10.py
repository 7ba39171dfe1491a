"""C10 A renderer is applied to exactly the elements its selector matches."""
import itertools

import ref
from core import COUNT, Space, Violation
from lib import *

# Selectors are data: ['name', 'x'], ['any'], ['class', 'c'], ['id', 'i'], ['attr', name, op, value], ['first'], ['last'],
# ['nth', text, a, b], ['nthlast', text, a, b], ['not', simple], ['dead', text];
# a compound is a list of these; a complex selector is [compound, combinator, compound, ...]; a list has several of them.


def text_of_simple(s):
    kind = s[0]
    if kind == 'name':
        return s[1]
    if kind == 'any':
        return '*'
    if kind == 'class':
        return '.' + s[1]
    if kind == 'id':
        return '#' + s[1]
    if kind == 'attr':
        return '[{}]'.format(s[1]) if s[2] is None else '[{}{}"{}"]'.format(s[1], s[2], s[3])
    if kind in ('first', 'last'):
        return ':{}-child'.format(kind)
    if kind == 'nth':
        return ':nth-child({})'.format(s[1])
    if kind == 'nthlast':
        return ':nth-last-child({})'.format(s[1])
    if kind == 'not':
        return ':not({})'.format(text_of_simple(s[1]))
    return s[1]


def text_of_selector(sel):
    out = ''
    for part in sel:
        if isinstance(part, str):
            out += part if part == ' ' else ' {} '.format(part)
        else:
            out += ''.join(text_of_simple(s) for s in part)
    return out


# Elements for the model: (name, attributes as written, parent, element children)
class E:
    def __init__(self, name, attrs, parent):
        self.name, self.attrs, self.parent, self.children = name, attrs, parent, []

    def siblings(self):
        return self.parent.children if self.parent else ROOTS


ROOTS = []


def simple_matches(e, s):
    kind = s[0]
    if kind == 'name':
        return e.name == s[1]
    if kind == 'any':
        return True
    if kind == 'class':
        return s[1] in (e.attrs.get('class') or '').split()
    if kind == 'id':
        return 'id' in e.attrs and e.attrs['id'] == s[1]
    if kind == 'attr':
        _, name, op, value = s
        if name not in e.attrs:
            return False
        v = e.attrs[name] or ''
        if name == 'class':
            v = ' '.join(v.split())
        if op is None:
            return True
        if op == '=':
            return v == value
        if op == '~=':
            return value in v.split()
        if op == '|=':
            return v == value or v[:len(value) + 1] == value + '-'
        if value == '':
            return False
        return {'^=': v[:len(value)] == value, '$=': v[-len(value):] == value, '*=': value in v}[op]
    if kind in ('first', 'last'):
        return e.siblings()[0 if kind == 'first' else -1] is e
    if kind in ('nth', 'nthlast'):
        line = e.siblings() if kind == 'nth' else e.siblings()[::-1]
        position = [i for i, x in enumerate(line) if x is e][0] + 1
        a, b = s[2], s[3]
        return any(a * n + b == position for n in range(0, len(line) + abs(b) + 2))
    if kind == 'not':
        return not simple_matches(e, s[1])
    return False


def complex_matches(e, sel):
    if not all(simple_matches(e, s) for s in sel[-1]):
        return False
    if len(sel) == 1:
        return True
    rest, combinator = sel[:-2], sel[-2]
    if combinator == ' ':
        p = e.parent
        while p is not None:
            if complex_matches(p, rest):
                return True
            p = p.parent
        return False
    if combinator == '>':
        return e.parent is not None and complex_matches(e.parent, rest)
    before = []
    for x in e.siblings():
        if x is e:
            break
        before.append(x)
    if combinator == '+':
        return bool(before) and complex_matches(before[-1], rest)
    return any(complex_matches(x, rest) for x in before)


# ----------------------------------------------------------------- documents

KINDS = {
    'x': ('x', {}), 'y': ('y', {}), 'xc': ('x', {'class': 'c'}), 'yc': ('y', {'class': 'd c'}), 'xi': ('x', {'id': 'i'}),
    'ya': ('y', {'k': 'v-w'}), 'xv': ('x', {'k': None, 'class': None}), 'br': ('br', {'class': 'c'}),
}


def build(forest, parent, out):
    """The model elements, and the document in which each element shows its number."""
    doc = []
    kids = []
    for label, children in forest:
        name, attrs = KINDS[label]
        e = E(name, attrs, parent)
        kids.append(e)
        out.append(e)
        number = len(out) - 1
        inner, below = build(children, e, out)
        e.children = below
        doc.append([name, attrs, [] if name == 'br' else ['<{}.'.format(number)] + inner + ['.{}>'.format(number)]])
        # (text between the elements, which does not count)
        doc.append('\n t ')
    return doc, kids


def run(forest, selectors, models=None):
    """For every selector, which elements of the document are rendered with it."""
    elements = []
    doc, roots = build(forest, None, elements)
    ROOTS[:] = roots
    source = to_html(doc)
    seen = []
    for sel, model in zip(selectors, models or selectors):
        text = ', '.join(text_of_selector(s) for s in sel)
        out = render_html(source, dict(renderers={
            '': ['InlineRenderer', dict(template='{}')], 'br': ['InlineRenderer', dict(template='')], text: ['InlineRenderer', dict(template='({})')]}))
        got = []
        for i, e in enumerate(elements):
            if e.name != 'br':
                got.append('(<{}.'.format(i) in out and '.{}>)'.format(i) in out)
                if ('(<{}.'.format(i) in out) != ('.{}>)'.format(i) in out):
                    raise Violation('odd output\n' + show(('source', source), ('output', out)))
            else:
                got.append(None)
        want = [None if e.name == 'br' else any(complex_matches(e, s) for s in model) for e in elements]
        if got != want:
            raise Violation('the selector {!r} does not match as it should\n'.format(text) + show(
                ('source', source), ('expected (in order of the start tags)', want), ('actual', got), ('output', out)))
        seen.append(''.join('-' if g is None else str(int(g)) for g in got))
    return seen


def nth(text):
    t = text.replace(' ', '').lower()
    if t == 'odd':
        return 2, 1
    if t == 'even':
        return 2, 0
    if 'n' not in t:
        return 0, int(t)
    a, b = t.split('n')
    return (int(a + '1') if a in ('', '+', '-') else int(a)), int(b or '0')


NTH = ['1', '2', '3', '4', '0', '-1', 'odd', 'even', 'n', '2n', '2n+1', '2n+2', '3n+1', '3n-1', '-n+2', '-2n+5', 'n+2', '0n+2', 'n-3', '10n+1']
SIMPLE = [['name', 'x'], ['name', 'y'], ['any'], ['class', 'c'], ['class', 'd'], ['id', 'i'], ['first'], ['last']]
ATTRS_ = [['attr', n, op, v] for n in ('k', 'class', 'id') for op, vs in ((None, ['']), ('=', ['v-w', 'c', 'i', '', 'd c', 'v']), ('~=', ['v-w', 'c', 'd', '', 'd c']),
          ('|=', ['v', 'v-w', 'c', '']), ('^=', ['v', 'd', '', 'w']), ('$=', ['w', 'c', '', 'v']), ('*=', ['-', 'd c', '', 'z'])) for v in vs]
POSITIONS = [[k, t] + list(nth(t)) for k in ('nth', 'nthlast') for t in NTH]
DEAD = [['dead', s] for s in (':hover', ':only-child', ':nth-of-type(1)', '::before', ':first-line', '::x(1)', ':empty', ':root', ':first-of-type', ':lang(en)', ':last-of-type', ':nth-last-of-type(1)', ':link', ':visited', ':checked', ':enabled', ':disabled', ':focus', ':active', ':target', ':any-link', ':required', '::after', '::first-letter', ':first-letter', ':after', ':in-range')]
ALL_SIMPLE = SIMPLE + ATTRS_ + POSITIONS + DEAD


def one(sel):
    """A selector list of a single complex selector."""
    return [sel]


def negations():
    return [['not', s] for s in SIMPLE[:6] + ATTRS_ + POSITIONS[:3] + [['first'], ['last']] if s[0] != 'any'] + [['not', ['any']]]


def compounds():
    out = []
    for name in (['name', 'x'], ['any'], ['name', 'y']):
        for s in [['class', 'c'], ['id', 'i'], ['attr', 'k', None, ''], ['attr', 'k', '|=', 'v'], ['first'], ['last'], ['nth', '2', 0, 2], ['nthlast', 'odd', 2, 1],
                  ['not', ['class', 'c']], ['not', ['name', 'y']], ['not', ['first']]] + DEAD[:1]:
            out.append([name, s])
    for a, b in itertools.permutations([['class', 'c'], ['class', 'd'], ['first'], ['last'], ['not', ['class', 'd']], ['attr', 'k', '^=', 'v'], ['nth', 'even', 2, 0]], 2):
        out.append([a, b])
    return out


COMBINATORS = [' ', '>', '+', '~']
PARTS = [[['name', 'x']], [['any']], [['class', 'c']], [['name', 'y'], ['first']], [['not', ['name', 'x']]], [['last']]]


def complex_(n, parts):
    for ps in itertools.product(parts, repeat=n):
        for cs in itertools.product(COMBINATORS, repeat=n - 1):
            sel = [ps[0]]
            for c, p in zip(cs, ps[1:]):
                sel += [c, p]
            yield one(sel)


def groups(selectors, size=6):
    it = iter(selectors)
    while True:
        g = list(itertools.islice(it, size))
        if not g:
            return
        yield g


def shapes(size, labels):
    return list(forests_upto(size, labels, []))


def space(size, labels, selectors, minimum=1):
    def gen():
        gs = list(groups(selectors))
        for f in shapes(size, labels):
            for g in gs:
                yield [f, g]
    return gen


def check(case):
    f, g = case
    return run(f, g)


def check_spelling(case):
    f, g = case
    model = [[[c if isinstance(c, str) else [spelled(s) for s in c] for c in sel] for sel in sels] for sels in g]
    return run(f, g, model)


def lists():
    singles = [[[['name', 'x']]], [[['class', 'c']]], [[['name', 'y']], '>', [['any']]], [[['last']]], [[['dead', '::before']]], [[['dead', ':hover']]], [[['id', 'zz']]]]
    for n in (2, 3):
        for ss in itertools.permutations(singles, n):
            yield list(ss)


def wide():
    """Many siblings."""
    for n in list(range(1, 30)) + [60, 101]:
        f = [['x' if i % 3 else 'yc', []] for i in range(n)]
        for g in groups([one([[p]]) for p in POSITIONS + [['first'], ['last']]] + [one([[['class', 'c']], c, [['name', 'x']]]) for c in '+~']):
            yield [f, g]


SPELLINGS = [[['name', 'X']], [['name', 'Y'], ['class', 'c']], [['attr', 'K', None, '']], [['attr', 'K', '=', 'v-w']], [['attr', 'Class', '~=', 'c']], [['attr', 'ID', '=', 'i']],
             [['name', 'x'], ['class', 'C']], [['id', 'I']], [['attr', 'k', '=', 'V-W']], [['attr', 'class', '*=', 'C']], [['not', ['name', 'X']]], [['not', ['attr', 'K', None, '']]],
             [['nth', 'ODD', 2, 1]], [['nth', '2N+1', 2, 1]], [['name', 'Y'], ['nthlast', 'Even', 2, 0]]]


def spelled(model):
    """What upper case comes to: names of elements and attributes have none."""
    kind = model[0]
    if kind == 'name':
        return [kind, model[1].lower()]
    if kind == 'attr':
        return [kind, model[1].lower()] + model[2:]
    if kind == 'not':
        return [kind, spelled(model[1])]
    return model


def spellings():
    for f in shapes(2, list(KINDS)):
        for g in groups([one([p]) for p in SPELLINGS] + [one([a, c, b]) for a in SPELLINGS[:3] for b in SPELLINGS[:2] for c in COMBINATORS]):
            yield [f, g]


def values(n):
    """Every short value of the class attribute and of another, and every selector of attributes."""
    wanted = ['c', 'd', 'C', 'c-d', 'c c', 'c-', 'cc', '', ' ', 'd c']
    def gen():
        sels = [one([[s]]) for s in [['attr', name, op, v] for name in ('class', 'k', 'id') for op in ('=', '~=', '|=', '^=', '$=', '*=') for v in wanted]
                + [['class', 'c'], ['class', 'C'], ['class', 'c-d'], ['not', ['class', 'c']], ['not', ['attr', 'k', '~=', 'c']], ['attr', 'k', None, ''], ['attr', 'class', None, ''], ['id', 'c'], ['id', 'C'], ['id', 'c-'], ['not', ['id', 'c']]]]
        gs = list(groups(sels, 20))
        for k in range(0, n + 1):
            for chars in itertools.product('cC -\t', repeat=k):
                for g in gs:
                    yield [''.join(chars), g]
    return gen


def check_value(case):
    value, g = case
    label = 'value ' + value
    KINDS[label] = ('x', {'class': value, 'k': value, 'id': value})
    try:
        return run([[label, [['y', []]]], ['yc', []]], g)
    finally:
        del KINDS[label]


IDENTIFIER = re.compile('[a-zA-Z][a-zA-Z0-9_-]*')


def mentioned():
    known, new = mentioned_words()
    for source, forms in ((known, 2), (new, 4)):
        for w in source['words'] + [str(n) for n in source['numbers']]:
            if not re.search(r'["\\\x00-\x1f\u0080-\U0010ffff]', w):
                for v in [w, w.lower(), 'x ' + w, w.upper()][:forms]:
                    yield [w, v]


def check_mentioned(case):
    """A word as the name of an element, as a class, an id, the name of an attribute, a value and a part of one."""
    w, v = case
    name = w.lower()
    named = NAME.fullmatch(name) and name not in SPECIAL and name not in VOID and name not in ref.BLOCKS and name not in ref.TAGS
    attribute = re.fullmatch('[a-z][a-z0-9_-]*', name)
    kinds = {'1': ('x', {'class': v}), '2': ('x', {'id': v}), '3': ('y', {'k': v}), '4': (name if named else 'x', {}), '5': ('y', {name if attribute else 'k': 'c'}), '6': ('x', {'class': 'c ' + v + ' d', 'k': v + '-y'})}
    simple = [['attr', a, op, v] for a in ('class', 'id', 'k') for op in ('=', '~=', '|=', '^=', '$=', '*=')] + [['not', ['attr', 'k', '=', v]], ['not', ['attr', 'class', '~=', v]]]
    if IDENTIFIER.fullmatch(v):
        simple += [['class', v], ['id', v], ['not', ['class', v]], ['not', ['id', v]]]
    if IDENTIFIER.fullmatch(name):
        simple += [['name', name], ['attr', name, None, ''], ['attr', name, '=', 'c'], ['not', ['name', name]], ['not', ['attr', name, None, '']]]
    KINDS.update(kinds)
    try:
        return run([['1', []], ['2', [['3', []]]], ['4', [['1', []], ['5', []]]], ['6', [['4', []]]], ['x', []]],
                   [one([[s]]) for s in simple] + [one([[['name', 'x'], s]]) for s in simple if s[0] not in ('name',)] + [one([[s], c, [['any']]]) for s in simple[-4:] for c in COMBINATORS])
    finally:
        for k in kinds:
            del KINDS[k]


def deep():
    """Many ancestors."""
    for n in range(1, 30):
        f = []
        for i in range(n):
            f = [[('x', 'yc', 'xi', 'y')[i % 4], f]]
        for g in groups([one([[a], c, [b]]) for a in (['name', 'x'], ['class', 'c'], ['id', 'i'], ['first']) for b in (['name', 'x'], ['any'], ['name', 'y']) for c in ' >']):
            yield [f, g]


FAR = {
    # what there is n of: (document, selectors and whether they match the x)
    'ancestors': lambda n: ('<y class="c" id="i">' + '<z>' * n + '<x>q</x>' + '</z>' * n + '</y>', {
        '.c x': True, 'y x': True, '#i x': True, 'y > x': n == 0, '.c z x': n > 0, 'y z > x': n > 0, 'y > z x': n > 0, 'y > z > x': n == 1, 'z z x': n > 1, 'y y x': False, 'x x': False,
        'y:first-child x': True, ':not(z) x': True, '* x': True, 'y > * x': n > 0}),
    'siblings before': lambda n: ('<y class="c"></y>' + '<z></z>' * n + '<x>q</x>', {
        '.c ~ x': True, 'y ~ x': True, 'y + x': n == 0, 'y ~ z ~ x': n > 0, 'y + z ~ x': n > 0, 'y ~ z + x': n > 0, 'z ~ z ~ x': n > 1, 'x:nth-child({})'.format(n + 2): True,
        'x:nth-child({})'.format(n + 1): False, 'x:nth-child(n+{})'.format(n + 2): True, 'x:nth-child(n+{})'.format(n + 3): False, 'x:nth-child(-n+{})'.format(n + 1): False, 'x:nth-child(-n+{})'.format(n + 2): True,
        'x:nth-child({}n)'.format(n + 2): True, 'x:nth-child(odd)': n % 2 == 1, 'x:nth-child(3n+1)': (n + 2) % 3 == 1, ':last-child': True, 'x:nth-child({}n+{})'.format(n + 3, n + 2): True}),
    'siblings after': lambda n: ('<x>q</x>' + '<z></z>' * n + '<y class="c"></y>', {
        'y ~ x': False, 'x:nth-last-child({})'.format(n + 2): True, 'x:nth-last-child({})'.format(n + 1): False, 'x:nth-last-child(n+{})'.format(n + 2): True, 'x:nth-last-child(n+{})'.format(n + 3): False,
        'x:nth-last-child(-n+{})'.format(n + 1): False, 'x:nth-last-child({}n)'.format(n + 2): True, 'x:nth-last-child(even)': n % 2 == 0, 'x:first-child': True, 'x:last-child': False}),
    'texts': lambda n: ('<z></z> t' + ' <!----> t' * n + '<x>q</x> t' + ' <!----> t' * n, {'z + x': True, 'x:nth-child(2)': True, 'x:last-child': True, 'x:nth-last-child(1)': True, 'z ~ x': True, 'x:first-child': False}),
    'classes': lambda n: ('<x class="{}">q</x>'.format(' '.join('k{}'.format(i) for i in range(n + 1))), {
        '.k0': True, '.k{}'.format(n): True, '.k{}'.format(n + 1): False, '.k{}.k0'.format(n): True, ''.join('.k{}'.format(i) for i in range(n + 1)): True, '[class~=k{}]'.format(n): True,
        '[class~=k{}]'.format(n + 1): False, '[class$=k{}]'.format(n): True, 'x:not(.k{})'.format(n): False, 'x:not(.k{})'.format(n + 1): True, ''.join('.k{}'.format(i) for i in range(n + 2)): False}),
    'attributes': lambda n: ('<x {}>q</x>'.format(' '.join('k{0}="v{0}"'.format(i) for i in range(n + 1))), {
        '[k0]': True, '[k{}]'.format(n): True, '[k{0}=v{0}]'.format(n): True, '[k{}]'.format(n + 1): False, '[k{}=v0]'.format(n): n == 0,
        ''.join('[k{}]'.format(i) for i in range(n + 1)): True, ''.join('[k{}]'.format(i) for i in range(n + 2)): False}),
    'parts': lambda n: ('<x>q</x>', {', '.join(['z'] * n + ['x']): True, ', '.join(['x'] + ['z'] * n): True, ', '.join(['z'] * (n + 1)): False, ', '.join('z' * (i + 1) for i in range(n)) + ', x' if n else 'x': True}),
    'negations': lambda n: ('<x class="c">q</x>', {'x' + ':not(.z)' * n: True, 'x' + ':not(.z)' * n + ':not(.c)': False, 'x:not(.c)' + ':not(.z)' * n: False}),
    'letters': lambda n: ('<x k="a{0}b" class="{0}d" id="{0}e">q</x>'.format('v' * n), {
        '[k=a{}b]'.format('v' * n): True, '[k=a{}b]'.format('v' * (n + 1)): False, '[k^=a{}]'.format('v' * n): True, '[k$={}b]'.format('v' * n): True, '[k*={}]'.format('v' * n if n else 'a'): True,
        '[k*={}]'.format('v' * (n + 1)): False, '.{}d'.format('v' * n): True, '.{}d'.format('v' * (n + 1)): False, '#{}e'.format('v' * n): True, '#{}e'.format('v' * (n + 1)): False}),
    'name': lambda n: ('<{0}>q</{0}>'.format('x' * (n + 1)), {'x' * (n + 1): True, 'x' * (n + 2): False, 'X' * (n + 1): True}),
    'combinators': lambda n: ('<z>' * n + '<x>q</x>' + '</z>' * n, {'z ' * n + 'x': True, 'z ' * (n + 1) + 'x': False, 'z > ' * n + 'x': True, 'z > ' * (n + 1) + 'x': False}),
    'plusses': lambda n: ('<z></z>' * n + '<x>q</x>', {'z + ' * n + 'x': True, 'z + ' * (n + 1) + 'x': False, 'z ~ ' * n + 'x': True, 'z ~ ' * (n + 1) + 'x': False}),
}
DEEP = {'ancestors': 90, 'combinators': 60, 'plusses': 60, 'siblings before': 200, 'siblings after': 200, 'parts': 60, 'negations': 100, 'classes': 150, 'attributes': 150}


def far(limit):
    def gen():
        for kind in FAR:
            for n in list(range(0, min(limit, DEEP.get(kind, limit)))):
                for k in range(len(FAR[kind](n)[1])):
                    for extra in (0, n) if n < 100 else (0,):
                        yield [kind, n, k, extra]
    return gen


def check_far(case):
    """A number of things of a kind, and n other rules."""
    kind, n, k, extra = case
    source, selectors = FAR[kind](n)
    selector, matches = list(selectors.items())[k]
    renderers = {'zz' + 'z' * i: ['InlineRenderer', {}] for i in range(extra)}
    renderers[selector] = [None, dict(template='({})')]
    out = render_html(source, dict(renderers=dict({'': 'InlineRenderer'}, **renderers)))
    if ('(q)' in out) != matches:
        raise Violation('the selector {}\n'.format('does not match' if matches else 'matches') + show(('source', source), ('selector', selector), ('output', out)))
    return out


def spaces(tier):
    t = tier == 'thorough'
    labels = list(KINDS)
    simple = [one([[s]]) for s in ALL_SIMPLE + negations()] + [one([c]) for c in compounds()]
    return [
        Space('simple', space(2, labels, simple), check, 'every simple and compound selector on every forest of up to 2 elements of 8 kinds'),
        Space('simple3', space(4 if t else 3, ['x', 'yc'], simple), check, 'every simple and compound selector on every forest of up to {} elements of 2 kinds'.format(4 if t else 3)),
        Space('two', space(4 if t else 3, ['x', 'yc', 'br'], complex_(2, PARTS)), check, 'every pair of compounds and combinator'),
        Space('three', space(4 if t else 3, ['x', 'yc'], complex_(3, PARTS if t else PARTS[:4])), check, 'every three compounds and combinators'),
        Space('four', space(6 if t else 5, ['x'], complex_(4, [PARTS[0], PARTS[5]])), check, 'every four of 2 compounds and combinators on every shape of up to {} elements'.format(6 if t else 5)),
        Space('spellings', spellings, check_spelling, 'names in upper case, which match if they are of elements and attributes, and values, which do not'),
        Space('values', values(6 if t else 4), check_value, 'every short value of the class attribute and another, over letters in both cases, hyphens and whitespace, times every selector of attributes'),
        Space('far', far(500 if t else 300), check_far, 'ancestors, siblings, classes, attributes, parts, letters and rules in every number up to some hundreds'),
        Space('mentioned', mentioned, check_mentioned, 'the words that the code mentions as names of elements and attributes, classes, ids and values'),
        Space('lists', space(3, ['x', 'yc'], lists()), check, 'lists of selectors'),
        Space('wide', wide, check, 'up to 101 siblings'),
        Space('deep', deep, check, 'up to 29 ancestors'),
    ]


ASSUMPTIONS = ['cssselect is trusted to parse selectors.', 'Namespaces are not used.']
