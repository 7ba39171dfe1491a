"""C11 Of several matching selectors, the most specific one decides."""
import itertools

from core import COUNT, Space, Violation
from lib import *

# The elements of the document, in document order, and what they are inside of
ELEMENTS = ['x', 'x.c', 'x.c.d#i', 'y', 'y x', 'em', 'em.c', 'x[k]']
SOURCE = ('<x>0</x><x class="c">1</x><x class="c d" id="i">2</x><y>3<x>4</x></y><em>5</em><em class="c">6</em><x k="v">7</x>')

# selector -> parts as (specificity, numbers of the elements that match)
SELECTORS = {
    '*': [((0, 0, 0), {0, 1, 2, 3, 4, 5, 6, 7})],
    'x': [((0, 0, 1), {0, 1, 2, 4, 7})],
    'em': [((0, 0, 1), {5, 6})],
    'y x': [((0, 0, 2), {4})],
    '.c': [((0, 1, 0), {1, 2, 6})],
    '.d': [((0, 1, 0), {2})],
    'x.c': [((0, 1, 1), {1, 2})],
    '.c.d': [((0, 2, 0), {2})],
    '#i': [((1, 0, 0), {2})],
    'x, #i': [((0, 0, 1), {0, 1, 2, 4, 7}), ((1, 0, 0), {2})],
    '.c, em, *': [((0, 1, 0), {1, 2, 6}), ((0, 0, 1), {5, 6}), ((0, 0, 0), {0, 1, 2, 3, 4, 5, 6, 7})],
    '[k]': [((0, 1, 0), {7})],
    'x:not(.c)': [((0, 1, 1), {0, 4, 7})],
    ':first-child': [((0, 1, 0), {0, 4})],
    'y > x:first-child': [((0, 1, 2), {4})],
    'zz': [((0, 0, 1), set())],
    '#zz, .d': [((1, 0, 0), set()), ((0, 1, 0), {2})],
    'x::before': [((0, 0, 2), set())],
    '': None,
}


def classes():
    """Renderers that show their name and settings."""
    from gopher_render.rendering import InlineRenderer

    class Show(InlineRenderer):
        settings = dict(u='-', v='-', w='-')

        def render(self, content):
            s = self.settings
            return '<{}{}{}{} {}>'.format(type(self).__name__[0], s.u, s['v'], s.w, super().render(content))

    class A(Show):
        pass

    class B(Show):
        settings = dict(w='b')

    class Default(Show):
        pass

    class Em(Show):
        pass
    return A, B, Default, Em


# The forms of a value: (renderer, settings, shape)
FORMS = [('A', ['u'], 'pair'), (None, ['u', 'v'], 'pair'), ('B', None, 'bare'), ('B', ['v', 'w'], 'pair'), ('A', [], 'pair'), (None, ['w'], 'pair'), ('B', ['u'], 'list')]


def permutations(n, selectors, forms):
    def gen():
        for sels in itertools.permutations(selectors, n):
            for fs in itertools.product(forms, repeat=n):
                yield [sels, fs]
    return gen


CLASSES = []


def check(case):
    sels, forms = case
    if not CLASSES:
        CLASSES.extend(classes())
    A, B, Default, Em = CLASSES
    from gopher_render import GopherHTMLParser
    rules = {}
    model = {'': ('D', {}), 'em': ('E', {})}
    for i, (sel, f) in enumerate(zip(sels, forms)):
        renderer, keys, shape = FORMS[f]
        settings = None if keys is None else {k: str(i) for k in keys}
        klass = {'A': A, 'B': B, None: None}[renderer]
        rules[sel] = klass if shape == 'bare' else [klass, settings] if shape == 'list' else (klass, settings)
        model[sel] = (renderer, settings or {})
    given = {'': Default, 'em': Em}
    # (dictionaries keep the place of a key that is set again)
    given.update(rules)
    p = GopherHTMLParser(renderers=given)
    p.feed(SOURCE)
    p.close()
    COUNT.runs += 1
    COUNT.events += len(TOKEN.findall(SOURCE))

    def shown(n):
        name, settings = model['']
        name = name or 'R'
        settings = dict(settings)
        ranked = []
        order = [k for k in model if k != '']
        for k, sel in enumerate(order):
            matching = [spec for spec, who in SELECTORS[sel] if n in who]
            if matching:
                ranked.append((max(matching), k, sel))
        for spec, k, sel in sorted(ranked):
            r, s = model[sel]
            name = r or name
            settings.update(s)
        if name == 'R':
            return None
        own = {'u': '-', 'v': '-', 'w': 'b' if name == 'B' else '-'}
        own.update(settings)
        return '{}{u}{v}{w}'.format(name, **own)

    out = p.parsed
    found = re.findall(r'<(\w\S{3}) (\d)', out)
    got = {int(d): s for s, d in found}
    want = {n: shown(n) for n in range(len(ELEMENTS)) if shown(n) is not None}
    if got != want:
        raise Violation('the wrong renderer or settings\n' + show(('rules in order', [(s, FORMS[f]) for s, f in zip(sels, forms)]), ('document', SOURCE),
                                                                    ('expected', want), ('actual', got), ('output', out)))
    return out


VALUES = [None, 0, '', False, (), {}, 'x', {'a': 1}, {'b': 2}, [1], [2, 3]]


def values():
    """Values that count as false are values too."""
    for sels in itertools.permutations([s for s in SELECTORS if s not in ('zz', 'x::before')], 2):
        for fs in ((0, 0), (0, 1), (1, 0), (1, 1), (3, 1), (1, 3)):
            for vs in itertools.product(range(len(VALUES)), repeat=2):
                if (vs[0] < 7) != (vs[1] < 7) and 6 not in vs and 5 not in vs:
                    continue
                yield [sels, fs, vs]


def check_values(case):
    sels, forms, vs = case
    from gopher_render import GopherHTMLParser
    from gopher_render.rendering import InlineRenderer

    seen = {}

    class Show(InlineRenderer):
        def render(self, content):
            seen[re.search('[0-9]', content).group()] = {k: self.settings[k] for k in 'uvw' if k in self.settings}
            return content

    rules = {'': (Show, {'u': 1, 'v': 2, 'w': 3}), 'em': (Show, {'u': 4, 'v': 5, 'w': 6})}
    model = {'': {'u': 1, 'v': 2, 'w': 3}, 'em': {'u': 4, 'v': 5, 'w': 6}}
    for sel, f, v in zip(sels, forms, vs):
        s = {k: VALUES[v] for k in FORMS[f][1]}
        rules[sel] = (None if sel != '' or f == 1 else Show, s)
        model[sel] = s
    if rules[''][0] is None:
        rules[''] = (Show, rules[''][1])
    rules['em'] = (Show, rules['em'][1])
    p = GopherHTMLParser(renderers=rules)
    p.feed(SOURCE)
    p.close()
    COUNT.runs += 1
    COUNT.events += len(TOKEN.findall(SOURCE))
    for n in range(len(ELEMENTS)):
        want = dict(model[''])
        order = [k for k in model if k != '']
        for spec, k, sel in sorted((max(spec for spec, who in SELECTORS[sel] if n in who), k, sel)
                                   for k, sel in enumerate(order) if any(n in who for spec, who in SELECTORS[sel])):
            want.update(model[sel])
        got = seen.get(str(n))
        if repr(got and sorted(got.items())) != repr(sorted(want.items())):
            raise Violation('the wrong settings\n' + show(('rules in order', [(k, v[1]) for k, v in rules.items()]), ('document', SOURCE), ('element', n), ('expected', want), ('actual', got)))
    return repr(seen)


def big():
    """Specificities of more than one digit, and many rules."""
    for a, b in ((1, 2), (9, 10), (10, 11), (11, 12), (99, 100), (11, 101)):
        for kind in ('names', 'classes'):
            for swap in (False, True):
                yield [kind, a, b, swap]
    for n in (1, 5, 12):
        for order in itertools.permutations(range(4)):
            yield ['ranks', n, list(order), False]


def check_big(case):
    kind, a, b, swap = case
    if not CLASSES:
        CLASSES.extend(classes())
    A, B, Default, Em = CLASSES
    from gopher_render import GopherHTMLParser
    deep = 102 if kind == 'names' else 13
    source = '<x>' * deep + '<y class="c" id="i">q</y>' + '</x>' * deep
    if kind == 'names':
        low, high = 'x ' * a + 'y', 'x ' * b + 'y'
        rules = [(low, 'low'), (high, 'high')]
    elif kind == 'classes':
        low, high = '.c' * a, '.c' * b
        rules = [(low, 'low'), (high, 'high')]
    else:
        ranks = ['y', 'x ' * a + 'y', '.c' * a, '#i']
        rules = [(ranks[i], str(i)) for i in b]
    if swap:
        rules = rules[::-1]
    p = GopherHTMLParser(renderers={sel: (A, dict(u='({})'.format(name))) for sel, name in rules})
    p.feed(source)
    p.close()
    COUNT.runs += 1
    COUNT.events += len(TOKEN.findall(source))
    want = '3' if kind == 'ranks' else 'high'
    if '({})'.format(want) not in p.parsed:
        raise Violation('a less specific rule decides\n' + show(('rules', rules), ('expected', want), ('output', p.parsed)))
    return p.parsed


def spaces(tier):
    t = tier == 'thorough'
    most = [s for s in SELECTORS if s != 'zz']
    few = ['*', 'x', '.c', 'x.c', '#i', 'x, #i', '.d', 'y x']
    return [
        Space('one', permutations(1, list(SELECTORS), range(7)), check, 'every rule alone'),
        Space('two', permutations(2, list(SELECTORS), range(7)), check, 'every ordered pair of rules in every form'),
        Space('three', permutations(3, most if t else most[:12], range(5) if t else range(4)), check, 'every ordered triple of rules in {} forms'.format(5 if t else 4)),
        Space('four', permutations(4, few if t else few[1:6], range(4)), check, 'every ordered choice of four rules'),
        Space('values', values, check_values, 'settings of every kind of value that counts as false'),
        Space('big', check=check_big, gen=big, bound='large specificities'),
    ]


ASSUMPTIONS = ['cssselect is trusted for the specificity of a selector.']
