"""C27 Dictionaries with attribute access behave as dictionaries."""
import copy
import itertools
import pickle

from core import COUNT, Space, Violation
from lib import *

# Names of items, and those of them that may also be used as attributes (a dictionary has no such attributes)
METHODS = ['keys', 'update', '__len__', 'copy']
FREE = ['a', 'b']
ODD = ['data', '_x', '__y', 'class', 'A', 'é', 'x y', '', '1', 'None', '__slots__x', 'settings', 'margin', 'getattr']
MISSING = object()


def make(start):
    from gopher_render._namedict import namedict
    return namedict(start)


# Each operation acts on (namedict or dict, whether attributes are items) and gives a result.
def get_attr(d, m, k):
    if m:
        if k not in d:
            raise AttributeError(k)
        return d[k]
    return getattr(d, k)


def set_attr(d, m, k, v):
    if m:
        d[k] = v
    else:
        setattr(d, k, v)


def del_attr(d, m, k):
    if m:
        if k not in d:
            raise AttributeError(k)
        del d[k]
    else:
        delattr(d, k)


def aug(d, m, k):
    if m:
        if k not in d:
            raise AttributeError(k)
        d[k] = [d[k]]
    else:
        setattr(d, k, [getattr(d, k)])


def ior(d, m, other):
    d |= other
    return None


def set_item(d, k, v):
    d[k] = v


def del_item(d, k):
    del d[k]


OPS = {
    'attr': lambda d, m, k: get_attr(d, m, k), 'setattr': lambda d, m, k, v: set_attr(d, m, k, v), 'delattr': lambda d, m, k: del_attr(d, m, k), 'aug': lambda d, m, k: aug(d, m, k),
    'hasattr': lambda d, m, k: (k in d) if m else hasattr(d, k), 'getattr': lambda d, m, k: d.get(k, 'dflt') if m else getattr(d, k, 'dflt'),
    'item': lambda d, m, k: d[k], 'setitem': lambda d, m, k, v: set_item(d, k, v), 'delitem': lambda d, m, k: del_item(d, k), 'pop': lambda d, m, k: d.pop(k), 'pop2': lambda d, m, k: d.pop(k, 7),
    'get': lambda d, m, k: d.get(k), 'get2': lambda d, m, k: d.get(k, 5), 'in': lambda d, m, k: k in d, 'setdefault': lambda d, m, k, v: d.setdefault(k, v), 'popitem': lambda d, m: d.popitem(), 'clear': lambda d, m: d.clear(),
    'update': lambda d, m, k, v: d.update({k: v}), 'update2': lambda d, m, k, v: d.update(**{k: v}), 'update3': lambda d, m, k, v: d.update([(k, v)]), 'ior': lambda d, m, k, v: ior(d, m, {k: v}),
}


def observe(d, m):
    """Everything that can be seen of a dictionary, through items and through attributes."""
    seen = [list(d.items()), list(d.keys()), list(d.values()), list(d), len(d), bool(d), repr(dict(d)), dict(d) == d, sorted(d.copy().items(), key=repr), list(reversed(d))]
    for k in FREE:
        seen.append([k in d, d.get(k, 'none'), OPS['hasattr'](d, m, k), OPS['getattr'](d, m, k)])
    for k in METHODS:
        seen.append(d.get(k, 'none'))
        # the methods stay
        seen.append(True if m else callable(getattr(d, k)))
    return seen


def apply(d, m, op):
    name, args = op[0], op[1:]
    try:
        return ['ok', OPS[name](d, m, *args)]
    except (KeyError, AttributeError) as e:
        # A missing item is a KeyError, and a missing attribute an AttributeError
        return [type(e).__name__, None]


def attempt(start, ops):
    d, model = make(dict(start)), dict(start)
    for i, op in enumerate(ops):
        got, want = apply(d, False, op), apply(model, True, op)
        COUNT.events += 1
        a, b = observe(d, False), observe(model, True)
        if got != want or a != b:
            raise Violation('not as a dictionary after operation {}\n'.format(i) + show(('start', start), ('operations', ops), ('result', got), ('expected', want), ('observed', a), ('expected', b)))
    COUNT.runs += 1
    return list(d.items())


def operations(free, methods, values):
    for k in free:
        for name in ('attr', 'delattr', 'hasattr', 'getattr'):
            yield [name, k]
        for v in values:
            yield ['setattr', k, v]
        yield ['aug', k]
    for k in free + methods:
        for name in ('item', 'delitem', 'pop', 'pop2', 'get2', 'in'):
            yield [name, k]
        for v in values:
            for name in ('setitem', 'setdefault', 'update', 'ior'):
                yield [name, k, v]
    yield ['popitem']
    yield ['clear']


def sequences(n, free, methods, values, starts):
    ops = list(operations(free, methods, values))

    def gen():
        for k in range(1, n + 1):
            for seq in itertools.product(ops, repeat=k):
                for s in starts:
                    yield [s, seq]
    return gen


def check_sequence(case):
    return attempt(*case)


def names():
    """Any name at all."""
    for k in ODD + FREE + METHODS:
        for l in ODD + FREE + METHODS:
            for v in (0, None, '', [], 'x', {'a': 1}):
                yield [k, l, v]


def mentioned():
    known, new = mentioned_words()
    for source, others in ((known, ['a', 'keys']), (new, ODD + FREE + METHODS)):
        for k in source['words'] + source['characters'] + [str(n) for n in source['numbers']]:
            for l in [k] + others:
                for v in (0, None, '', [], 'x', {'a': 1}) if source is new else (None, 'x'):
                    yield [k, l, v]
                    yield [l, k, v]


def check_name(case):
    k, l, v = case
    dictionary = set(dir(dict)) | {'__dict__'}
    ops = [['setitem', k, v], ['update', l, 1], ['item', k], ['setdefault', l, 3], ['get', k]]
    if k not in dictionary:
        ops += [['setattr', k, v], ['attr', k], ['item', k], ['delattr', k], ['attr', k], ['hasattr', k], ['delattr', k], ['setattr', k, v]]
    if l not in dictionary:
        ops += [['setattr', l, [k]], ['item', l], ['attr', l], ['delitem', l], ['attr', l], ['item', l], ['setattr', l, v]]
    ops += [['pop', k], ['item', l], ['delitem', l], ['delitem', l]]
    return attempt({}, ops)


COPIES = {
    'namedict': lambda d: make(d), 'dict': dict, 'copy': lambda d: d.copy(), 'copy.copy': copy.copy, 'deepcopy': copy.deepcopy, 'pickle': lambda d: pickle.loads(pickle.dumps(d)), 'items': lambda d: make(list(d.items())), 'kw': lambda d: type(d)(**d),
    'or': lambda d: d | {}, 'ror': lambda d: {} | d, 'update': lambda d: (lambda e: (e.update(d), e)[1])(make({})), 'fromkeys': lambda d: type(d).fromkeys(d, 1),
}


def copies():
    small = [op for op in operations(['a'], ['keys'], [1])]
    for start in ({}, {'a': 1}, {'a': [1], 'keys': 2}, {'b': {'a': 1}, 'a': None}):
        for name in COPIES:
            for first in (True, False):
                for seq in itertools.product(small, repeat=2):
                    yield [start, name, first, seq]


def check_copy(case):
    """A copy is equal, and independent."""
    start, name, first, seq = case
    d = make(copy.deepcopy(start))
    c = COPIES[name](d)
    want = {k: 1 for k in start} if name == 'fromkeys' else start
    if dict(c) != want or name != 'fromkeys' and not (c == d and d == c and not c != d):
        raise Violation('a copy that differs\n' + show(('start', start), ('copy by', name), ('copy', c)))
    changed, other = (c, d) if first else (d, c)
    model = dict(changed)
    before = list(other.items())
    is_named = type(changed) is type(d)
    for op in seq:
        if is_named:
            got, exp = apply(changed, False, op), apply(model, True, op)
            if got != exp or observe(changed, False) != observe(model, True):
                raise Violation('a copy that is no such dictionary\n' + show(('start', start), ('copy by', name), ('operations', seq), ('result', got), ('expected', exp)))
        COUNT.events += 1
    if list(other.items()) != before:
        raise Violation('changing one changes the other\n' + show(('start', start), ('copy by', name), ('operations', seq)))
    COUNT.runs += 1
    return list(c.items())


def spaces(tier):
    t = tier == 'thorough'
    return [
        Space('sequences', sequences(4, FREE[:1], METHODS[:1], [1], [{}, {'a': 2}]), check_sequence, 'every sequence of up to 4 operations on an attribute and an item named like a method'),
        Space('sequences2', sequences(2, FREE, METHODS, [1, None], [{}, {'a': 2, 'keys': 3}]), check_sequence, 'every sequence of up to 2 operations on more names'),
    ] + ([Space('sequences5', sequences(5, FREE[:1], [], [1], [{}]), check_sequence, 'every sequence of up to 5 operations'),
          Space('sequences3', sequences(3, FREE, METHODS[:1], [1], [{}, {'b': 1}]), check_sequence, 'every sequence of up to 3 operations on two attributes and a method')] if t else []) + [
        Space('names', names, check_name, 'items and attributes of any name'),
        Space('mentioned', mentioned, check_name, 'the words that the code mentions as names'),
        Space('copies', copies, check_copy, 'copies of all kinds, changed independently'),
    ]
