"""C33 The work stays in proportion to the document."""
import itertools
import json
import os
import re
import subprocess
import sys
import threading
import time

from core import COUNT, Space, Violation, VERIF
from lib import *

LIMIT = 12000000


class TooMuch(BaseException):
    pass


def work(cfg, pieces):
    """Calls, branches and jumps that are executed to render a document."""
    mon = sys.monitoring
    p = make_parser(cfg)
    count = 0

    def event(*args):
        nonlocal count
        count += 1
        if count > LIMIT:
            raise TooMuch()
    events = mon.events.PY_START | mon.events.JUMP | mon.events.BRANCH | mon.events.CALL
    mon.use_tool_id(4, 'work')
    for e in (mon.events.PY_START, mon.events.JUMP, mon.events.BRANCH, mon.events.CALL):
        mon.register_callback(4, e, event)
    mon.set_events(4, events)
    try:
        for piece in pieces:
            p.feed(piece)
        p.close()
    except TooMuch:
        count = None
    finally:
        mon.set_events(4, 0)
        mon.free_tool_id(4)
    COUNT.runs += 1
    COUNT.events += count or LIMIT
    return count


def judge(family, cfg, sizes):
    """
    The work at four sizes n, 2n, 3n, 4n: if it is (at most) quadratic, the
    third difference vanishes, but for the odd line or digit more. With five
    sizes, cubic is allowed, and the fourth difference has to vanish.
    """
    counts = [work(cfg, family(n)) for n in sizes]
    info = show(('document of size {}'.format(sizes[0]), ''.join(family(sizes[0]))[:1500]), ('config', cfg), ('sizes', list(sizes)), ('calls, branches and jumps', counts))
    if None in counts:
        raise Violation('the work is out of all proportion\n' + info)
    rest = difference(counts)
    if rest > counts[-1] * TOLERANCE + 3000:
        raise Violation('the work grows faster than it should\n' + info + '\nlast difference: {}'.format(rest))
    return rest * 1000 // counts[-1]


def difference(counts):
    while len(counts) > 1:
        counts = [b - a for a, b in zip(counts, counts[1:])]
    return counts[0]


TOLERANCE = 0.04
ELEMENTS = ['p', 'div', 'ul', 'ol', 'li', 'b', 'x-y', 'pre', 'code', 'blockquote', 'h2', 'dl', 'dt', 'dd', 'td', 'span']
ATTRS = {'a': ' href="/x"', 'img': ' src="/y" alt="z"'}


def tag(t):
    return '<' + t + ATTRS.get(t, '') + '>'


def chains(sizes):
    def gen():
        for a, b in itertools.product(ELEMENTS + ['a'], repeat=2):
            for text in ('', 't '):
                for fmt in ('text', 'gophermap'):
                    yield [a, b, text, fmt, sizes]
    return gen


def check_chain(case):
    a, b, text, fmt, sizes = case

    def family(n):
        path = [(a, b)[i % 2] for i in range(n)]
        return [''.join(tag(t) + text for t in path) + 'end' + ''.join(text + '</' + t + '>' for t in reversed(path))]
    cfg = dict(fmt=fmt, host='h', width=600)
    return judge(family, cfg, sizes)


def rows(sizes):
    def gen():
        for parent in ['', 'p', 'div', 'ul', 'ol', 'li', 'b', 'pre', 'blockquote', 'dl', 'dd', 'h2', 'a', 'code']:
            for a in ELEMENTS + ['a', 'img', 'br']:
                for between in ('', ' t\n', '<i>u</i>'):
                    yield [parent, a, between, sizes]
    return gen


def check_row(case):
    parent, a, between, sizes = case

    def family(n):
        one = tag(a) + ('' if a in VOID else 's</' + a + '>') + between
        return ['<' + parent + ATTRS.get(parent, '') + '>' if parent else '', one * n, '</' + parent + '>' if parent else '']
    return [judge(family, cfg, sizes) for cfg in (dict(width=30), dict(width=30, fmt='gophermap', host='h', link='after_block', img='footer'))]


UNITS = ['word ', 'a', 'a-', '. ', 'A. ', '\n', 'a\nb', '\t', '  ', '\x1b[1m', 'a\x1b[1mb ', '\x1b[', '&amp;', '&', '&#', '<', '</', '<!-- x -->', '<?x>', '"', '" ', '{}', '--', 'a--', '!', '\u00e9', '</p>', '</x>', '</b> ']
CONTEXTS = ['', 'p', 'li', 'pre', 'blockquote', 'h2', 'dd', 'b', 'a', 'code']


def texts(sizes):
    def gen():
        for u in UNITS:
            for c in CONTEXTS:
                for j in ('left', 'full', 'center', 'right'):
                    if j == 'left' or c in ('p', 'li', 'dd'):
                        for how in ('whole', 'pieces'):
                            yield [u, c, j, how, sizes]
    return gen


def check_text(case):
    unit, c, j, how, sizes = case

    def family(n):
        # what ends an element ends the other elements
        start, end = ('<' + c + ATTRS.get(c, '') + '>', '</' + c + '>') if c else ('', '')
        return [start] + ([unit] * n if how == 'pieces' else [unit * n]) + ['.', end]
    return judge(family, dict(width=20, renderers={c: [None, dict(justification=j)]} if c in ('p', 'li', 'dd') else {}), sizes)


def rules(sizes):
    def gen():
        for form in ('.c{}', 'p.c{}', 'p .c{}', '.c{} > b', '*:not(.c{})', 'b:nth-child({})', '[a{}]', '#i{}', 'p + .c{}', 'p ~ .c{}', 'b'):
            for elements in (1, 3):
                yield [form, elements, sizes]
    return gen


def check_rules(case):
    form, elements, sizes = case
    counts = []
    for n in sizes:
        renderers = {}
        for i in range(n):
            renderers[form.format(i) if form != 'b' else ', '.join(['b'] * (i + 1))] = [None, dict(template='{}')]
        counts.append(work(dict(renderers=renderers), ['<p class="{}">a<b class="{}">c</b></p>'.format(' '.join('c{}'.format(i) for i in range(8)), 'c1 c2') * elements]))
    info = show(('rules', form), ('numbers of rules', list(sizes)), ('calls, branches and jumps', counts))
    if None in counts:
        raise Violation('the work is out of all proportion\n' + info)
    if difference(counts) > counts[-1] * TOLERANCE + 3000:
        raise Violation('the work grows faster than quadratically with the rules\n' + info)
    return counts


def combinators(sizes):
    """Selectors of ever more parts, which match up to the last one."""
    def gen():
        for first in ('q', 'b.zz', 'b:nth-child(99)'):
            for pattern in itertools.product(' >~+', repeat=2):
                for unit in itertools.product(('b', '*', 'b:not(.q)'), repeat=2):
                    for shape in ('deep', 'wide', 'both'):
                        yield [first, ''.join(pattern), list(unit), shape, sizes]
    return gen


def check_combinators(case):
    first, pattern, unit, shape, sizes = case
    source = {'deep': '<b>' * 24, 'wide': '<p>' + '<b></b>' * 24, 'both': '<b><b></b><b></b>' * 12}[shape] + 'x'
    counts = []
    for n in sizes:
        selector = first + ''.join('{}{}'.format(pattern[i % 2].join('  ') if pattern[i % 2] != ' ' else ' ', unit[i % 2]) for i in range(n))
        counts.append(work(dict(renderers={selector: [None, dict(template='{}')]}), [source]))
    info = show(('selector', selector), ('numbers of combinators', list(sizes)), ('calls, branches and jumps', counts))
    if None in counts:
        raise Violation('the work is out of all proportion\n' + info)
    if difference(counts) > counts[-1] * TOLERANCE + 3000:
        raise Violation('the work grows faster than quadratically with the parts of a selector\n' + info)
    return counts


def attributes(sizes):
    def gen():
        for t in ('p', 'b', 'a', 'img', 'x', 'li'):
            for form in (' a{}=b', ' class="{}"', ' c', ' title="{} {}"', ' href="{}/{}"'):
                yield [t, form, sizes]
    return gen


def check_attributes(case):
    t, form, sizes = case

    def family(n):
        if form.count('"') == 2:
            name, value, _ = form.split('"')
            return ['<' + t + name + '"' + ' '.join(value.replace('{}', 'v{}'.format(i)) for i in range(n)) + '">text']
        return ['<' + t + ''.join(form.format(i) for i in range(n)) + '>text']
    return judge(family, {}, sizes)


# What these counts cannot see is the work within calls of the interpreter's own
# functions. For that, valgrind counts the instructions that are executed.

INSTRUCTION_RULES = ['u ~ b', 'u + b', 'b:nth-child(2n)', 'b:nth-last-child(3)', 'b:first-child', 'b:last-child', 'p b', 'p > b', 'b:not(.x)', '.x', '[x]', '[class="x y"]', '#x']


def instructions(sizes, complete):
    # A few at a time, as it takes valgrind a while to get that far
    def gen():
        cases = iter(families())
        while True:
            some = list(itertools.islice(cases, 7))
            if not some:
                return
            yield some

    def families():
        for rule in INSTRUCTION_RULES:
            yield dict(kind='row', parent='p', element='b', between='', rule=rule, sizes=sizes)
        for parent in ('', 'p', 'ul', 'a', 'pre') + (('blockquote', 'dl', 'h2', 'b') if complete else ()):
            for element in ('p', 'li', 'a', 'img', 'x-y') + (('br', 'dd', 'div', 'td', 'code') if complete else ()):
                if complete or (parent in ('', 'ul')) == (element in ('p', 'li', 'a')):
                    for link in ('footer', 'after_block') if complete else ('footer',) if element == 'img' else ('after_block',):
                        yield dict(kind='row', parent=parent, element=element, between=' t\n', rule='', link=link, sizes=sizes)
        for unit in ('word ', 'a', '\n', '\x1b[1ma ', '&amp;', '</i>') + (tuple(UNITS) if complete else ()):
            for c in ('p', 'li', 'pre') + (('blockquote', 'h2', 'dd', 'a') if complete else ()):
                if complete or c == 'p' or unit in ('word ', '\n'):
                    for j in ('left', 'full', 'center') if complete else ('full',):
                        for how in ('whole', 'pieces') if complete or unit == 'word ' else ('pieces',):
                            yield dict(kind='text', unit=unit, element=c, justification=j, how=how, sizes=[n * 3 for n in sizes])
        for form in ('class="{}"', 'title="{}"', 'href="{}"', '{}'):
            yield dict(kind='attribute', form=form, sizes=[n * 3 for n in sizes])
        for a, b in itertools.product(('p', 'li', 'b', 'a') + (('blockquote', 'ul', 'pre', 'dd') if complete else ()), repeat=2):
            if complete or a <= b:
                yield dict(kind='chain', elements=[a, b], sizes=[sizes[0] // 4 * k for k in range(1, 6)])
    return gen


def instruction_document(case, n):
    """(configuration, pieces)"""
    kind = case['kind']
    if kind == 'row':
        a, parent = case['element'], case['parent']
        one = tag(a) + ('' if a in VOID else 's</' + a + '>') + case['between']
        cfg = dict(width=30, link=case.get('link', 'footer'), img=case.get('link', 'footer'), renderers={case['rule']: [None, dict(template='{}')]} if case['rule'] else {})
        return cfg, ['<' + parent + ATTRS.get(parent, '') + '>' if parent else '', one * n, '</' + parent + '>' if parent else '']
    if kind == 'text':
        c, unit = case['element'], case['unit']
        return dict(width=20, renderers={c: [None, dict(justification=case['justification'])]} if c in ('p', 'li', 'dd') else {}), [
            '<' + c + ATTRS.get(c, '') + '>'] + ([unit] * n if case['how'] == 'pieces' else [unit * n]) + ['.</' + c + '>']
    if kind == 'attribute':
        return {}, ['<a {}>x</a>'.format(case['form'].format(' '.join('v{}'.format(i) for i in range(n))))]
    path = [case['elements'][i % 2] for i in range(n)]
    return dict(width=600), [''.join(tag(t) + 't ' for t in path) + 'end' + ''.join('</' + t + '>' for t in reversed(path))]


def check_instructions(cases):
    r = subprocess.run(['valgrind', '--tool=cachegrind', '--cache-sim=no', '--cachegrind-out-file=/dev/null', sys.executable, '-W', 'ignore', os.path.join(VERIF, 'mc', 'instructions.py'), json.dumps(cases)],
                       capture_output=True, text=True, errors='replace', env=dict(os.environ, PYTHONHASHSEED='0'))
    counts = [int(x.replace(',', '')) for x in re.findall(r'I +refs: +([\d,]+)', r.stderr)]
    # The first is that of an empty document, the last one is the parent's
    if r.returncode != 0 or len(counts) != sum(len(case['sizes']) for case in cases) + 2:
        raise Violation('the documents could not be rendered\n' + show(('cases', cases), ('status', r.returncode), ('stderr', r.stderr[-3000:])))
    base, *counts = counts[:-1]
    counts = [c - base for c in counts]
    COUNT.runs += len(counts)
    COUNT.events += sum(counts)
    seen = []
    for case in cases:
        some, counts = counts[:len(case['sizes'])], counts[len(case['sizes']):]
        rest = difference(some)
        if rest > some[-1] * TOLERANCE + 400000:
            raise Violation('the work grows faster than it should\n' + show(('case', case), ('sizes', case['sizes']), ('instructions', some), ('last difference', rest)))
        seen.append(rest * 1000 // some[-1])
    return seen


def volumes():
    for how in ('characters', 'words', 'lines', 'tags', 'in pre', 'references', 'comments'):
        yield how


def check_volume(case):
    n = 60000
    unit = {'characters': 'ab c'[:4], 'words': 'word ', 'lines': 'a b\n', 'tags': '</i>', 'in pre': 'x\n', 'references': '&#65;', 'comments': '<!-- -->'}[case]
    p = make_parser(dict(width=60))
    p.feed('<pre>' if case == 'in pre' else '<p>')
    pieces = itertools.islice(itertools.cycle(unit), n) if case in ('characters', 'references') else itertools.repeat(unit, n)
    for piece in pieces:
        p.feed(piece)
    p.close()
    COUNT.runs += 1
    COUNT.events += n
    return len(p.parsed)


def spaces(tier):
    t = tier == 'thorough'
    return [
        Space('chains', chains((16, 32, 48, 64, 80) if t else (10, 20, 30, 40, 50)), check_chain, 'every pair of elements nested in turn'),
        Space('rows', rows((60, 120, 180, 240) if t else (16, 32, 48, 64)), check_row, 'every element repeated in every element'),
        Space('texts', texts((400, 800, 1200, 1600) if t else (80, 160, 240, 320)), check_text, 'repeated pieces of text and markup, at once and in pieces'),
        Space('rules', rules((20, 40, 60, 80) if t else (10, 20, 30, 40)), check_rules, 'numbers of rules of every kind'),
        Space('combinators', combinators((6, 12, 18, 24) if t else (4, 8, 12, 16)), check_combinators, 'selectors of up to {} combinators of every kind'.format(24 if t else 16)),
        Space('attributes', attributes((50, 100, 150, 200)), check_attributes, 'numbers of attributes, classes and words in them'),
        Space('instructions', instructions([100, 200, 300, 400] if t else [40, 80, 120, 160], t), check_instructions, 'instructions executed for repeated elements, text, attributes and nested elements', seconds=250),
        Space('volumes', volumes, check_volume, 'sixty thousand pieces'),
    ]


ASSUMPTIONS = ['Work is counted in calls, branches and jumps of Python code (sys.monitoring); what a call of a built-in function costs is not counted, only bounded by time for very many pieces.']
