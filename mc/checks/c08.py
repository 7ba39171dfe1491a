"""C08 Parsers do not affect each other or what they are given."""
import copy
import itertools
import multiprocessing as mp
import sys
import threading

from core import COUNT, REPO, Space, Violation
from lib import *

DOCS = [
    '<p>one <a href="/1" title="t">link</a> <img src="/i.png" alt="pic"> and some more words</p>',
    '<ol><li>x <b>y</b></li><li><p>z</p><ul><li>q</li></ul></li></ol>',
    '<blockquote><p>a b</p><pre>c\n  d</pre></blockquote><h2>head</h2>',
    '<div class="k"><em>d</em> <code>e</code><br>f</div><dl><dt>t</dt><dd>u v w</dd></dl>',
    '<pre>open <b>x',
]
CFGS = [
    dict(),
    dict(link='after_block', img='footer', width=15, margin=[1, 1, 2, 2], optimise=False),
    dict(fmt='gophermap', host='h', port=7070, img='after_block'),
    dict(link='inline', img='after_block', width=30,
         renderers={'.k': ['BlockRenderer', dict(border=['=', '|', '-', '|'], padding=[0, 1, 0, 1], margin=[1, 2, 1, 2])],
                    'p': ['ParagraphRenderer', dict(justification='full', initial_indent=2, margin=[0, 1, 0, 1])],
                    'b': ['AnsiEscapeCodeRenderer', dict(bold=True, foreground_colour='red')],
                    'ol > li': ['OrderedListItemRenderer', dict(start_index=5, step=2, line_template='({0}) {1}')],
                    'h2': ['HeaderRenderer', dict(underlined=True, centered=True, spread=1)],
                    'blockquote': ['BlockQuoteRenderer', dict(line_template='| {}')],
                    'dd': ['DefinitionListItemRenderer', dict(line_template='>>> {}', padding=[1, 1, 1, 1])],
                    'em': [None, dict(template='/{}/')]},
         extracted={'a': ['ExtractedLinkRenderer', dict(max_link_description=2)], 'img': ['ExtractedImageLinkRenderer', dict(max_link_description=1)]}),
]
ITEMS = list(itertools.product(range(len(CFGS)), range(len(DOCS))))


def _fresh(item, pipe):
    sys.stderr = open('/dev/null', 'w')
    pipe.send(render_html(DOCS[item[1]], CFGS[item[0]]))


def _fresh_option(i, pipe):
    sys.stderr = open('/dev/null', 'w')
    pipe.send(render_html(ALL_DOC, OPTIONS[i]))


def baselines(items=None, fresh=None):
    """Each item rendered in a process of its own, which renders nothing else."""
    ctx = mp.get_context('fork')
    out = {}
    for item in ITEMS if items is None else items:
        a, b = ctx.Pipe()
        p = ctx.Process(target=fresh or _fresh, args=(item, b))
        p.start()
        b.close()
        try:
            out[item] = a.recv()
        except EOFError:
            out[item] = None
        p.join()
    return out


ALONE = {}


class Job:
    """One use of a parser, in steps."""

    def __init__(self, item):
        self.item = tuple(item)
        doc = DOCS[self.item[1]]
        cut = len(doc) // 3
        self.steps = [lambda: self.create(), lambda: self.p.feed(doc[:cut]), lambda: self.p.feed(doc[cut:]), lambda: self.p.close()]

    def create(self):
        self.p = make_parser(CFGS[self.item[0]])

    def run(self):
        for s in self.steps:
            s()
        return self.p.parsed

    def judge(self, story):
        COUNT.runs += 1
        if self.p.parsed != ALONE[self.item]:
            raise Violation('a parser is affected by others\n' + show(
                ('document', DOCS[self.item[1]]), ('config', CFGS[self.item[0]]), ('alone', ALONE[self.item]), ('actual', self.p.parsed), ('schedule', story)))


def interleave(*counts):
    """All merges of sequences with these numbers of steps."""
    def rec(left):
        if not any(left):
            yield ()
            return
        for i, n in enumerate(left):
            if n:
                for rest in rec(left[:i] + (n - 1,) + left[i + 1:]):
                    yield (i,) + rest
    return rec(tuple(counts))


def interleavings(parsers, items):
    def gen():
        for chosen in itertools.product(items, repeat=parsers):
            for order in interleave(*[4] * parsers):
                # (reordering the parsers gives the same case)
                if order[0] == 0:
                    yield [chosen, order]
    return gen


def check_interleaving(case):
    chosen, order = case
    jobs = [Job(i) for i in chosen]
    steps = [list(j.steps) for j in jobs]
    for i in order:
        steps[i].pop(0)()
        COUNT.events += 1
    for j in jobs:
        j.judge(order)
    return [j.p.parsed for j in jobs]


def series(n):
    def gen():
        for chosen in itertools.product(ITEMS, repeat=n):
            yield chosen
    return gen


def check_series(case):
    for i in case:
        j = Job(i)
        j.run()
        COUNT.events += 4
        j.judge(case)
    return case[-1]


# -------------------------------------------------------- one option at a time

TEXT = 'It is well-known that a be-all. ends here "so." And so 1. on\xa0it goes: incomprehensibilitiesandother-and-hypercatalectic, at last!'
ALL_DOC = (
    '<h1 class="k">head ing</h1><h2>Head</h2><p>' + TEXT + ' <em>em</em> <strong>st rong</strong> <u>u</u> <del>del</del> <code>co de</code> <span class="k">sp an</span> <x-y>xy</x-y><br>after'
    ' <a href="/1.txt" title="t">link that is long</a> <img src="/i.png" alt="picture of something"> <a href="http://h/"><img src="gopher://g/2" title="q"></a></p>'
    '<div class="k">div ' + TEXT + '<section>se</section></div><ul><li><p>b</p></li><li>' + TEXT + '<ul><li>in</li></ul></li></ul><ol><li>c</li><li>' + TEXT + '</li></ol>'
    '<blockquote><p>' + TEXT + '</p>q</blockquote><dl><dt>t</dt><dt>term</dt><dd>' + TEXT + '</dd></dl><pre>p  q\n\tr<code>s\nt</code></pre><code>u\nv</code><div><a href="/3.gif">x</a></div>')

# The values that differ from the defaults, for the settings by name
OTHER = dict(
    margin=[[2, 1, 0, 1], [0, 0, 3, 0]], padding=[[1, 0, 1, 2], [0, 3, 0, 0]], border=[['-', '|', '=', '!'], ['', '', '', '#']], capitalized=[True], initial_indent=[2], subsequent_indent=[3],
    justification=['full', 'right', 'center'], fix_sentence_endings=[False], break_long_words=[False], break_on_hyphens=[False], drop_whitespace=[False], skip_for_code_or_pre=[False],
    line_template=['| {}', '{}'], indent=[0, 2], start_index=[0, 8], step=[2, -1], spread=[1, 2], spread_char=['.'], centered=[True], underlined=[True], underline_char=['~'], underline_full=[True],
    template=['<{}>', '{}'], block_template=['[{}]'], inline_template=['({})'], max_link_description=[0, 3], gophermap_template=['{type}{description}\t{selector}\t{host}\t{port}\n'],
    bold=[True], underline=[True], italic=[True], normalise=[True], foreground_colour=['red', 7, '#fff'], background_colour=['red'], font=[2],
)
TAGS = {'p': ('ParagraphRenderer', ()), 'li': ('ListItemRenderer', ()), 'ol > li': ('OrderedListItemRenderer', ()), 'dd': ('DefinitionListItemRenderer', ()), 'dt': ('DefinitionListTermHeaderRenderer', ()),
        'h1': ('HeaderRenderer', ('underlined', 'centered')), 'h2': ('HeaderRenderer', ('spread',)), 'ul': ('ListRenderer', ()), 'dl': ('DefinitionListRenderer', ()), 'div': ('BlockRenderer', ('padding',)),
        'blockquote': ('BlockQuoteRenderer', ()), 'pre': ('PreRenderer', ()), 'em': ('EmRenderer', ()), 'strong': ('StrongRenderer', ()), 'u': ('UnderlineRenderer', ()), 'del': ('StrikethroughRenderer', ()),
        'code': ('CodeRenderer', ()), 'span': ('AnsiEscapeCodeRenderer', ('bold',)), 'br': ('BreakRenderer', ()), 'a': ('LinkRenderer', ()), 'img': ('ImageRenderer', ()), 'x-y': ('InlineRenderer', ())}


def options():
    """Configurations that differ in one thing each."""
    out = [dict(), dict(width=66), dict(width=31), dict(margin=[0, 0, 0, 2]), dict(margin=[1, 2, 0, 0]), dict(optimise=False), dict(link='inline'), dict(link='after_block'), dict(img='footer'), dict(img='after_block')]
    gm = dict(fmt='gophermap', host='h')
    out += [gm, dict(gm, host='H'), dict(gm, port=71), dict(gm, img='footer'), dict(gm, link='after_block')]
    for tag, (name, extra) in TAGS.items():
        settings = [k for c in renderer_class(name).__mro__ for k in getattr(c, 'settings', ())]
        if 'break_long_words' in settings:
            settings += ['break_on_hyphens', 'drop_whitespace']
        base = {k: OTHER[k][0] for k in extra}
        out.append(dict(renderers={tag: [name, base]}))
        if tag in ('p', 'li', 'ol > li', 'dd'):
            # for options of wrapping to matter
            base = dict(base, margin=[0, 45, 0, 0])
            out.append(dict(renderers={tag: [name, base]}))
        for k in sorted(set(settings)):
            for v in OTHER.get(k, ()):
                out.append(dict(renderers={tag: [name, dict(base, **{k: v})]}))
        out += [dict(renderers={tag: 'NonRenderer'}), dict(renderers={tag: 'Renderer'})]
    for tag, name in (('a', 'ExtractedLinkRenderer'), ('img', 'ExtractedImageLinkRenderer')):
        for n in OTHER['max_link_description']:
            out.append(dict(extracted={tag: [name, dict(max_link_description=n)]}, img='footer'))
        out.append(dict(gm, extracted={tag: [name, dict(gophermap_template=OTHER['gophermap_template'][0])]}, img='footer'))
    SELECTORS[0] = len(out)
    for selector in ('.k', '.K', 'h1.k', 'H1.k', 'h1 .k', '[class="k"]', '[class="K"]', '[title="t"]', '[title="T"]', '[href^="/"]', 'p em', 'p  em', 'pem', 'h1 ~ p', 'h1+p', ':not(.k)', ':not(.K)', 'li:nth-child(1)', '*', 'p', 'P', 'div', 'span.k', '[class]', '[href]', ':first-child', ':last-child', 'li:nth-child(2)', 'ul li', 'ul > li', 'h1 + h2', 'p ~ ul'):
        out.append(dict(renderers={selector: ['InlineRenderer', dict(template='({})')]}))
    return out


def option_pairs(n):
    def gen():
        for pair in itertools.product(range(len(OPTIONS)), repeat=2):
            # (selectors with one another, and with the first options)
            if n > 2 or (pair[0] < SELECTORS[0]) == (pair[1] < SELECTORS[0]) or min(pair) < 15:
                yield pair
        if n > 2:
            for i, j in itertools.permutations(range(len(OPTIONS)), 2):
                yield [i, j, i]
    return gen


def check_options(case):
    parsers = [make_parser(OPTIONS[i]) for i in case]
    for p in parsers:
        p.feed(ALL_DOC)
    COUNT.events += 3 * len(case)
    # The last one first
    for i, p in list(zip(case, parsers))[::-1]:
        p.close()
        COUNT.runs += 1
        if p.parsed != OPTION_ALONE[i]:
            raise Violation('a parser is affected by others\n' + show(
                ('document', ALL_DOC), ('configs', [OPTIONS[i] for i in case]), ('this one', OPTIONS[i]), ('alone', OPTION_ALONE[i]), ('actual', p.parsed)))
    return case


OPTIONS = []
SELECTORS = [0]
OPTION_ALONE = {}


# ------------------------------------------------ classes that look the same

BASES = ['InlineRenderer', 'BlockRenderer', 'ParagraphRenderer', 'HeaderRenderer', 'ListItemRenderer', 'PreRenderer', 'BlockQuoteRenderer', 'LinkRenderer', 'Renderer', 'AnsiEscapeCodeRenderer', 'CodeRenderer']
# What makes a class: settings, and what render() puts around the result
BODIES = [({}, ''), (dict(margin=[1, 0, 0, 4]), ''), (dict(template='<{}>', line_template='| {}', inline_template='({})'), ''), (dict(template='={}=', line_template='# {}', indent=1, bold=True), ''), ({}, '!'), ({}, '?'),
          (dict(capitalized=True), ''), (dict(margin=[0, 0, 1, 1], padding=[1, 1, 1, 1], border=['-', '|', '-', '|']), '!'), (dict(justification='full'), ''), (dict(justification='right'), '')]
CLASS_DOC = '<div class="k">a <em>b</em> <a href="/1">c d</a> ' + TEXT + '</div>'


def named(name, base, body):
    settings, mark = BODIES[body]
    names = dict(settings=dict(settings), __module__='same', __qualname__=name)
    if mark:
        names['render'] = lambda self, content: mark + renderer_class(base).render(self, content) + mark
    return type(renderer_class(base))(name, (renderer_class(base),), names)


def classes():
    for base in BASES:
        for chosen in itertools.product(range(len(BODIES)), repeat=2):
            for element in ('div', 'em', 'a', '.k'):
                for how in (0, 1, 2):
                    yield [base, chosen, element, how]


serial = itertools.count()


def check_class(case):
    """Two classes of the same name, used one after the other, by two parsers, and with the dictionary of the first parser."""
    base, chosen, element, how = case
    from gopher_render import GopherHTMLParser
    if base == 'LinkRenderer' and element != 'a':
        return None

    def render(spec):
        p = GopherHTMLParser(width=40, link_placement='inline', renderers=spec)
        p.feed(CLASS_DOC)
        p.close()
        COUNT.runs += 1
        COUNT.events += 3
        return p.parsed
    want = [render({element: named('Alone{}'.format(next(serial)), base, b)}) for b in chosen]
    if how == 0:
        got = [render({element: named('Same', base, b)}) for b in chosen]
    elif how == 1:
        first, second = [named('Same', base, b) for b in chosen]
        got = [render({element: first}), render({element: second})]
        if got[0] != render({element: first}):
            got[0] = 'something else the second time'
    else:
        spec = {}
        got = []
        for b in chosen:
            spec[element] = named('Same', base, b)
            got.append(render(spec))
    if got != want:
        raise Violation('a parser is affected by others\n' + show(('document', CLASS_DOC), ('two classes of the same name', [BODIES[b] for b in chosen]), ('derived from', base), ('used for', element), ('expected', want), ('actual', got)))
    return got


# ------------------------------------------------------------------ threads

PACKAGE = REPO + '/gopher_render/'


def line_count(item):
    n = [0]

    def trace(frame, event, arg):
        if not frame.f_code.co_filename.startswith(PACKAGE):
            return None
        if event == 'line':
            n[0] += 1
        return trace

    sys.settrace(trace)
    try:
        Job(item).run()
    finally:
        sys.settrace(None)
    return n[0]


PAIRS = [((0, 0), (1, 0)), ((3, 1), (0, 1)), ((1, 2), (3, 2)), ((3, 3), (2, 0)), ((0, 4), (0, 0)), ((2, 0), (1, 0)), ((3, 2), (3, 2)), ((1, 3), (0, 3))]


def one_preemption(pairs):
    def gen():
        for a, b in pairs:
            for k in range(1, line_count(a) + 1):
                yield [a, b, k]
    return gen


def check_one_preemption(case):
    """The second thread runs to completion when the first is about to execute its k-th line."""
    a, b, k = case
    first, second = Job(a), Job(b)
    n = [0]

    def trace(frame, event, arg):
        if not frame.f_code.co_filename.startswith(PACKAGE):
            return None
        if event == 'line':
            n[0] += 1
            if n[0] == k:
                second.run()     # (not traced: tracing is off inside of a trace function)
        return trace

    sys.settrace(trace)
    try:
        first.run()
    finally:
        sys.settrace(None)
    COUNT.events += n[0]
    if n[0] < k:
        raise Violation('the schedule does not repeat: {} lines instead of at least {}'.format(n[0], k))
    first.judge('preempted at line {}'.format(k))
    second.judge('running when the other is at line {}'.format(k))
    return [k, first.p.parsed]


class Switch:
    """Two threads, of which exactly one runs: the first up to its k-th function call, the second up to its m-th, the rest of both."""

    def __init__(self, a, b, k, m, coarse):
        self.coarse = coarse
        self.jobs = [Job(a), Job(b)]
        self.at = [k, m]
        self.calls = [0, 0]
        self.go = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.errors = [None, None]

    def body(self, me):
        self.go[me].acquire()

        def trace(frame, event, arg):
            name = frame.f_code.co_filename
            if name.startswith(PACKAGE) and not (self.coarse and name.endswith(COARSE)):
                self.calls[me] += 1
                if self.calls[me] == self.at[me] and not self.done[1 - me]:
                    self.go[1 - me].release()
                    self.go[me].acquire()
            return None

        sys.settrace(trace)
        try:
            self.jobs[me].run()
        except Exception as e:
            self.errors[me] = e
        finally:
            sys.settrace(None)
            self.done[me] = True
            self.go[1 - me].release()

    def run(self):
        threads = [threading.Thread(target=self.body, args=(i,)) for i in (0, 1)]
        for t in threads:
            t.start()
        self.go[0].release()
        for t in threads:
            t.join(15)
            if t.is_alive():
                raise Violation('the threads do not finish')
        for e in self.errors:
            if e is not None:
                raise e


COARSE = ('_selectors.py', '_namedict.py')


def call_counts(a, coarse):
    s = Switch(a, a, -1, -1, coarse)
    s.run()
    return s.calls[0]


def two_preemptions(pairs, coarse, stride):
    def gen():
        for a, b in pairs:
            ca, cb = call_counts(a, coarse), call_counts(b, coarse)
            for k in range(1, ca + 1, stride):
                for m in range(1, cb + 1, stride):
                    yield [a, b, k, m, coarse]
    return gen


def check_two_preemptions(case):
    a, b, k, m, coarse = case
    s = Switch(tuple(a), tuple(b), k, m, coarse)
    s.run()
    COUNT.events += sum(s.calls)
    for j in s.jobs:
        j.judge('first up to call {}, second up to call {}'.format(k, m))
    return [k, m]


SMALL = [('<a href="/1">x</a>', 0), ('<ol><li>x</ol>', 3), ('<pre>a\nb', 1), ('<p>a b <b>c</b>', 3), ('<dd>q<img>', 2), ('<h2>h</h2>', 3)]


# ------------------------------------------------------- arguments and defaults

def snapshot():
    """Everything that parsers share: the settings of all renderer classes and the default arguments."""
    import gopher_render
    from gopher_render import rendering
    out = {}
    for name, c in sorted(vars(rendering).items()):
        if isinstance(c, type):
            if isinstance(getattr(c, 'settings', None), dict):
                out[name] = copy.deepcopy(dict(c.settings))
            out[name + '()'] = copy.deepcopy(c.__init__.__defaults__) if hasattr(c.__init__, '__defaults__') else None
    out['parser()'] = copy.deepcopy(gopher_render.GopherHTMLParser.__init__.__defaults__)
    return out


def arguments():
    for c in range(len(CFGS)):
        for d in range(len(DOCS)):
            for shared in itertools.product((False, True), repeat=2):
                for n in (1, 2, 3):
                    yield [c, d, shared, n]


def check_arguments(case):
    from gopher_render import GopherHTMLParser
    from gopher_render.rendering import Box
    c, d, (reset, close_first), n = case
    cfg = CFGS[c]
    before = snapshot()
    margin = [1, 2, 1, 3]
    padding = [0, 0, 0, 0]
    box = Box(width=40, margin=margin, padding=padding)
    renderers = {k: renderer_spec(v) for k, v in cfg.get('renderers', {}).items()}
    extracted = {k: renderer_spec(v) for k, v in cfg.get('extracted', {}).items()}
    kept = copy.deepcopy((margin, padding, {k: v for k, v in vars(box).items()}, renderers, extracted, list(renderers), list(extracted)))
    results = []
    parsers = []
    for i in range(n):
        p = GopherHTMLParser(box=box, renderers=renderers, extracted_link_renderers=extracted, output_format=cfg.get('fmt', 'text'),
                             link_placement=cfg.get('link', 'footer'), image_placement=cfg.get('img', 'inline'), gopher_host='h')
        parsers.append(p)
        if close_first:
            p.feed(DOCS[d])
            p.close()
            results.append(p.parsed)
        if reset:
            p.reset()
            p.feed(DOCS[d])
            p.close()
            results.append(p.parsed)
        COUNT.runs += 1
        COUNT.events += 3
    if not close_first and not reset:
        for p in parsers:
            p.feed(DOCS[d])
        for p in parsers:
            p.close()
            results.append(p.parsed)
    now = (margin, padding, {k: v for k, v in vars(box).items()}, renderers, extracted, list(renderers), list(extracted))
    if now != kept:
        raise Violation('an argument is modified\n' + show(('config', cfg), ('document', DOCS[d]), ('before', kept), ('after', now)))
    if len(set(results)) > 1:
        raise Violation('parsers with the same arguments differ\n' + show(('config', cfg), ('document', DOCS[d]), ('results', results)))
    after = snapshot()
    if after != before:
        raise Violation('defaults are modified\n' + show(('config', cfg), ('document', DOCS[d]), ('changed', {k: (before.get(k), after.get(k)) for k in after if before.get(k) != after[k]})))
    return results


def spaces(tier):
    t = tier == 'thorough'
    ALONE.clear()
    # Small documents for schedules with two preemptions
    del DOCS[5:]
    for doc, c in SMALL:
        DOCS.append(doc)
    small = [(c, 5 + i) for i, (_, c) in enumerate(SMALL)]
    ITEMS.extend(i for i in small if i not in ITEMS)
    ALONE.update(baselines())
    del ITEMS[len(CFGS) * 5:]
    OPTIONS[:] = options()
    OPTION_ALONE.update(baselines(range(len(OPTIONS)), _fresh_option))
    two = [(small[0], small[1]), (small[3], small[3]), (small[1], small[3])]
    return [
        Space('interleavings', interleavings(2, ITEMS if t else [(0, 0), (1, 0), (2, 0), (3, 1), (3, 2), (0, 2), (1, 3), (3, 3), (0, 4)]), check_interleaving, 'every interleaving of the calls to two parsers'),
        Space('interleavings3', interleavings(3, [(0, 0), (3, 3)] if t else [(3, 1)]), check_interleaving, 'every interleaving of the calls to three parsers'),
        Space('series', series(3), check_series, 'every series of three uses'),
        Space('options', option_pairs(3 if t else 2), check_options, 'every pair of {} configurations that differ in one option'.format(len(OPTIONS))),
        Space('classes', classes, check_class, 'every pair of {} classes with the same name'.format(len(BODIES))),
        Space('arguments', arguments, check_arguments, 'arguments and defaults before and after'),
        Space('one-preemption', one_preemption(PAIRS if t else PAIRS[1:3]), check_one_preemption, 'two threads, the first preempted once at any line'),
        Space('two-preemptions', two_preemptions(two if t else two[:2], not t, 2 if t else 1), check_two_preemptions, 'two threads, preempted twice, at any function call ' + ('(any second one)' if t else '(outside of _selectors.py and _namedict.py)')),
    ]


ASSUMPTIONS = ['A thread is only preempted between lines (one preemption) or at function calls (two preemptions) of gopher_render; '
               'what a line calls outside of it is taken as atomic.']
