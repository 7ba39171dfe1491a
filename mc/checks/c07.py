"""C07 A parser can be reset and reused, and closed twice."""
import itertools
import sys

from core import COUNT, REPO, Space, Violation
from lib import *

# Documents and fragments, complete and not
FEEDS = [
    '<p>one <a href="/1" title="t">link</a> <img src="/i.png" alt="pic"></p>',
    '<pre>  a\n   b',
    '<ol><li>x<li>y <b>z',
    '  tail  text\n ',
    '<p>half <a hre',
    '<script>x < y ',
    '<blockquote><a href="/2">q',
    'a &am',
    '</p></pre></ol>',
    '<h2>t</h2><div class="k">d</div><!-- open',
    'x <a href="/3">root</a> <img src="/r.png" alt="r"> <h2><a href="/4">y</a></h2>',
]
CFGS = [
    dict(),
    dict(link='after_block', img='footer', width=15, margin=[1, 1, 2, 2], optimise=False),
    dict(fmt='gophermap', host='h', img='after_block'),
    dict(link='inline', img='after_block', renderers={'.k': ['InlineRenderer', dict(template='<<{}>>')]}),
]

# Operations: 0.. feed, 'c' close, 'r' reset
def sequences(length, feeds, cfgs):
    def gen():
        def extend(seq, closed):
            if len(seq) == length:
                yield seq
                return
            for op in ([] if closed else list(range(feeds))) + ['c', 'r']:
                yield from extend(seq + [op], op == 'c')
        for c in range(cfgs):
            for seq in extend([], False):
                # What happens after the last close is not observed
                if 'c' in seq and seq[-1] == 'c':
                    yield [c, seq]
    return gen


FRESH = {}


def fresh(c, text):
    key = (c, text)
    if key not in FRESH:
        if len(FRESH) > 20000:
            FRESH.clear()
        FRESH[key] = render_html(text, CFGS[c])
    return FRESH[key]


def check(case):
    c, seq = case
    p = make_parser(CFGS[c])
    text, closed = '', False
    seen = []
    for i, op in enumerate(seq):
        if op == 'c':
            p.close()
            closed = True
        elif op == 'r':
            p.reset()
            text, closed = '', False
        else:
            p.feed(FEEDS[op])
            text += FEEDS[op]
        COUNT.events += 1
        want = fresh(c, text) if closed else ''
        if p.parsed != want:
            raise Violation('after step {}\n'.format(i + 1) + show(
                ('operations', [o if isinstance(o, str) else FEEDS[o] for o in seq]), ('config', CFGS[c]), ('expected', want), ('actual', p.parsed)))
        seen.append(p.parsed)
    COUNT.runs += 1
    return seen


def reuse(n):
    """One parser for a series of documents, each compared with a fresh parser."""
    def gen():
        for c in range(len(CFGS)):
            for docs in itertools.product(range(len(FEEDS)), repeat=n):
                yield [c, [op for d in docs for op in (d, 'c', 'r')] + ['c']]
    return gen


def many():
    for c in range(len(CFGS)):
        for d in range(len(FEEDS)):
            for e in range(len(FEEDS)):
                yield [c, [d, 'c', 'r', e, 'r'] * 30 + [d, e, 'c', 'c', 'c']]


AFTERWARDS = '<ol><li>a <a href="/q">b</a><li>c</ol><p>d  e <img src="/w" alt="f"></p>g <a href="/z">h</a> i<pre>j  k</pre><blockquote><p>l</blockquote>'


def trees(size):
    """Every small document, closed or not, and then another one."""
    def gen():
        for f in forests_upto(size, ['p', 'ol', 'li', 'a', 'img', 'pre', 'b', 'blockquote', 'dd', 'h2', 'div', 'x', 'br', 'code'], ['t']):
            for c in range(len(CFGS)):
                yield [f, c]
    return gen


def check_tree(case):
    f, c = case
    source = to_html(number_texts(f, LINKS, lambda i, leaf: ' w{} v\n'.format(i)))
    ways = {'closed': [source, 'c'], 'closed twice': [source, 'c', 'c'], 'not closed': [source], 'elements left open': [re.sub('</[^>]*>', '', source), 'c'], 'and not closed': [re.sub('</[^>]*>', '', source)],
            'in a tag': [source + '<a href="/', 'c'], 'twice': [source, 'c', 'r', source, 'c']}
    for how, ops in ways.items():
        p = make_parser(CFGS[c])
        for op in ops:
            {'c': p.close, 'r': p.reset}.get(op, lambda: p.feed(op))()
        p.reset()
        p.feed(AFTERWARDS)
        p.close()
        COUNT.runs += 1
        COUNT.events += len(ops) + 3
        if p.parsed != fresh(c, AFTERWARDS):
            raise Violation('after another document ({}) and a reset\n'.format(how) + show(('that document', ops), ('this document', AFTERWARDS), ('config', CFGS[c]), ('expected', fresh(c, AFTERWARDS)), ('actual', p.parsed)))
    return source


# --------------------------------------------------- operations that fail

PACKAGE = REPO + '/gopher_render/'
PARTS = 8
FAULT_DOCS = [
    '<p>one <a href="/1" title="t">link</a> <img src="/i.png" alt="pic"> and some more</p>',
    '<blockquote><p>a b</p><pre>c\n  d</pre></blockquote><h2>head</h2>tail  text\n ',
    '<ol><li>x <b>y</b></li><li class="k"><p>z</p><ul><li>q</ul></ol>',
    '<dl><dt>t</dt><dd>u <a href="/2">v</a></dd></dl><pre>open <code>b',
]
AFTER = '<p>x <a href="/x">y</a> <i>z</i></p><img src="/y.png" alt="w">'


def faults():
    for c in range(len(CFGS)):
        for d in range(len(FAULT_DOCS)):
            for part in range(PARTS):
                yield [c, d, part]


def traced(p, doc, at=None):
    """Feed a document; with `at`, interrupt it at that line. All lines executed."""
    lines = []
    def trace(frame, event, arg):
        if not frame.f_code.co_filename.startswith(PACKAGE):
            return None
        if event == 'line':
            if len(lines) == at:
                raise KeyboardInterrupt()
            lines.append((frame.f_code.co_filename, frame.f_lineno))
        return trace
    sys.settrace(trace)
    try:
        p.feed(doc)
        p.close()
    except KeyboardInterrupt:
        if at is None:
            raise
    finally:
        sys.settrace(None)
    return lines


def expect(what, p, want, case, at):
    COUNT.runs += 1
    if p.parsed != want:
        raise Violation(what + '\n' + show(('document', FAULT_DOCS[case[1]]), ('config', CFGS[case[0]]), ('where', at), ('expected', want), ('actual', p.parsed)))


def check_faults(occurrences):
    """Interrupted at the first so many executions of every line of the package."""
    def check(case):
        c, d, part = case
        doc = FAULT_DOCS[d]
        usual, after = fresh(c, doc), fresh(c, AFTER)
        seen = {}
        points = []
        for k, line in enumerate(traced(make_parser(CFGS[c]), doc)):
            seen[line] = seen.get(line, 0) + 1
            if seen[line] <= occurrences:
                points.append((k, line))
        for k, line in points[part::PARTS]:
            where = 'interrupted at {}:{}, {}'.format(*line, k)
            other = make_parser(CFGS[c])
            other.feed(doc[:len(doc) // 2])
            p = make_parser(CFGS[c])
            traced(p, doc, k)
            COUNT.events += 1
            other.feed(doc[len(doc) // 2:])
            other.close()
            expect('another parser is affected by the interruption', other, usual, case, where)
            p.reset()
            if p.parsed != '':
                expect('the result is there after reset()', p, '', case, where)
            p.feed(AFTER)
            p.close()
            expect('after an interruption and reset(), the parser is not as new', p, after, case, where)
            p = make_parser(CFGS[c])
            p.feed(doc)
            p.close()
            expect('a new parser is affected by the interruption', p, usual, case, where)
        return len(points)
    return check


class Failure(Exception):
    pass


FAIL = [None, 0]    # the call that fails; the calls so far


def call(phase):
    FAIL[1] += 1
    if FAIL[1] == FAIL[0]:
        raise Failure(phase)


def failing(name):
    """The class of that name, whose methods fail when it is their turn."""
    base = renderer_class(name)

    class Failing(base):
        def __init__(self, *args, **kw):
            call('before the start')
            super().__init__(*args, **kw)
            call('after the start')

        def render(self, *args, **kw):
            call('before rendering')
            result = super().render(*args, **kw)
            call('after rendering')
            return result
    return Failing


def failing_config(c):
    key = 'failing-' + str(c)
    if key not in CUSTOM:
        CUSTOM[key] = True
        for name in ('ParagraphRenderer', 'LinkRenderer', 'ImageRenderer', 'BlockQuoteRenderer', 'PreRenderer', 'MarkdownHeaderRenderer', 'ListRenderer',
                     'ListItemRenderer', 'OrderedListItemRenderer', 'StrongRenderer', 'DefinitionListRenderer', 'DefinitionListTermHeaderRenderer',
                     'DefinitionListItemRenderer', 'CodeRenderer', 'ExtractedLinkRenderer', 'ExtractedImageLinkRenderer'):
            CUSTOM['Failing' + name] = failing(name)
    f = 'Failing{}'.format
    return dict(CFGS[c], renderers={
        'p': f('ParagraphRenderer'), 'a': f('LinkRenderer'), 'img': f('ImageRenderer'), 'blockquote': f('BlockQuoteRenderer'), 'pre': f('PreRenderer'),
        'h2': f('MarkdownHeaderRenderer'), 'ol': f('ListRenderer'), 'ul': f('ListRenderer'), 'li': f('ListItemRenderer'), 'ol > li': f('OrderedListItemRenderer'),
        'b': f('StrongRenderer'), 'dl': f('DefinitionListRenderer'), 'dt': f('DefinitionListTermHeaderRenderer'), 'dd': f('DefinitionListItemRenderer'),
        'code': f('CodeRenderer')}, extracted={'a': f('ExtractedLinkRenderer'), 'img': f('ExtractedImageLinkRenderer')})


def failures(both):
    def gen():
        for c in range(len(CFGS)):
            for d in range(len(FAULT_DOCS)):
                for part in range(PARTS):
                    yield [c, d, part, both]
    return gen


def attempt(p, fail):
    """Close, with a renderer failing at that call. Did it?"""
    FAIL[:] = [fail, 0]
    try:
        p.close()
        return False
    except Failure:
        return True
    finally:
        FAIL[0] = None


def check_failures(case):
    """
    A renderer fails at a call, then (perhaps) at another one of the second
    attempt; then nothing fails any more.
    """
    c, d, part, both = case
    doc = FAULT_DOCS[d]
    cfg = failing_config(c)
    p = make_parser(cfg)
    p.feed(doc)
    attempt(p, 0)
    usual, total = p.parsed, FAIL[1]
    p = make_parser(cfg)
    p.feed(AFTER)
    attempt(p, 0)
    after = p.parsed
    if not total:
        raise Violation('the renderers are not called\n' + show(('document', doc), ('config', cfg)))
    for k in range(1 + part, total + 1, PARTS):
        for l in [0] + (list(range(1, total + 1)) if both else [k]):
            where = 'calls {} and {} of the renderers fail'.format(k, l)
            p = make_parser(cfg)
            p.feed(doc)
            if not attempt(p, k):
                raise Violation('the failure of a renderer is not reported\n' + show(('document', doc), ('config', cfg), ('where', where)))
            COUNT.events += 1
            if l and not attempt(p, l):
                raise Violation('the failure of a renderer is not reported\n' + show(('document', doc), ('config', cfg), ('where', where)))
            attempt(p, 0)
            expect('close() repeated after the failure of a renderer', p, usual, case, where)
            p.reset()
            p.feed(AFTER)
            p.close()
            expect('after the failure of a renderer and reset()', p, after, case, where)
    return total


def spaces(tier):
    t = tier == 'thorough'
    return [
        Space('sequences', sequences(8 if t else 7, 4, 2), check, 'every sequence of {} operations with 4 documents'.format(8 if t else 7)),
        Space('documents', sequences(5 if t else 4, len(FEEDS), len(CFGS)), check, 'every sequence of {} operations with {} documents, {} configurations'.format(5 if t else 4, len(FEEDS), len(CFGS))),
        Space('reuse', reuse(4 if t else 3), check, 'every series of documents on one parser'),
        Space('many', many, check, 'long series'),
        Space('trees', trees(3 if t else 2), check_tree, 'every document tree of up to {} nodes, ended in seven ways, and another document after a reset'.format(3 if t else 2)),
        Space('faults', faults, check_faults(10 ** 9 if t else 2), 'interrupted at {} of every line of the package, then reset, other parsers, new ones'.format('every execution' if t else 'the first two executions'), seconds=300),
        Space('failures', failures(True), check_failures, 'a renderer fails at every call{}, then closed again, and reset'.format(', and at every call of the second attempt'), seconds=120),
    ]


ASSUMPTIONS = ['Nothing is fed after close() without a reset().']
