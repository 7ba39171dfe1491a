"""C19 Justification aligns every line and changes nothing but spacing."""
import itertools
import textwrap

import ref
from core import COUNT, Space, Violation
from lib import *

KINDS = dict(p='ParagraphRenderer', li='ListItemRenderer', dd='DefinitionListItemRenderer')


def judge(lines, left, width, how, info):
    """Lines as justified, compared with the lines of left justification."""
    if len(lines) != len(left):
        raise Violation('{} lines rather than {}\n'.format(len(lines), len(left)) + info)
    for i, (line, plain) in enumerate(zip(lines, left)):
        indent = len(plain) - len(plain.lstrip(' '))
        words = plain.split()
        if line.split() != words:
            raise Violation('the words of line {} are not {}\n'.format(i, words) + info)
        if len(line) > max(width, len(plain)):
            raise Violation('line {} is too wide\n'.format(i) + info)
        if how == 'left':
            ok = line == plain
        elif how == 'right':
            ok = line == ' ' * (width - len(plain)) + plain
        elif how == 'center':
            before = len(line) - len(line.lstrip(' ')) - indent
            # (what remains on the right need not be filled with spaces)
            after = width - before - len(plain)
            ok = line.strip(' ') == plain.strip(' ') and (abs(before - after) <= 1 or len(plain) >= width and before == 0)
        elif i == len(left) - 1 or len(words) == 1:
            ok = line == plain
        else:
            # gaps between the words of the line
            gaps = re.findall(' +', line.strip(' '))
            sizes = [len(g) for g in gaps]
            ok = (len(line) == width and len(line) - len(line.lstrip(' ')) == indent and sorted(sizes, reverse=True) == sizes and sizes[0] - sizes[-1] <= 1)
            if len(set(map(len, re.findall(' +', plain.strip(' '))))) > 1:
                # a sentence ended on this line, where there are two spaces already
                ok = len(line) == width and len(line) - len(line.lstrip(' ')) == indent
        if not ok:
            raise Violation('line {} is not {} justified: {!r} (left justified: {!r})\n'.format(i, how, line, plain) + info)


def direct(maxwords, maxlen, widths, indents):
    def gen():
        for n in range(0, maxwords + 1):
            for lengths in itertools.product(range(1, maxlen + 1), repeat=n):
                for w in widths:
                    for a, b in indents:
                        yield [w, a, b, lengths]
    return gen


def check_direct(case):
    w, a, b, lengths = case
    from gopher_render import rendering
    text = ' '.join(words(lengths))
    indents = dict(initial_indent=' ' * a, subsequent_indent=' ' * b)
    if w <= max(a, b):
        return None
    left = textwrap.wrap(text, w, **indents)
    seen = []
    for how in ('left', 'right', 'center', 'full'):
        f = getattr(rendering, how + '_justify')
        out = f(text, w, **indents)
        COUNT.runs += 1
        COUNT.events += len(lengths)
        info = show(('function', how + '_justify'), ('text', text), ('width', w), ('indents', (a, b)), ('lines', out.split('\n')))
        if not isinstance(out, str):
            raise Violation('not a string\n' + info)
        judge(out.split('\n') if out or left else [], left, w, how, info)
        seen.append(out)
    return seen


def documents(maxwords, maxlen, widths, contexts):
    def gen():
        for n in range(1, maxwords + 1):
            for lengths in itertools.product(range(1, maxlen + 1, 2), repeat=n):
                for w in widths:
                    for tag in KINDS:
                        for context in contexts:
                            yield [w, tag, context, lengths]
    return gen


CONTEXTS = [None, 'blockquote', 'div', 'ol', 'boxed']


def check_document(case):
    w, tag, context, lengths = case
    text = ' '.join(words(lengths))
    return document(w, tag, context, text, {}, True)


def document(w, tag, context, text, more, judged):
    outs = {}
    for how in ('left', 'right', 'center', 'full'):
        nodes = [[tag, {}, [text]]]
        if context:
            nodes = [[context, {}, [['li', {}, nodes]] if context == 'ol' and tag != 'li' else nodes]]
        s = dict(justification=how, line_template={'p': '{}', 'li': '* {}', 'dd': ': {}'}[tag])
        s.update(more)
        if context == 'ol':
            s.pop('line_template')
        renderers = {tag: [KINDS[tag], s], 'boxed': ['BlockRenderer', dict(margin=[0, 1, 0, 2], padding=[0, 1, 0, 1], border=['', '|', '', '|'])]}
        cfg = dict(width=w, optimise=False, renderers=renderers)
        source = to_html(nodes)
        out = render_html(source, cfg)
        expect_equal(out, ref.render(nodes, cfg), source, cfg)
        outs[how] = out
        if context is None and judged:
            room = w - (0 if tag == 'p' else 2)
            body = out.strip('\n').split('\n')
            lines = [l if tag == 'p' else l[2:] for l in body]
            left = textwrap.wrap(text, max(room, 1), initial_indent=' ' * more.get('initial_indent', 0), subsequent_indent=' ' * more.get('subsequent_indent', 0),
                                 fix_sentence_endings=True)
            # (textwrap can leave a space at the end of a line before a long word)
            if room < 1 or any(l != l.rstrip() for l in left):
                continue
            judge([l.rstrip(' ') for l in lines], left, room, how, show(('source', source), ('config', cfg), ('output', out)))
    return outs


def options():
    texts = ['aa bbb c dddd. Eeeee f.  Gg hh. i j-k lll-mm nnnnnnnnnnnn o p. q-r', 'x ' * 12 + 'yyyyyyyyyyyyyyyyyyyyyyyyyyyyyy z.', 'one', 'It is. So it is! Is it? "Yes." No']
    for text in texts:
        for tag in KINDS:
            for context in CONTEXTS:
                for w in list(range(1, 31)) + [40, 67]:
                    for a, b in ((0, 0), (2, 0), (0, 3), (1, 1)):
                        yield [w, tag, context, text, a, b]


def check_options(case):
    w, tag, context, text, a, b = case
    return document(w, tag, context, text, dict(initial_indent=a, subsequent_indent=b), False)


def breaks():
    for seq in itertools.product(['a', 'bbb', 'br', 'eeeee fff', 'long'], repeat=4):
        for tag in KINDS:
            for how in ('left', 'right', 'center', 'full', 'none'):
                for w in (6, 11, 40):
                    yield [w, tag, how, seq]


def check_breaks(case):
    w, tag, how, seq = case
    kids = []
    for s in seq:
        kids.append(['br', {}, []] if s == 'br' else ['b', {}, ['g hh iii jjjj']] if s == 'long' else s + ' ')
    cfg = dict(width=w, optimise=False, renderers={tag: [KINDS[tag], dict(justification=how)]})
    return ref_check([cfg, [[tag, {}, kids]]])


def strings(alphabet, n):
    def gen():
        for k in range(0, n + 1):
            for chars in itertools.product(alphabet, repeat=k):
                for w in (3, 4, 6):
                    yield [w, ''.join(chars)]
    return gen


def check_strings(case):
    w, text = case
    from gopher_render import rendering
    for options in ({}, dict(fix_sentence_endings=True), dict(break_long_words=False), dict(break_on_hyphens=False)):
        left = textwrap.wrap(text, w, **options)
        for how in ('left', 'right', 'center', 'full'):
            out = getattr(rendering, how + '_justify')(text, w, **options)
            COUNT.runs += 1
            COUNT.events += 1
            judge(out.split('\n') if out or left else [], left, w, how,
                  show(('function', how + '_justify'), ('text', text), ('width', w), ('options', options), ('lines', out.split('\n'))))
    return None


NEUTRAL_DOCS = [
    '<p>One two three. Four five-six <b>seven</b> eight nine</p>',
    '<p>ab cd <x-y>ef gh</x-y> ijk l mn</p><section><p>op qr stu v</p></section>',
]
NEUTRAL_CFGS = [dict(width=16, optimise=False, renderers={'p': ['ParagraphRenderer', dict(justification=j)]}) for j in ('left', 'right', 'center', 'full')]


def spaces(tier):
    t = tier == 'thorough'
    return [
        Space('direct', direct(8 if t else 6, 4, range(1, 16), [(0, 0)]), check_direct, 'all word lengths x widths'),
        Space('indents', direct(6 if t else 5, 4, range(2, 14), [(0, 1), (1, 0), (2, 2), (0, 3), (3, 1)]), check_direct, 'the same with indents'),
        Space('documents', documents(5 if t else 4, 6, range(1, 20) if t else (3, 5, 8, 11, 14), CONTEXTS if t else CONTEXTS[:4:2] + ['boxed']), check_document, 'through paragraphs, items and definitions'),
        Space('options', options, check_options, 'sentences, hyphens, long words and indents'),
        Space('breaks', breaks, check_breaks, 'justified text with line breaks'),
        Space('strings', strings('ab .-A', 8 if t else 6), check_strings, 'all short strings'),
        attribute_space(NEUTRAL_DOCS, NEUTRAL_CFGS),
        element_space(NEUTRAL_DOCS, NEUTRAL_CFGS),
        words_space(NEUTRAL_DOCS, NEUTRAL_CFGS, t),
        scaling_space(NEUTRAL_DOCS, NEUTRAL_CFGS, t),
    ]


ASSUMPTIONS = ["The standard library's textwrap is trusted for where lines are broken."]
