"""C22 ANSI styles are turned on before and off after exactly their content."""
import itertools

from core import COUNT, Space, Violation
from lib import *

# Standard (ECMA-48 and common terminal) codes
ON = dict(bold='1', faint='2', italic='3', underline='4', slow_blink='5', rapid_blink='6', invert='7', conceal='8', crossed_out='9', fraktur='20', framed='51',
          encircled='52', overlined='53')
OFF = dict(bold='22', faint='22', italic='23', underline='24', slow_blink='25', rapid_blink='25', invert='27', conceal='28', crossed_out='29', fraktur='23',
           framed='54', encircled='54', overlined='55')
EFFECTS = list(ON)
NAMES = ['black', 'red', 'green', 'yellow', 'blue', 'magenta', 'cyan', 'white']
SGR = re.compile('\x1b\\[([0-9;]*)m')


def colour_code(c, background):
    offset = 10 if background else 0
    if isinstance(c, str) and c in NAMES:
        return str(30 + offset + NAMES.index(c))
    if isinstance(c, str) and c.startswith('bright_'):
        return str(90 + offset + NAMES.index(c[7:]))
    lead = '48' if background else '38'
    if isinstance(c, int):
        return '{};5;{}'.format(lead, c)
    if isinstance(c, str):
        h = c[1:]
        if len(h) == 3:
            h = ''.join(x + x for x in h)
        c = tuple(int(h[i:i + 2], 16) for i in (0, 2, 4))
    return '{};2;{};{};{}'.format(lead, *c)


def codes(style):
    """The codes that turn a style on, and those that turn it off."""
    on = [ON[e] for e in EFFECTS if style.get(e)]
    off = [OFF[e] for e in EFFECTS if style.get(e)]
    if style.get('font') is not None:
        on.append(str(10 + style['font']))
        off.append('10')
    for key, default in (('foreground_colour', '39'), ('background_colour', '49')):
        if style.get(key) is not None:
            on.append(colour_code(style[key], key[0] == 'b'))
            off.append(default)
    return on, off


def parameters(sequences):
    """Split into single attributes, so that joined and separate codes are the same."""
    out = []
    for s in sequences:
        p = s.split(';')
        i = 0
        while i < len(p):
            n = {('38', '5'): 3, ('48', '5'): 3, ('38', '2'): 5, ('48', '2'): 5}.get((p[i], p[i + 1] if i + 1 < len(p) else ''), 1)
            out.append(';'.join(p[i:i + n]))
            i += n
    return sorted(out)


def check_style(style, content='text', form=0):
    style = {k: tuple(v) if isinstance(v, list) else v for k, v in style.items()}
    from gopher_render import GopherHTMLParser
    from gopher_render.rendering import AnsiEscapeCodeRenderer
    if form == 0:
        value = (AnsiEscapeCodeRenderer, style)
    else:
        value = type(AnsiEscapeCodeRenderer)('Sub', (AnsiEscapeCodeRenderer,), dict(settings=style))
    p = GopherHTMLParser(renderers={'x': value})
    source = 'before <x>{}</x> after'.format(content)
    p.feed(source)
    p.close()
    out = p.parsed
    COUNT.runs += 1
    COUNT.events += 4
    info = show(('style', style), ('source', source), ('output', out))
    on, off = codes(style)
    if style.get('normalise'):
        off = ['0']
    m = re.fullmatch('before ((?:\x1b\\[[0-9;]*m)*){}((?:\x1b\\[[0-9;]*m)*) after'.format(re.escape(content)), out)
    if not m:
        raise Violation('not the text between escape codes\n' + info)
    got_on, got_off = (parameters(SGR.findall(g)) for g in m.groups())
    if style.get('normalise') and not on:
        # (a reset without anything to reset is left open)
        if got_on or got_off not in ([], ['0']):
            raise Violation('codes for a style of nothing\n' + info)
        return out
    if got_on != sorted(on):
        raise Violation('the style is turned on by {} rather than {}\n'.format(got_on, sorted(on)) + info)
    if sorted(set(got_off)) != sorted(set(off)):
        raise Violation('the style is turned off by {} rather than {}\n'.format(got_off, sorted(off)) + info)
    if not off and got_off:
        raise Violation('something is turned off\n' + info)
    return out


def effects():
    for n in range(2 ** len(EFFECTS)):
        for more in range(4):
            yield [n, more]


def check_effects(case):
    n, more = case
    style = {e: True for i, e in enumerate(EFFECTS) if n >> i & 1}
    style.update([{}, dict(normalise=True), dict(foreground_colour='red', background_colour=(1, 2, 3)), dict(font=3, foreground_colour='#abc', normalise=True)][more])
    return check_style(style, form=n % 2)


def false_effects():
    """Settings that are there but off."""
    for n in range(2 ** len(EFFECTS)):
        yield n


def check_false(n):
    return check_style({e: bool(n >> i & 1) for i, e in enumerate(EFFECTS)})


COLOURS = NAMES + ['bright_' + n for n in NAMES]


def colours():
    singles = COLOURS + list(range(256)) + ['#{0}{0}{0}'.format(h) for h in '0123456789abcdefABCDEF'] + [[v, 0, 255 - v] for v in range(256)] + \
        ['#{:02x}{:02X}00'.format(v, 255 - v) for v in range(256)] + [[0, v, 7] for v in range(256)] + [[9, 8, v] for v in range(256)] + ['#0102{:02x}'.format(v) for v in range(256)]
    for c in singles:
        for key in ('foreground_colour', 'background_colour'):
            for normalise in (False, True):
                yield [{key: c, 'normalise': normalise}]


def pairs():
    some = COLOURS + [0, 1, 7, 15, 16, 128, 255, [0, 0, 0], [255, 255, 255], [1, 20, 133], '#000', '#fff', '#1aF', '#000000', '#12Ab9f', None]
    for f, b in itertools.product(some, repeat=2):
        for font in (None, 0, 1, 9):
            for more in ({}, dict(bold=True), dict(bold=True, faint=True), dict(normalise=True)):
                yield [dict(more, foreground_colour=f, background_colour=b, font=font)]


def html3():
    for chars in itertools.product('0123456789abcdef', repeat=3):
        yield [{'foreground_colour': '#' + ''.join(chars)}]
        yield [{'background_colour': '#' + ''.join(chars).upper()}]


def check_case(case):
    return check_style(case[0])


def contents():
    """Styled content of all kinds: nested styles, other elements, blocks around."""
    styles = [dict(bold=True), dict(foreground_colour='red'), dict(bold=True, normalise=True), {}, dict(font=0, underline=True)]
    for a, b in itertools.product(range(len(styles)), repeat=2):
        for shape in range(7):
            for context in ('p', 'li', 'section', 'h2', 'blockquote', 'dd', 'pre'):
                for template in ('{}', '<{}>'):
                    for cap in (False, True):
                        yield [styles[a], styles[b], shape, context, template, cap]


def check_contents(case):
    a, b, shape, context, template, cap = case
    x = dict(a, template=template, capitalized=cap)
    inner = ['one <x>two <y>three</y> four</x> five', '<x><x>a</x>b</x>', '<x></x>', '<x>a</x><y>b</y>', '<x>a<b>c</b><y><x>d</x></y></x>', '<x><y>a</y></x> <y><x>b</x></y>', '<y>a<x>b</x></y>c'][shape]
    source = '<{0}>{1}</{0}>'.format(context, inner)
    cfg = dict(optimise=False, renderers={'x': ['AnsiEscapeCodeRenderer', x], 'y': ['AnsiEscapeCodeRenderer', b]})
    out = render_html(source, cfg)
    # The codes between each letter and the next are those of the tags between them
    want = [[]]
    for token in re.findall('</?[a-z]>|[a-z]', inner):
        if token in ('<x>', '<y>', '</x>', '</y>'):
            style = a if 'x' in token else b
            on, off = codes(style)
            if style.get('normalise'):
                off = ['0']
            want[-1] += off if '/' in token else on
        elif len(token) == 1:
            want.append([])
    got = [[]]
    for m in re.finditer('\x1b\\[([0-9;]*)m|[a-z]', out, re.I):
        if m.group(1) is not None:
            got[-1].append(m.group(1))
        else:
            got.append([])
    if [parameters(g) for g in got] != [parameters(w) for w in want]:
        raise Violation('not the right codes between the letters\n' + show(('source', source), ('config', cfg), ('expected', want), ('actual', got), ('output', out)))
    plain = render_html(re.sub('</?[xy]>', '', source), dict(optimise=False)) if template == '{}' and not cap and shape != 2 else None
    if plain is not None and strip_escapes(out) != plain:
        raise Violation('styling changes the text\n' + show(('source', source), ('config', cfg), ('expected', plain), ('output', out)))
    return out


NEUTRAL_DOCS = [
    '<p>a <b>b</b> <em>c</em> <x-y>d <b>e</b></x-y></p>',
]
NEUTRAL_CFGS = [dict(width=40, renderers={'b': ['AnsiEscapeCodeRenderer', dict(bold=True, foreground_colour='red')], 'em': ['AnsiEscapeCodeRenderer', dict(underline=True, background_colour='#123', normalise=True)]})]


def spaces(tier):
    t = tier == 'thorough'
    return [
        Space('effects', effects, check_effects, 'all subsets of the 13 effects, with and without colours, font and reset'),
        Space('false', false_effects, check_false, 'all assignments of true and false to the effects'),
        Space('colours', colours, check_case, 'all names, palette numbers and component values'),
        Space('pairs', pairs, check_case, 'pairs of colours with fonts and effects'),
        Space('html3', html3, check_case, 'all three digit HTML colours'),
        Space('contents', contents, check_contents, 'nested styles and contexts'),
        attribute_space(NEUTRAL_DOCS, NEUTRAL_CFGS),
        element_space(NEUTRAL_DOCS, NEUTRAL_CFGS),
        words_space(NEUTRAL_DOCS, NEUTRAL_CFGS, t, reference=False),
    ]


ASSUMPTIONS = ['Whether effects are turned on by one escape code or several is left open, and so is their order; the codes themselves are the standard ones.']
