"""C30 Renderers of one's own see and decide everything about their elements."""
import itertools
import re

import ref
from core import COUNT, Space, Violation
from lib import *
import lib

# ---------------------------------------------------------- renderers of our own
# For each the class, as a user would write it, and what it has to come to.


def define():
    from gopher_render.rendering import (Renderer, NonRenderer, InlineRenderer, BlockRenderer, Box, EmRenderer, ListItemRenderer,
                                         ParagraphRenderer)

    class Brackets(Renderer):
        def render(self, content):
            return '(' + content + ')'

    class Literal(Renderer):
        def render(self, content):
            return LITERAL

    class Nothing(Renderer):
        def render(self, content):
            return ''

    class Lines(Renderer):
        def render(self, content):
            return '\n.\n' + content + '\n.\n'

    class Narrow(Renderer):
        def __init__(self, tag, **kwargs):
            super().__init__(tag, **kwargs)
            self.box = Box(margin=[0, 3, 0, 20], parent=kwargs['parent_box'])

    class Info(Renderer):
        def render(self, content):
            return info(self.tag.tag, self.tag.id, self.tag.classes, self.tag.attrs.get('k'), 'k' in self.tag.attrs,
                        getattr(self.tag.parent, 'tag', None)) + content

    class Marked(InlineRenderer):
        settings = dict(template='~{}~', mark='!')

        def render(self, content):
            return self.settings.mark + super().render(content) + self.settings['mark']

    class Framed(BlockRenderer):
        settings = dict(border=['-', '|', '=', '|'], margin=[1, 2, 0, 1], padding=[0, 1, 1, 0])

    class Signed(BlockRenderer):
        settings = dict(sign='--')

        def render(self, content):
            return super().render(content + '\n' + self.settings.sign)

    class Louder(EmRenderer):
        settings = dict(capitalized=True)

    class Dashed(ListItemRenderer):
        settings = dict(line_template='-- {}')

    class Spaced(ParagraphRenderer):
        settings = dict(initial_indent=4)

        def render(self, content):
            return super().render(content.replace('w', 'w '))

    class Entry(BlockRenderer):
        def render(self, content):
            c = self.context
            return entry(c['link_reference'], c['href'], c['title'], content)

    class Hidden(NonRenderer):
        pass

    for c in (Brackets, Literal, Nothing, Lines, Narrow, Info, Marked, Framed, Signed, Louder, Dashed, Spaced, Entry, Hidden):
        lib.CUSTOM[c.__name__] = c


LITERAL = 'a {} {0} %s \\1 &amp; <b>\t  c'


def info(tag, id_, classes, k, has_k, parent):
    return '{}#{}.{}[{}]<{}:'.format(tag, id_, '.'.join(classes), k if has_k else None, parent)


def entry(number, href, title, content):
    return '{}|{}|{}|{}\n'.format(number, href, title, ' '.join(content.split()))


def add(kind, settings, function, plain=False, inline=False):
    ref.KINDS[kind] = settings
    ref.ELEMENTS[kind] = function
    if plain:
        ref.PLAIN_KINDS.add(kind)
    if inline:
        ref.INLINE_KINDS.add(kind)


def parent_tag(node):
    return None if node.parent.tag == '#document' else node.parent.tag


add('Brackets', {}, lambda n, c, s, b, cfg: '(' + c + ')', plain=True)
add('Literal', {}, lambda n, c, s, b, cfg: LITERAL, plain=True)
add('Nothing', {}, ref.nothing, plain=True)
add('Hidden', {}, ref.nothing, plain=True)
add('Lines', {}, lambda n, c, s, b, cfg: '\n.\n' + c + '\n.\n', plain=True)
add('Narrow', {}, ref.plain, plain=True)
add('Info', {}, lambda n, c, s, b, cfg: info(n.tag, n.attrs.get('id'), (n.attrs.get('class') or '').split(), n.attrs.get('k'), 'k' in n.attrs,
                                             parent_tag(n)) + c, plain=True)
add('Marked', dict(template='~{}~', capitalized=False, mark='!'), lambda n, c, s, b, cfg: s['mark'] + ref.inline(n, c, s, b, cfg) + s['mark'], inline=True)
add('Framed', dict(ref.BLOCK, border=['-', '|', '=', '|'], margin=[1, 2, 0, 1], padding=[0, 1, 1, 0]), ref.block)
add('Signed', dict(ref.BLOCK, sign='--'), lambda n, c, s, b, cfg: ref.block(n, c + '\n' + s['sign'], s, b, cfg))
add('Louder', dict(template='_{}_', capitalized=True), ref.inline, inline=True)
add('Dashed', dict(ref.KINDS['ListItemRenderer'], line_template='-- {}'), ref.item)
add('Spaced', dict(ref.KINDS['ParagraphRenderer'], initial_indent=4), lambda n, c, s, b, cfg: ref.paragraph(n, c.replace('w', 'w '), s, b, cfg))


def narrow(outer):
    return ref.Box(outer.room - 23)


ref.BOXES['Narrow'] = narrow
ref.ENTRIES['Entry'] = lambda node, content, cfg: entry(node.number, node.href, node.title, content)
ref.ENTRIES['Hidden'] = lambda node, content, cfg: ''

# -------------------------------------------------------------------- documents

SPEC = {
    'a': ('a', {'href': '/1.txt', 'class': 'm  n', 'id': 'i', 'k': ''}), 'img': ('img', {'src': '/2', 'alt': 'pic', 'k': 'V w'}),
    'x': ('x', {'id': '', 'class': ''}), 'p': ('p', {'class': 'm', 'k': '{}&"'}), 'li': ('li', {'id': 'j', 'k': None}),
}
LABELS = ['p', 'div', 'ul', 'ol', 'li', 'b', 'x', 'a', 'img', 'br', 'pre', 'blockquote', 'h2', 'section']
KINDS = ['Brackets', 'Literal', 'Nothing', 'Lines', 'Narrow', 'Info', 'Marked', 'Framed', 'Signed', 'Louder', 'Dashed', 'Spaced', 'Hidden']


def text(i, leaf):
    return {'t': ' one two w{} '.format(i), 's': 'w{}'.format(i)}[leaf]


def labels_in(f):
    out = set()
    for n in f:
        if not isinstance(n, str):
            out.add(n[0])
            out |= labels_in(n[1])
    return out


ALL_TAGS = sorted(ref.TAGS) + ['']


def trees(sizes, kinds, pairs):
    def gen():
        for size, labels in sizes:
            for f in forests(size, labels, ['t'] if size > 2 else ['t', 's']):
                used = sorted(labels_in(f))
                for k in kinds:
                    for l in used:
                        yield [f, {l: k}, 40]
                    if size <= 2:
                        yield [f, dict.fromkeys(ALL_TAGS, k), 40]
                if pairs:
                    for l, m in itertools.permutations(used, 2):
                        for a, b in PAIRS:
                            yield [f, {l: a, m: b}, 40]
    return gen


PAIRS = [('Narrow', 'Framed'), ('Brackets', 'Lines'), ('Lines', 'Signed'), ('Info', 'Brackets'), ('Nothing', 'Lines'), ('Marked', 'Narrow')]


def check_tree(case):
    f, kinds, width = case
    nodes = number_texts(f, SPEC, text)
    renderers = {('x-y' if l == '-' else l): k for l, k in kinds.items()}
    cfg = dict(link='inline', optimise=False, width=width, renderers=renderers)
    source = to_html(nodes)
    out = render_html(source, cfg)
    expect_equal(out, ref.render(nodes, cfg), source, cfg)
    return out


# What is returned appears as it is.
RETURN = ['x', ' ', '\n', '\t', '{', '}', '%s', '\\n', '\x1b[1m', '<b>', '&amp;', '\u00a0', '\u20ac']
PLACES = {'root': ('', ''), 'x': ('<q1>', '</q1>'), 'em': ('<em>', '</em>'), 'text': ('<x-y>f ', ' l</x-y>'), 'b': ('g<b> f</b>', '<b>l </b>h'),
          'code': ('<code>', '</code>'), 'a': ('<a href="/h">', '</a>')}
EXPECT = {'root': ('', ''), 'x': ('', ''), 'em': ('_', '_'), 'text': ('f ', ' l'), 'b': ('g** f**', '**l **h'), 'code': ('`', '`'), 'a': ('[', '](/h)')}


def returns(length, alphabet):
    def gen():
        for place in PLACES:
            for how in ('instance', 'settings'):
                for n in range(length + 1):
                    for s in itertools.product(alphabet, repeat=n):
                        yield [place, how, ''.join(s)]
    return gen


def check_return(case):
    place, how, value = case
    from gopher_render.rendering import Renderer

    class Says(Renderer):
        settings = dict(says='?')

        def render(self, content):
            return value if how == 'instance' else self.settings.says

    lib.CUSTOM['Says'] = Says
    before, after = PLACES[place]
    source = before + '<o1>content</o1>' + after
    from gopher_render import GopherHTMLParser
    p = GopherHTMLParser(renderers={'o1': Says if how == 'instance' else (Says, dict(says=value))}, optimise=False, link_placement='inline')
    p.feed(source)
    p.close()
    COUNT.runs += 1
    COUNT.events += 2
    if place == 'code' and '\n' in value:
        want = '```\n' + value + '\n```\n'
    else:
        want = EXPECT[place][0] + value + EXPECT[place][1]
    expect_equal(p.parsed, want, source, dict(returned=value))
    return p.parsed


# Entries of links

def listed(sizes):
    def gen():
        for size, labels in sizes:
            for f in forests(size, labels, ['s']):
                for link, img in itertools.product(('footer', 'after_block'), ('footer', 'after_block', 'inline')):
                    for a, i in (('Entry', 'Entry'), ('Entry', 'Hidden'), ('Hidden', None), (None, 'Entry')):
                        yield [f, link, img, a, i]
    return gen


def check_listed(case):
    f, link, img, a, i = case
    nodes = number_texts(f, dict(SPEC, a2=('a', {'href': '/3', 'title': 'T t'}), anchor=('a', {'name': 'n'})), text)
    for fmt in ('text', 'gophermap'):
        cfg = dict(link=link, img=img, fmt=fmt, host='h', optimise=False, extracted={t: k for t, k in (('a', a), ('img', i)) if k})
        source = to_html(nodes)
        out = render_html(source, cfg)
        expect_equal(out, ref.render(nodes, cfg), source, cfg)
    return out


# The element that a renderer is given, for every attribute and position.

def elements():
    for tag in ('p', 'x', 'b', 'li', 'a', 'img', 'hr', 'ol', 'H1', 'x-y', 'a1'):
        for attributes in itertools.product(('', ' id="i"', ' id=""', ' id'), ('', ' class="a b"', ' class="  a\tb\n c "', ' class', ' class=""'),
                                            ('', ' k="v"', ' K=v', ' k', ' k="&lt;{}&#233;"', ' data-k="1" k=" v  w "')):
            for parent in [x for x in ('', 'p', 'x', 'ul') if x != tag]:
                yield [tag, ''.join(attributes), parent]


def check_element(case):
    tag, attributes, parent = case
    from gopher_render import GopherHTMLParser
    from gopher_render.rendering import Renderer
    seen = []

    class See(Renderer):
        def render(self, content):
            t = self.tag
            seen.append([t.tag, t.id, list(t.classes), {k: v for k, v in t.attrs.items() if k != 'class'}, getattr(t.parent, 'tag', None), content])
            return ''
    p = GopherHTMLParser(renderers={tag.lower(): See}, link_placement='inline')
    source = ('<{}>'.format(parent) if parent else '') + '<{}{}>text'.format(tag, attributes)
    p.feed(source)
    p.close()
    COUNT.runs += 1
    COUNT.events += 3
    pairs = re.findall(r'\s([\w-]+)(?:=("[^"]*"|\w+))?', attributes)
    attrs = {k.lower(): html.unescape(v.strip('"')) if v or (k + '=""') in attributes else None for k, v in pairs}
    classes = (attrs.pop('class', '') or '').split()
    want = [tag.lower(), attrs.get('id'), classes, attrs, parent or None, '' if tag.lower() in VOID else 'text']
    if not seen or any(s != want for s in seen):
        raise Violation('the renderer was given something else\n' + show(('source', source), ('expected', want), ('actual', seen)))
    return seen


# Every attribute there is, with values that a browser would read in some way of its own.

VALUES = ['', ' ', 'v', ' v', 'v ', '  v\t\n w ', 'V', '0', '1', '-1', 'true', 'none', 'a,b;c:d', '"', "'", '<b>', '&', '&amp;', '&lt;x', '%20', '{}', '{0}', '%s', '\\n', '#x', '.c', '[k]', '\u00e9', '\u4e2d', '\u00a0v\u00a0', '\U0001f600', '\x1b[1m', 'v' * 70, 'v w ' * 90]


def attributes():
    names = sorted(set(ATTRIBUTES) | {'class', 'id', 'name', 'lang', 'href', 'src', 'alt', 'title', 'start', 'k', 'x:y', 'data-a-b', 'tag', 'attrs', 'parent', 'classes', 'settings', 'box', 'a' * 70})
    for name in names:
        for v in range(len(VALUES)):
            for tag in ('p', 'a', 'img', 'x', 'li'):
                yield [name, VALUES[v], tag]


def mentioned():
    known, new = mentioned_words()
    for source in (known, new):
        for w in source['words'] + [str(n) for n in source['numbers']]:
            low = w.lower()
            if ATTRIBUTE_NAME.fullmatch(low):
                for v in VALUES if source is new else ['', 'v']:
                    for tag in ('p', 'a', 'img', 'x', 'li') if source is new else ('p', 'a'):
                        yield [low, v, tag]
            for name in list(ATTRIBUTES) + ['class', 'id', 'k', 'href', 'src', 'alt', 'title', 'name'] if source is new else ['class', 'id', 'k', 'href']:
                for v in [w, w.upper(), ' ' + w, w + ' x', 'x' + w] if source is new else [w]:
                    for tag in ('p', 'a', 'img', 'x', 'li') if source is new else ('p', 'a'):
                        yield [name, v, tag]


def check_attribute(case):
    name, v, tag = case
    from gopher_render import GopherHTMLParser
    from gopher_render.rendering import Renderer
    seen = []

    class See(Renderer):
        def render(self, content):
            t = self.tag
            seen.append([t.tag, t.id, list(t.classes), {k: w for k, w in t.attrs.items() if k != 'class'}, content])
            return ''
    value = v
    source = '<{} {}="{}" k2="other">text'.format(tag, name, html.escape(value))
    if name == 'class' and '\u00a0' in value:
        return []           # (not said whether that separates classes)
    p = GopherHTMLParser(renderers={tag: See}, link_placement='inline', image_placement='inline')
    p.feed(source)
    p.close()
    COUNT.runs += 1
    COUNT.events += 3
    attrs = {name: value, 'k2': 'other'}
    classes = attrs.pop('class', '').split()
    want = [tag, attrs.get('id'), classes, attrs, '' if tag in VOID else 'text']
    if seen != [want]:
        raise Violation('the renderer was given something else\n' + show(('source', source), ('expected', [want]), ('actual', seen)))
    return seen


# The settings that a renderer finds: its own, and those of the rules, known or not.

BASES = ['Renderer', 'InlineRenderer', 'BlockRenderer', 'ParagraphRenderer', 'ListItemRenderer', 'OrderedListItemRenderer', 'HeaderRenderer', 'PreRenderer', 'BlockQuoteRenderer', 'ListRenderer',
         'CodeRenderer', 'EmRenderer', 'BreakRenderer', 'AnsiEscapeCodeRenderer', 'NonRenderer', 'DefinitionListItemRenderer', 'LinkRenderer', 'ExtractedLinkRenderer']
GIVEN = [None, {}, dict(mine=2), dict(other=3), dict(mine=[4], other=None), dict(third='{}', mine='')]


def settings():
    for base in BASES:
        for declared in ({}, dict(mine=1), dict(mine=0, other='o')):
            for how in ('class', 'adjusted'):
                for one, two in itertools.product(range(len(GIVEN)), repeat=2):
                    for where in ('element', 'entry') if base in ('Renderer', 'BlockRenderer', 'ExtractedLinkRenderer') else ('element',):
                        yield [base, declared, how, one, two, where]


def check_settings(case):
    base, declared, how, one, two, where = case
    from gopher_render import GopherHTMLParser, rendering
    seen = []

    def render(self, content):
        found = dict(self.settings)
        for name in ('mine', 'other', 'third'):
            if name in found and getattr(self.settings, name) is not found[name]:
                raise Violation('settings.{0} is not settings["{0}"]'.format(name))
        seen.append({k: found[k] for k in ('mine', 'other', 'third', 'late') if k in found})
        return ''
    body = dict(render=render)
    if how == 'class':
        body['settings'] = dict(declared)
    else:
        # As the package's own renderers do it
        def adjust(self):
            super(Mine, self)._adjust_settings()
            self.settings.late = 1
        body['_adjust_settings'] = adjust
    Mine = type(rendering.Renderer)('Mine', (getattr(rendering, base),), body)
    rules = {'a': (Mine, GIVEN[one]) if GIVEN[one] is not None else Mine}
    if GIVEN[two] is not None:
        rules['.c'] = (None, GIVEN[two])
    want = dict(declared) if how == 'class' else {}
    want.update(GIVEN[one] or {})
    want.update(GIVEN[two] or {})
    if how == 'adjusted':
        want['late'] = 1
    if where == 'element':
        p = GopherHTMLParser(renderers=rules, link_placement='inline')
    else:
        p = GopherHTMLParser(extracted_link_renderers=rules)
    p.feed('<ol><a class="c" href="/x">t</a></ol>')
    p.close()
    COUNT.runs += 1
    COUNT.events += 4
    if seen != [want]:
        raise Violation('the renderer found other settings\n' + show(('class', base), ('declared', declared), ('rules', rules), ('expected', [want]), ('actual', seen)))
    return seen


def spaces(tier):
    define()
    t = tier == 'thorough'
    few = LABELS if t else ['p', 'ul', 'li', 'b', 'a', 'img', 'div', 'pre']
    return [
        Space('trees', trees([(1, LABELS), (2, LABELS), (3, few)] + ([(4, ['p', 'li', 'b', 'x', 'div'])] if t else []), KINDS, True), check_tree,
              'all forests of up to {} nodes over {} elements x 13 renderers for one element, pairs for two, or one for all'.format(4 if t else 3, len(LABELS))),
        Space('returns', returns(4 if t else 3, RETURN), check_return, 'every short string as what a renderer returns, in seven places'),
        Space('listed', listed([(n, ['a', 'a2', 'img', 'anchor', 'p', 'b', 'li']) for n in (1, 2, 3)] + ([(4, ['a', 'img', 'p', 'b'])] if t else [])),
              check_listed, 'renderers for the entries of links, all forests of links x placements x formats'),
        Space('elements', elements, check_element, 'every form of attributes x elements x parents'),
        Space('attributes', attributes, check_attribute, 'every attribute of HTML x {} values x 5 elements, seen as written'.format(len(VALUES))),
        Space('mentioned', mentioned, check_attribute, 'the words that the code mentions as names and values of attributes'),
        Space('settings', settings, check_settings, 'classes derived from each of {} classes, with settings of their own and from two rules, known and unknown'.format(len(BASES))),
    ]


ASSUMPTIONS = ["Python's html.parser is trusted to recognise tags and attributes."]
