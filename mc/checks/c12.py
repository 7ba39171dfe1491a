"""C12 Renderer settings are inherited through the class hierarchy."""
import itertools

from core import COUNT, Space, Violation
from lib import *

# What a class declares: None (nothing), or a dictionary
DECLARED = [None, {}, {'u': 1}, {'u': 2}, {'v': 1}, {'u': 1, 'v': 2}, {'u': 2, 'v': 1}]
FALSE = [None, {'u': 1}, {'u': None}, {'u': 0}, {'u': ''}, {'u': []}, {'u': False}, {'u': {}}, {'u': {'a': 1}}, {'u': {'b': 2}}, {'u': [1]}, {'u': [2]}]
FEW = [None, {'u': 1}, {'u': 2}, {'u': 1, 'v': 2}]


def bases_of(k, plain):
    """Ordered choices of bases for the k-th class among the earlier ones (0 is the root of all)."""
    for n in (1, 2, 3):
        for bases in itertools.permutations(range(k), n):
            # the root may only be the last of the bases
            if 0 in bases[:-1] or 0 in bases and n > 1:
                continue
            yield bases


def hierarchies(n, declared):
    def gen():
        for shape in itertools.product(*[list(bases_of(k, False)) for k in range(1, n + 1)]):
            for decl in itertools.product(range(len(declared)), repeat=n):
                for given in (0, 1) if declared is not FALSE else (0, 2, 3, 4, 5):
                    yield [shape, [declared[d] for d in decl], [], given]
    return gen


def mixins(n, declared):
    """Some of the classes are plain classes rather than renderers; the last one is a renderer."""
    def gen():
        for plain in itertools.product((0, 1), repeat=n - 1):
            if not any(plain):
                continue
            for shape in itertools.product(*[list(bases_of(k, False)) for k in range(1, n + 1)]):
                # a plain class has plain bases
                if any(plain[k] and any(b != 0 and not plain[b - 1] for b in shape[k]) for k in range(n - 1)):
                    continue
                for decl in itertools.product(range(len(declared)), repeat=n):
                    yield [shape, [declared[d] for d in decl], plain, 0]
    return gen


def show_settings(s):
    """The settings read in every way."""
    items = {k: s[k] for k in ('u', 'v', 'w') if k in s}
    attrs = {k: getattr(s, k) for k in ('u', 'v', 'w') if hasattr(s, k)}
    none = object()
    gets = {k: s.get(k, none) for k in ('u', 'v', 'w') if s.get(k, none) is not none}
    if not items == attrs == gets:
        raise Violation('the settings differ by the way they are read: {!r} {!r} {!r}'.format(items, attrs, gets))
    return ','.join('{}={}'.format(k, v) for k, v in sorted(items.items()))


MESS = [lambda s: setattr(s, 'u', 'changed'), lambda s: s.update(v='changed'), lambda s: s.pop('u', None),
        lambda s: s.clear(), lambda s: s.__setitem__('w', 'new')]


def root_class():
    from gopher_render.rendering import InlineRenderer

    class Root(InlineRenderer):
        mess = None

        def render(self, content):
            out = '<{}>'.format(show_settings(self.settings))
            if self.mess is not None:
                MESS[self.mess](self.settings)
            return out
    return Root


def check(case):
    shape, decl, plain, given = case
    Root = root_class()
    models = [object]
    real = [Root]
    for k, (bases, d) in enumerate(zip(shape, decl)):
        is_plain = k < len(plain) and plain[k]
        names = {} if d is None else dict(settings=dict(d))
        rb = tuple(real[b] for b in bases)
        if is_plain:
            rb = tuple(b for b in rb if b is not Root) or (object,)
        elif k + 1 == len(decl) and plain and not any(isinstance(b, type) and issubclass(b, Root) for b in rb):
            rb = rb + (Root,)
        elif plain and not any(issubclass(b, Root) for b in rb):
            rb = rb + (Root,)
        try:
            model = type('K{}'.format(k), tuple(models[b] for b in bases), {'declared': d})
        except TypeError:
            return 'no such class'
        try:
            klass = type(Root)('K{}'.format(k), rb, names) if not is_plain else type('K{}'.format(k), rb, names)
        except TypeError:
            return 'no such class'
        models.append(model)
        real.append(klass)
    extra = [{}, {'v': 3, 'w': 3}, {'u': None}, {'u': ''}, {'u': {'c': 3}}, {'u': [3]}][given]
    def expected(model):
        s = {}
        for c in model.__mro__[::-1]:
            s.update(vars(c).get('declared') or {})
        return s
    renderable = [k for k in range(1, len(real)) if issubclass(real[k], Root)]
    last = renderable[-1]
    want = {}
    renderers = {}
    for k in renderable:
        renderers['k{}'.format(k)] = (real[k], dict(extra)) if given and k == last else real[k]
        s = expected(models[k])
        if k == last:
            s.update(extra)
        want['k{}'.format(k)] = ','.join('{}={}'.format(*i) for i in sorted(s.items()))
    # Every class is used twice, around the last one whose settings are changed while rendering
    order = ['k{}'.format(k) for k in renderable]
    source = ''.join('<{0}></{0}>'.format(t) for t in order + order[::-1])
    from gopher_render import GopherHTMLParser
    outs = []
    before = {k: dict(real[k].__dict__['settings']) if 'settings' in real[k].__dict__ else None for k in range(len(real))}
    for mess in [None] + list(range(len(MESS))):
        real[last].mess = mess
        p = GopherHTMLParser(renderers=renderers)
        p.feed(source)
        p.close()
        COUNT.runs += 1
        COUNT.events += 4 * len(order)
        out = p.parsed
        expect_equal(out, ''.join('<{}>'.format(want[t]) for t in order + order[::-1]),
                     source, dict(classes=repr(case), mess=mess), 'the settings are not those of the class hierarchy')
        outs.append(out)
    after = {k: dict(real[k].__dict__['settings']) if 'settings' in real[k].__dict__ else None for k in range(len(real))}
    if before != after:
        raise Violation('the settings of a class have changed\n' + show(('case', case), ('before', before), ('after', after)))
    return outs[0]


def chains(top):
    """Long chains of classes, of which some declare something; and classes with many bases."""
    for n in list(range(1, 25)) + [32, 33, 40, top]:
        for i in range(n):
            for j in {i, (i + 1) % n, n - 1 - i, 0, n - 1}:
                decl = [None] * n
                decl[i] = {'u': 1, 'v': 1}
                decl[j] = {'u': 2}
                yield [[[k] for k in range(n)], decl, [], 0]
        if 2 <= n <= 25:
            for i in range(n):
                for j in {i, (i + 1) % n, n - 1}:
                    decl = [None] * (n + 1)
                    decl[i] = {'u': 1, 'v': 1}
                    decl[j] = {'u': 2, 'w': 1}
                    yield [[[0]] * n + [list(range(1, n + 1))], decl, [], 0]


# ---------------------------------------------------------- bundled renderers

BUNDLED = {
    'p': ('ParagraphRenderer', dict(initial_indent=3, subsequent_indent=2, justification='right', capitalized=True, break_long_words=False,
                                    fix_sentence_endings=False, margin=[2, 0, 0, 1], padding=[1, 1, 1, 1], border=['-', '|', '-', '|'], line_template='~ {}',
                                    skip_for_code_or_pre=False)),
    'ul > li': ('ListItemRenderer', dict(line_template='- {}', justification='center', subsequent_indent=4, capitalized=True, margin=[0, 0, 2, 2], padding=[0, 2, 0, 2],
                                    border=['', '!', '', '!'])),
    'ol > li': ('OrderedListItemRenderer', dict(start_index=7, step=10, line_template='{0}) {1}', capitalized=True, justification='right', margin=[0, 1, 0, 1])),
    'dd': ('DefinitionListItemRenderer', dict(line_template='=> {}', justification='full', initial_indent=2, capitalized=True, margin=[3, 0, 0, 0])),
    'dt': ('DefinitionListTermHeaderRenderer', dict(template='{}:', capitalized=True, spread=1, spread_char='.', centered=True, underlined=True, underline_char='~',
                                                    underline_full=True, margin=[0, 0, 1, 0])),
    'h2': ('HeaderRenderer', dict(template='<{}>', capitalized=True, spread=2, centered=True, underlined=True, underline_char='*', margin=[0, 0, 0, 3])),
    'h3': ('MarkdownHeaderRenderer', dict(capitalized=True, spread=1, underlined=True, margin=[0, 0, 0, 0])),
    'blockquote': ('BlockQuoteRenderer', dict(line_template='| {}', margin=[0, 2, 0, 2], padding=[1, 0, 1, 0], border=['^', '', '', ''])),
    'pre': ('PreRenderer', dict(indent=1, line_template='% {}', margin=[0, 0, 0, 1])),
    'div': ('BlockRenderer', dict(margin=[1, 1, 1, 1], padding=[0, 1, 0, 1], border=['#', '#', '#', '#'])),
    'ul': ('ListRenderer', dict(margin=[0, 0, 0, 4], padding=[1, 0, 0, 0])),
    'dl': ('DefinitionListRenderer', dict(margin=[0, 0, 0, 4], border=['_', '', '_', ''])),
    'em': ('EmRenderer', dict(template='/{}/', capitalized=True)),
    'b': ('StrongRenderer', dict(template='<{}>', capitalized=True)),
    'u': ('UnderlineRenderer', dict(template='={}=', capitalized=True)),
    'del': ('StrikethroughRenderer', dict(template='-{}-', capitalized=True)),
    'span': ('InlineRenderer', dict(template='({})', capitalized=True)),
    'br': ('BreakRenderer', dict(template='$ {}')),
    'code': ('CodeRenderer', dict(inline_template="'{}'", block_template='[[{}]]')),
    'a': ('LinkRenderer', dict(capitalized=True, templates=dict(reference='{content}^{link_reference}', inline=['{href}', '{title}']))),
    'img': ('ImageRenderer', dict(templates=dict(reference='!{title}^{link_reference}', inline='!{href}'))),
    'kbd': ('AnsiEscapeCodeRenderer', dict(bold=True, foreground_colour='red', font=2, template='"{}"', capitalized=True, normalise=True)),
}
DOCUMENT = ('<div><p>Some text. With <em>emphasis</em>, <b>bold</b> and <u>more</u> <del>of</del> <span>that</span>, long enough to be wrapped at least once, '
            '<br>and <code>some code</code> <a href="/1" title="t">a link</a> <img src="/2" alt="image"> <kbd>k</kbd> here.</p>'
            '<h2>Head</h2><h3>More</h3><blockquote><p>Quote</p><pre>pre\n  text</pre></blockquote>'
            '<ul><li>one item of a list that is long enough to be wrapped as well, it is</li><li>two</li></ul><ol><li>first</li><li>second</li></ol>'
            '<dl><dt>term</dt><dd>definition of the term that is long enough to be wrapped as well</dd><dt>t</dt><dd>d</dd></dl></div>')


def bundled():
    for sel, (name, settings) in BUNDLED.items():
        for n in (1, 2, len(settings)):
            for keys in itertools.combinations(settings, n):
                for form in ('declared', 'inherited', 'split', 'overridden', 'mixin', 'set'):
                    yield [sel, name, {k: settings[k] for k in keys}, form]


def check_bundled(case):
    """Settings that a class declares work like those that are given for the element."""
    sel, name, settings, form = case
    from gopher_render import GopherHTMLParser, rendering
    klass = getattr(rendering, name)
    first = dict(list(settings.items())[:1])
    rest = dict(list(settings.items())[1:])
    k = type(klass)
    if form == 'declared':
        value = k('Sub', (klass,), dict(settings=dict(settings)))
    elif form == 'inherited':
        value = k('SubSub', (k('Sub', (klass,), dict(settings=dict(settings))),), {})
    elif form == 'split':
        value = k('SubSub', (k('Sub', (klass,), dict(settings=first)),), dict(settings=rest))
    elif form == 'overridden':
        value = (k('Sub', (klass,), dict(settings={x: None for x in settings})), dict(settings))
    elif form == 'mixin':
        class Mixin:
            pass
        Mixin.settings = dict(settings)
        value = k('Sub', (Mixin, klass), {})
    else:
        value = k('SubSub', (k('A', (klass,), dict(settings=first)), k('B', (klass,), dict(settings=dict(settings)))), {})
    outs = []
    for v in (value, (klass, dict(settings))):
        p = GopherHTMLParser(renderers={sel: v}, width=30)
        p.feed(DOCUMENT)
        p.close()
        outs.append(p.parsed)
        COUNT.runs += 1
        COUNT.events += 80
    expect_equal(outs[0], outs[1], DOCUMENT, dict(case=repr(case)), 'declared settings do not work as given ones')
    return outs[0]


def spaces(tier):
    t = tier == 'thorough'
    return [
        Space('three', hierarchies(3, DECLARED), check, 'every hierarchy of three classes with every declaration'),
        Space('four', hierarchies(4, FEW if t else FEW[:3]), check, 'every hierarchy of four classes'),
        Space('false', hierarchies(2, FALSE), check, 'every hierarchy of two classes, with declarations that count as false'),
        Space('false3', hierarchies(3, FALSE if t else FALSE[:4]), check, 'of three classes'),
        Space('chains', lambda: chains(100 if t else 60), check, 'long chains of classes, and many bases'),
        Space('mixins', mixins(4 if t else 3, FEW if t else FEW[:3]), check, 'hierarchies in which some classes are plain classes'),
        Space('mixins4', mixins(4, FEW[:3]), check, 'hierarchies of four classes in which some are plain classes'),
        Space('bundled', bundled, check_bundled, 'settings of every bundled renderer, declared in subclasses'),
    ]


ASSUMPTIONS = ["Python's own method resolution order is trusted."]
