"""Driving the real code: documents as trees, and rendering them."""
import html
import html.parser
import io
import itertools
import re
import sys

from core import COUNT, Violation

VOID = ('area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'source', 'track', 'wbr')
ESC = re.compile('\x1b\\[[;0-9]*m')

# A node is a string (text) or [tag, attributes, children].


def el(tag, *children, **attrs):
    return [tag, {k.rstrip('_').replace('_', '-'): v for k, v in attrs.items()}, list(children)]


def to_html(nodes):
    out = []
    for n in nodes:
        if isinstance(n, str):
            out.append(html.escape(n, quote=False))
            continue
        tag, attrs, children = n
        a = ''.join(' {}'.format(k) if v is None else ' {}="{}"'.format(k, html.escape(v)) for k, v in attrs.items())
        if tag in VOID:
            out.append('<{}{}>'.format(tag, a))
        else:
            out.append('<{}{}>{}</{}>'.format(tag, a, to_html(children), tag))
    return ''.join(out)


TOKEN = re.compile(r'<[^>]*>|[^<]+|<')


CUSTOM = {}     # name -> renderer class that is not one of the package's


def renderer_class(name):
    from gopher_render import rendering
    return CUSTOM[name] if name in CUSTOM else getattr(rendering, name)


def renderer_spec(spec):
    """JSON form of a renderer mapping value -> the real one."""
    if spec is None:
        return None
    if isinstance(spec, str):
        return renderer_class(spec)
    name, settings = spec
    return (renderer_class(name) if name else None, dict(settings))


def make_parser(cfg):
    from gopher_render import GopherHTMLParser
    from gopher_render.rendering import Box
    kw = {}
    if 'margin' in cfg:
        kw['box'] = Box(width=cfg.get('width', 67), margin=list(cfg['margin']))
    elif 'width' in cfg:
        kw['width'] = cfg['width']
    for k, name in (('fmt', 'output_format'), ('link', 'link_placement'), ('img', 'image_placement'),
                    ('host', 'gopher_host'), ('port', 'gopher_port'), ('optimise', 'optimise')):
        if k in cfg:
            kw[name] = cfg[k]
    if 'renderers' in cfg:
        kw['renderers'] = {k: renderer_spec(v) for k, v in cfg['renderers'].items()}
    if 'extracted' in cfg:
        kw['extracted_link_renderers'] = {k: renderer_spec(v) for k, v in cfg['extracted'].items()}
    return GopherHTMLParser(**kw)


def render_html(source, cfg={}):
    p = make_parser(cfg)
    p.feed(source)
    p.close()
    COUNT.runs += 1
    COUNT.events += len(TOKEN.findall(source)) + 1
    if not isinstance(p.parsed, str):
        raise Violation('the result is not a string: {!r} for {!r}'.format(p.parsed, source))
    return p.parsed


def render(nodes, cfg={}):
    return render_html(to_html(nodes), cfg)


def strip_escapes(s):
    return ESC.sub('', s)


def show(*pairs):
    return '\n'.join('{}: {!r}'.format(k, v) for k, v in pairs)


def expect_equal(actual, expected, source, cfg={}, what='output differs from the reference'):
    if actual != expected:
        raise Violation(what + '\n' + show(('source', source), ('config', cfg), ('expected', expected), ('actual', actual)))


def text_of(nodes):
    return ''.join(n if isinstance(n, str) else text_of(n[2]) for n in nodes)


# ------------------------------------------------------------------ vocabulary

# Elements there are in HTML (also obsolete ones), those that the parser knows nothing of
UNKNOWN_INLINE = '''abbr acronym applet audio bdi bdo big blink button canvas cite data datalist dfn font
kbd label mark math meter nobr noscript object
output param picture progress q rb rp rt rtc ruby samp select slot small strike sub sup svg template time tt var video
big-5 h0 h7 h12 h-1 image list item lists ola pa bb br2 imgs blockquotes x y z note i18n em2 a-b'''.split()
UNKNOWN_BLOCKS = '''address article aside body caption details dialog fieldset figcaption figure footer form head header html main nav
section summary table tbody td tfoot th thead tr'''.split()

# Attributes there are in HTML, with values that mean something there
ATTRIBUTES = {}
for names, values in (
    ('abbr accept accept-charset action alt archive aria-label aria-labelledby aria-describedby as autocomplete axis background cite '
     'classid code codebase codetype content coords data datetime dirname download enctype for form formaction headers href hreflang '
     'http-equiv icon id imagesizes imagesrcset integrity is itemid itemprop itemref itemtype kind label lang language list longdesc '
     'manifest media method name nonce object onclick onload onerror pattern ping placeholder poster profile prompt rel rev sandbox '
     'scheme scope shape sizes slot src srcdoc srclang srcset standby style summary text title type usemap value version xmlns xml:lang xml:space '
     'data-x data-title data-href data-width data-markdown class property about resource vocab v-if ng-if :title @click #ref', ['', 'x', 'x y', '/1.txt', 'http://h/', '{}', '{0}']),
    ('width height size cols rows border cellpadding cellspacing colspan rowspan span start maxlength minlength max min high low optimum '
     'hspace vspace marginheight marginwidth tabindex value step level indent depth number aria-level aria-colspan aria-rowspan '
     'aria-posinset aria-setsize aria-valuenow data-line', ['0', '1', '2', '3', '7', '-1', '100%', '10px', '', 'x']),
    ('allowfullscreen async autofocus autoplay checked compact controls declare default defer disabled formnovalidate hidden inert '
     'ismap itemscope loop multiple muted nohref nomodule noresize noshade novalidate nowrap open readonly required reversed '
     'selected sortable truespeed typemustmatch preserve-whitespace wrap', [None, '', 'true', 'false', 'until-found']),
    ('aria-hidden aria-disabled aria-expanded aria-busy aria-live aria-modal aria-pressed aria-checked aria-current contenteditable '
     'draggable spellcheck translate autocapitalize', [None, '', 'true', 'false', 'yes', 'no', 'off', 'page', 'characters', 'words']),
    ('align valign text-align', ['left', 'right', 'center', 'centre', 'justify', 'CENTER', 'middle', 'top', 'none', 'char']),
    ('dir', ['ltr', 'rtl', 'auto', '']),
    ('lang hreflang', ['en', 'de', 'tr', 'ja', 'ar', 'EN-us']),
    ('type', ['1', 'a', 'A', 'i', 'I', 'disc', 'circle', 'square', 'none', 'text/plain', 'hidden', 'math', 'text/gophermap']),
    ('role', 'none presentation heading list listitem paragraph blockquote link img image code emphasis strong deletion insertion term definition '
             'separator group region note article main navigation banner button table row cell document doc-endnote doc-noteref'.split()),
    ('style', ['display:none', 'display: none;', 'display:block', 'display:inline', 'visibility:hidden', 'white-space:pre', 'white-space: pre-wrap', 'white-space:nowrap', 'text-align:center',
               'text-align: right', 'text-transform:uppercase', 'font-weight:bold', 'font-style: italic', 'text-decoration:underline', 'list-style-type:none', 'margin:0',
               'margin-left: 2em', 'padding:1px', 'width:10px', 'color:red', 'color: #ff0000', 'background:red', 'float:left']),
    ('class', ['hidden', 'sr-only', 'visually-hidden', 'highlight', 'codehilite', 'language-python', 'footnote', 'footnote-ref', 'footnote-backref', 'admonition', 'toc', 'headerlink',
               'nowrap', 'pre', 'center', 'right', 'button', 'mention', 'hashtag', 'invisible', 'ellipsis', 'no-print', 'noprint', 'h-entry', 'task-list-item', 'math', 'arithmatex', 'None', '0']),
    ('id', ['top', 'toc', 'main', 'content', 'footer', 'fn:1', 'fnref:1', 'None', '0']),
    ('rel', ['nofollow', 'noopener', 'tag', 'bookmark', 'author', 'me', 'next', 'prev', 'license', 'stylesheet', 'footnote', 'noreferrer noopener', 'external']),
    ('rev', ['footnote', 'made']), ('target', ['_blank', '_self', '_top', 'x']), ('method', ['get', 'post']),
    ('xml:space', ['preserve', 'default']), ('wrap', ['hard', 'soft', 'off']), ('clear', ['left', 'all', 'none']), ('loading', ['lazy', 'eager']),
    ('color bgcolor face link alink vlink', ['red', '#fff', '#123456', 'Courier', 'monospace']),
):
    for name in names.split():
        known = ATTRIBUTES.setdefault(name, [])
        known += [v for v in values if v not in known]
NEUTRAL = [(name, value) for name, values in ATTRIBUTES.items() for value in values]
# What has a meaning to the package
MEANINGFUL = {'a': ('href', 'title'), 'img': ('src', 'alt')}
START = re.compile(r'<([a-z][a-z0-9:-]*)([^>]*)>')


def same_output(what, source, other, cfg, expected):
    out = render_html(other, cfg)
    if out != expected:
        raise Violation(what + '\n' + show(('without', source), ('with', other), ('config', cfg), ('expected', expected), ('actual', out)))
    return out


def attribute_space(docs, cfgs):
    """
    Attributes that nothing asks for make no difference: every attribute of
    HTML, with values of it, on every element of some documents and on all of
    them at once.
    """
    from core import Space
    cache = {}

    def gen():
        for d, source in enumerate(docs):
            tags = START.findall(source)
            for name, value in NEUTRAL:
                fits = [i for i, (tag, attrs) in enumerate(tags) if name not in MEANINGFUL.get(tag, ()) and not re.search(r'\s' + re.escape(name) + '(=|$)', attrs)]
                for c in range(len(cfgs)):
                    for i in fits + ['all']:
                        yield [d, c, name, value, [i] if i != 'all' else fits]

    def check(case):
        d, c, name, value, where = case
        attribute = ' ' + name + ('' if value is None else '="{}"'.format(html.escape(value)))
        count = itertools.count()
        other = START.sub(lambda m: m.group(0).replace('<' + m.group(1), '<' + m.group(1) + (attribute if next(count) in where else ''), 1), docs[d])
        if (d, c) not in cache:
            cache[d, c] = render_html(docs[d], cfgs[c])
        return same_output('an attribute that nothing asks for makes a difference', docs[d], other, cfgs[c], cache[d, c])

    return Space('neutral-attributes', gen, check, '{} values of {} attributes on every element of {} documents'.format(len(NEUTRAL), len(ATTRIBUTES), len(docs)))


def element_space(docs, cfgs):
    """
    One element that the package has no renderer for is like the other: x-y is
    replaced by every such name of an inline element, and section by every
    block's.
    """
    from core import Space
    cache = {}

    def gen():
        for d in range(len(docs)):
            for c in range(len(cfgs)):
                for mark, names in (('x-y', UNKNOWN_INLINE), ('section', UNKNOWN_BLOCKS)):
                    if '<' + mark + '>' in docs[d]:
                        for name in names:
                            yield [d, c, mark, name]

    def check(case):
        d, c, mark, name = case
        if (d, c) not in cache:
            cache[d, c] = render_html(docs[d], cfgs[c])
        other = docs[d].replace('<' + mark + '>', '<' + name + '>').replace('</' + mark + '>', '</' + name + '>')
        return same_output('one element without a renderer is not like another', docs[d], other, cfgs[c], cache[d, c])

    return Space('neutral-elements', gen, check, '{} names of elements in {} documents'.format(len(UNKNOWN_INLINE + UNKNOWN_BLOCKS), len(docs)))


class TreeBuilder(html.parser.HTMLParser):
    """Nodes of a document that is well-formed."""

    def __init__(self, source):
        super().__init__()
        self.stack = [[]]
        self.feed(source)
        self.close()

    def handle_starttag(self, tag, attrs):
        node = [tag, dict(attrs), []]
        self.stack[-1].append(node)
        if tag not in ('br', 'img', 'hr'):
            self.stack.append(node[2])

    def handle_endtag(self, tag):
        self.stack.pop()

    def handle_data(self, data):
        self.stack[-1].append(data)


def nodes_of(source):
    return TreeBuilder(source).stack[0]


CHAINS = [['b'], ['span'], ['x-y'], ['em', 'code'], ['a'], ['div'], ['section'], ['p'], ['blockquote'], ['ul', 'li'], ['ol', 'li'], ['dl', 'dd'], ['div', 'blockquote', 'section'], ['pre'], ['h2']]
DEPTHS = list(range(1, 14)) + [15, 16, 17, 20, 24, 25, 31, 32, 33, 40, 48, 50, 63, 64, 65, 80, 90]
COUNTS = list(range(2, 14)) + [15, 16, 17, 20, 24, 25, 26, 31, 32, 33, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257]


def scaling_space(docs, cfgs, t=False, chains=None):
    """
    There is no limit to depths and numbers: any part of some documents is
    wrapped in up to 90 elements, has up to 90 elements around its content, or
    is there up to 257 times.
    """
    from core import Space
    chains = CHAINS if chains is None else chains
    depths = DEPTHS if t else DEPTHS[:13] + [17, 20, 25, 33, 50, 65, 90]
    numbers = COUNTS if t else COUNTS[:12] + [17, 20, 26, 33, 51, 65, 101, 129, 257]

    def change(nodes, where, f):
        """nodes with f applied to the node number where (in document order)."""
        count = itertools.count()

        def walk(nodes):
            out = []
            for n in nodes:
                here = next(count) == where
                n = n if isinstance(n, str) else [n[0], n[1], walk(n[2])]
                out += f(n) if here else [n]
            return out
        return walk(nodes)

    def size(nodes):
        return sum(1 if isinstance(n, str) else 1 + size(n[2]) for n in nodes)

    def wrap(chain, n, nodes):
        for tag in (list(chain) * n)[:n][::-1]:
            nodes = [[tag, {'href': '/x'} if tag == 'a' else {}, nodes]]
        return nodes

    trees = [nodes_of(d) for d in docs]

    def gen():
        for d, tree in enumerate(trees):
            for c in range(len(cfgs)):
                for where in range(size(tree)):
                    for k in range(len(chains)):
                        for n in depths:
                            yield [d, c, where, 'around', k, n]
                            yield [d, c, where, 'within', k, n]
                    for n in numbers:
                        yield [d, c, where, 'times', 0, n]

    def case_of(case):
        d, c, where, how, k, n = case
        if how == 'times':
            f = lambda node: ([node] if isinstance(node, list) else [['b', {}, [node]], ' ']) * n
        elif how == 'around':
            f = lambda node: wrap(chains[k], n, [node])
        else:
            f = lambda node: [node] if isinstance(node, str) or node[0] in ('br', 'img') else [[node[0], node[1], wrap(chains[k], n, node[2])]]
        return [cfgs[c], change(trees[d], where, f)]

    def run(case):
        return ref_check(case_of(case))

    return Space('scaling', gen, run, 'every part of {} documents within and around up to 90 elements in {} ways, and up to 257 times'.format(len(docs), len(chains)))


# Names of attributes that a word could be a value of
VALUED = 'class id name lang type style dir role rel start value align width hidden k cite translate xml:space data-x datetime'.split()
NAME = re.compile(r'[a-z][a-z0-9_:.-]*')
ATTRIBUTE_NAME = re.compile(r'[a-z_@:][a-z0-9_:.@-]*')
# Elements whose content is not markup, or that mean something
SPECIAL = set(VOID) | {'script', 'style', 'title', 'textarea', 'plaintext', 'xmp', 'iframe', 'noembed', 'noframes'}


def mentioned_words():
    import words
    return words.vocabulary()


def words_space(docs, cfgs, t=False, reference=True, judge=None):
    """
    The words, numbers and characters that the code itself mentions (see
    words.py) as names and values of attributes, names of elements, text,
    addresses, titles, comments, lengths, counts, depths and widths. They make
    no difference where they mean nothing, otherwise the reference decides
    (unless there is none for this configuration), or `judge` decides about each
    document and configuration.
    """
    import ref
    import words
    from core import Space
    known, new = words.vocabulary()
    trees = [nodes_of(d) for d in docs]
    cache = {}
    texts = []
    for d, tree in enumerate(trees):
        def walk(nodes, path):
            for i, n in enumerate(nodes):
                if isinstance(n, str):
                    texts.append((d, path + [i]))
                else:
                    walk(n[2], path + [i])
        walk(tree, [])
    starts = {d: [m.start() for m in re.finditer('<', docs[d])] + [m.end() for m in re.finditer('>', docs[d])] for d in range(len(docs))}

    def variants(w, full):
        out = [w]
        if full:
            out += [w + ' x', 'x ' + w, 'x' + w, w + 'x', 'x-' + w, w + '-x', w + ':', w + ': x', 'x ' + w + ' x', w.upper(), w.lower(), w.capitalize(), w + '1', w * 2, w + ' ' + w, '#' + w, '[' + w + ']', '{' + w + '}', '(' + w + ')', '"' + w + '"']
        return sorted(set(out), key=out.index)

    def addresses(w, full):
        out = [w, '/x.' + w, '/' + w, w + ':x']
        if full:
            out += ['/x.' + w.upper(), '/' + w + '/x', w + '://h/x', 'http://' + w + '/', 'http://h/' + w, 'x?' + w + '=1', 'x#' + w, '#' + w, 'gopher://h/x.' + w, 'gopher://' + w + '/1', 'gopher://h/' + w, '.' + w, w + '/', '//' + w + '/x', w.upper(), 'x' + w, w + 'x']
        return out

    def gen():
        for full, source in ((True, new), (t, known)):
            everything = source['words'] + [str(m) for n in source['numbers'] for m in sorted({max(n - 1, 0), n, n + 1})]
            for c in range(len(cfgs)) if full else range(1):
                for w in everything:
                    low = w.lower()
                    tags = [START.findall(d) for d in docs]
                    for d in range(len(docs)):
                        places = [[i] for i in range(len(tags[d]))] if full else []
                        for where in places + [list(range(len(tags[d])))]:
                            if ATTRIBUTE_NAME.fullmatch(low):
                                for value in [None, '', 'x', '1', '0', 'true', low] if full else [None, '1']:
                                    yield ['attribute', d, c, low, value, where]
                            for name in VALUED + [n.lower() for n in new['words'] if ATTRIBUTE_NAME.fullmatch(n.lower())] if full else ('class', 'type'):
                                for value in variants(w, full) if full and name in ('class', 'id', 'style', 'lang') else [w, low]:
                                    yield ['attribute', d, c, name, value, where]
                        if NAME.fullmatch(low) and low not in SPECIAL and low not in ref.TAGS and low not in ref.BLOCKS and '<x-y>' in docs[d]:
                            yield ['element', d, c, low]
                        for position in starts[d] if full else starts[d][:3]:
                            for form in ['<!--{}-->', '<!-- {} -->', '<!--{} x-->', '<!--[{} x]-->', '<?{}>', '<?{} x?>', '<!{}>', '<!{} x>'] if full else ['<!--{}-->', '<?{}>']:
                                if not re.search('--|[<>]', w):
                                    yield ['comment', d, c, form.format(w), position]
                    if not reference:
                        continue
                    for k in range(len(texts)):
                        for value in variants(w, full):
                            yield ['text', k, c, value]
                    if True:
                        for value in addresses(w, full):
                            if re.fullmatch(r'[^\s\[\]{}%<>]*', value):
                                yield ['link', c, value, 'Ti', 'tx']
                        for value in variants(w, full):
                            yield ['link', c, '/a', value, 'tx']
                            yield ['link', c, '/a', None, value]
        for ch in new['characters']:
            if ch in '\x1b\r\n\f\v\x1c\x1d\x1e\x85\u2028\u2029\t':
                continue        # (each with a meaning of its own)
            for c in range(len(cfgs) if reference else 0):
                for k in range(len(texts)):
                    for value in ('x' + ch + 'y', ch + 'x', 'x' + ch, 'x ' + ch + ' y', ch, 'x' + ch + ch + 'y'):
                        if value.strip() == value:
                            yield ['text', k, c, value]
                if True:
                    for value in ('x' + ch + 'y', ch + 'x' + ch):
                        if value.strip() == value:
                            yield ['link', c, '/a', value, 'tx']
        sizes = sorted({m for n in new['numbers'] for m in (n - 1, n, n + 1, 2 * n, 2 * n + 1) if 1 <= m <= 2200})
        for c in range(len(cfgs) if reference else 0):
            for m in sizes:
                for k in range(len(texts)):
                    for letters in ('x', 'ab ', 'abc def-gh. '):
                        yield ['length', k, c, letters, m]
                    if m <= 90:
                        for chain in ('b', 'div', 'section', 'blockquote'):
                            yield ['depth', k, c, chain, m]
                for d in range(len(docs)):
                    for i in range(len(trees[d])):
                        if m <= 1100:
                            yield ['times', d, c, i, m]
                    if 'width' in cfgs[c]:
                        yield ['width', d, c, m]
                    for i in range(min(m, 300), m + 1 if m <= 300 else 0):
                        yield ['attributes', d, c, m]
                if True:
                    yield ['link', c, '/' + 'x' * m, 'Ti', 'tx']
                    yield ['link', c, '/a', 'y' * m, 'tx']
                    yield ['link', c, '/a', 'y z ' * m, 'tx']
                    yield ['link', c, '/a', None, 'yz ' * m]

    def replaced(nodes, path, by):
        i = path[0]
        n = nodes[i]
        return nodes[:i] + ([[n[0], n[1], replaced(n[2], path[1:], by)]] if path[1:] else by) + nodes[i + 1:]

    def added(d, what, where, name):
        count = itertools.count()

        def add(m):
            tag, attrs = m.groups()
            if next(count) not in where or name in MEANINGFUL.get(tag, ()) or name and re.search(r'\s' + re.escape(name) + '(=|$)', attrs):
                return m.group(0)
            return m.group(0).replace('<' + tag, '<' + tag + what, 1)
        return START.sub(add, docs[d])

    def documents(case):
        """The document that has to be like docs[d], or the nodes, for configurations."""
        kind = case[0]
        if kind == 'attribute':
            _, d, c, name, value, where = case
            return d, added(d, ' ' + name + ('' if value is None else '="{}"'.format(html.escape(value))), where, name), [cfgs[c]]
        if kind == 'attributes':
            _, d, c, m = case
            return d, added(d, ''.join(' a{}="{}"'.format(i, i) for i in range(m)), range(1000), None), [cfgs[c]]
        if kind == 'element':
            _, d, c, name = case
            return d, docs[d].replace('<x-y>', '<' + name + '>').replace('</x-y>', '</' + name + '>'), [cfgs[c]]
        if kind == 'comment':
            _, d, c, comment, position = case
            return d, docs[d][:position] + comment + docs[d][position:], [cfgs[c]]
        if kind == 'link':
            _, c, href, title, text = case
            nodes = [['p', {}, ['a ', ['a', {'href': href, 'title': title} if title is not None else {'href': href}, [text]], ' b ', ['img', {'src': href, 'alt': title or ''}, []]]]]
            return None, nodes, [cfgs[c], dict(cfgs[c], fmt='text', link='inline', img='footer'), dict(fmt='gophermap', host='hh', link='footer', img='footer')]
        if kind == 'times':
            _, d, c, i, m = case
            n = trees[d][i]
            return None, trees[d][:i] + ([n] if isinstance(n, list) else [['b', {}, [n]], ' ']) * m + trees[d][i + 1:], [cfgs[c]]
        if kind == 'width':
            _, d, c, m = case
            return None, trees[d], [dict(cfgs[c], width=m)]
        d, path = texts[case[1]]
        if kind == 'text':
            by = [case[3]]
        elif kind == 'length':
            letters, m = case[3:]
            by = [(letters * (m // len(letters) + 1))[:m]]
        else:
            by = ['x']
            for _ in range(case[4]):
                by = [[case[3], {}, by]]
        return None, replaced(trees[d], path, by), [cfgs[case[2]]]

    what = dict(attribute='an attribute that nothing asks for makes a difference', attributes='attributes that nothing asks for make a difference',
                element='one element without a renderer is not like another', comment='a comment makes a difference')

    def run(case):
        d, document, configurations = documents(case)
        out = None
        for cfg in configurations:
            if judge is not None:
                out = judge(document if isinstance(document, str) else to_html(document), cfg)
            elif d is None:
                out = ref_check([cfg, document])
            else:
                key = d, case[2]
                if key not in cache:
                    cache[key] = render_html(docs[d], cfg)
                out = same_output(what[case[0]], docs[d], document, cfg, cache[key])
        return out

    return Space('words', gen, run, 'the words, numbers and characters that the code mentions ({} and {} and {} new ones) as names, values, text, addresses, comments and sizes'.format(
        len(known['words']), len(known['numbers']), sum(map(len, new.values()))))


# ---------------------------------------------------------------- enumerations

def compositions(n, parts=None):
    """All ordered ways to write n as a sum of positive integers."""
    if n == 0:
        yield ()
        return
    for first in range(1, n + 1):
        for rest in compositions(n - first):
            yield (first,) + rest


VOID_LABELS = VOID + ('img2', 'img3')


def forests(size, labels, leaves, content=None, parent=None, adjacent_leaves=False):
    """
    All ordered forests with exactly `size` nodes. Inner nodes are taken from
    `labels`, leaf nodes also from `leaves`. `content(parent, label)` restricts
    what may be in what. Nodes are (label, children) or leaf.
    No two leaves are adjacent, unless asked for (adjacent text is one text).
    """
    def build(n, parent, after_leaf):
        if n == 0:
            yield ()
            return
        if not after_leaf or adjacent_leaves:
            for leaf in leaves:
                for rest in build(n - 1, parent, True):
                    yield (leaf,) + rest
        for label in labels:
            if content is not None and not content(parent, label):
                continue
            for k in range(0, 1 if label in VOID_LABELS else n):
                for kids in build(k, label, False):
                    for rest in build(n - 1 - k, parent, False):
                        yield ((label, kids),) + rest
    return build(size, parent, False)


def forests_upto(size, *a, **kw):
    for n in range(1, size + 1):
        yield from forests(n, *a, **kw)


def product_dicts(**axes):
    keys = list(axes)
    for values in itertools.product(*axes.values()):
        yield dict(zip(keys, values))


def words(lengths, letters='abcdefghijklmnopqrstuvwxyz'):
    """Words of the given lengths, each of distinguishable letters."""
    it = itertools.cycle(letters)
    return [''.join(next(it) for _ in range(n)) for n in lengths]


def number_texts(forest, spec, texts, counter=None):
    """
    Turn a forest of labels into a document: labels are looked up in `spec`
    (label -> (tag, attributes)), and the n-th leaf becomes the n-th text.
    """
    counter = counter if counter is not None else itertools.count()
    out = []
    for n in forest:
        if isinstance(n, str):
            out.append(texts(next(counter), n))
        else:
            tag, attrs = spec.get(n[0], (n[0], {})) if spec else (n[0], {})
            out.append([tag, dict(attrs), number_texts(n[1], spec, texts, counter)])
    return out


def ref_check(case):
    """Oracle: the output is exactly that of the reference renderer."""
    import ref
    cfg, nodes = case
    source = to_html(nodes)
    out = render_html(source, cfg)
    expect_equal(out, ref.render(nodes, cfg), source, cfg)
    return out


BLOCK_LABELS = ['p', 'div', 'blockquote', 'ul', 'ol', 'li', 'dl', 'dt', 'dd', 'h1', 'h3', 'pre', 'section']
INLINE_LABELS = ['b', 'em', 'u', 'del', 'code', 'span', 'x-y', 'a', 'img', 'br']
LINKS = {'a': ('a', {'href': '/1.txt'}), 'img': ('img', {'src': '/2.png', 'alt': ''})}


content_model = None


def machine(tokens):
    """
    The stack machine that tags are supposed to drive. Tokens are 'T:text',
    'O:tag' (start), 'C:tag' (end), 'S:tag' (written <tag/>). Returns the tree.
    """
    root = []
    stack = [(None, root)]
    for t in tokens:
        kind, value = t.split(':', 1)
        if kind == 'T':
            stack[-1][1].append(value)
        elif kind in 'OS':
            node = [value, dict(ATTRS.get(value, {})), []]
            stack[-1][1].append(node)
            if value not in VOID:
                stack.append((value, node[2]))
                if kind == 'S':
                    stack.pop()
        elif value not in VOID and stack[-1][0] == value:
            stack.pop()
    return root


ATTRS = {'a': {'href': '/1'}, 'img': {'src': '/2'}}


def tokens_to_html(tokens):
    out = ''
    for t in tokens:
        kind, value = t.split(':', 1)
        if kind == 'T':
            out += html.escape(value, quote=False)
        elif kind == 'C':
            out += '</{}>'.format(value)
        else:
            out += '<{}{}{}>'.format(value, ''.join(' {}="{}"'.format(*i) for i in ATTRS.get(value, {}).items()), '/' if kind == 'S' else '')
    return out
