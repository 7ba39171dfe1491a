"""
The reference renderer: what a document should look like, written from the
properties, as plainly as possible. It shares no code with gopher_render, and
uses the standard library's textwrap. It covers documents without ANSI codes.
"""
import ipaddress
import re
import textwrap
import unicodedata

BLOCKS = set('''address article aside blockquote body caption dd details dialog div dl dt fieldset figcaption figure
footer form h1 h2 h3 h4 h5 h6 head header hr html li main nav ol p pre section summary table tbody td tfoot th thead
title tr ul'''.split())
VOID = set('area base br col embed hr img input link meta source track wbr'.split())



def split_lines(s, keepends=False):
    # Only line breaks end lines
    lines = re.findall('[^\r\n]*(?:\r\n|\r|\n)|[^\r\n]+', s)
    return lines if keepends else [l.rstrip('\r\n') for l in lines]


TEXT = dict(initial_indent=0, subsequent_indent=0, justification='left', capitalized=False,
            fix_sentence_endings=True, break_long_words=True)
BLOCK = dict(border=['', '', '', ''], margin=[0, 0, 0, 0], padding=[0, 0, 0, 0])

# kind -> default settings
KINDS = {
    'Renderer': {},
    'NonRenderer': {},
    'InlineRenderer': dict(template='{}', capitalized=False),
    'EmRenderer': dict(template='_{}_', capitalized=False),
    'StrongRenderer': dict(template='**{}**', capitalized=False),
    'UnderlineRenderer': dict(template='_{}_', capitalized=False),
    'StrikethroughRenderer': dict(template='~~{}~~', capitalized=False),
    'BreakRenderer': dict(template='{}', capitalized=False),
    'CodeRenderer': dict(block_template='```\n{}\n```\n', inline_template='`{}`'),
    'LinkRenderer': dict(capitalized=False, reference='[{content}][{n}]', inline='[{content}]({href})',
                         inline_title='[{content}]({href} "{title}")'),
    'ImageRenderer': dict(reference='[{title}][{n}]', inline='![{title}]({href})'),
    'BlockRenderer': dict(BLOCK),
    'ListRenderer': dict(BLOCK, margin=[1, 0, 1, 0]),
    'DefinitionListRenderer': dict(BLOCK, margin=[1, 0, 1, 0]),
    'HeaderRenderer': dict(BLOCK, margin=[1, 0, 1, 0], template='{}', capitalized=False, spread=0, spread_char=' ',
                           centered=False, underlined=False, underline_char='=', underline_full=False),
    'MarkdownHeaderRenderer': dict(BLOCK, margin=[1, 0, 1, 0], template='{}', capitalized=False, spread=0, spread_char=' ',
                                   centered=False, underlined=False, underline_char='=', underline_full=False),
    'DefinitionListTermHeaderRenderer': dict(BLOCK, margin=[2, 0, 0, 0], template='{}', capitalized=False, spread=0,
                                             spread_char=' ', centered=False, underlined=False, underline_char='=',
                                             underline_full=False),
    'ParagraphRenderer': dict(BLOCK, **TEXT, margin=[1, 0, 1, 0], line_template='{}', skip_for_code_or_pre=True),
    'BlockQuoteRenderer': dict(BLOCK, margin=[1, 0, 1, 0], line_template='> {}'),
    'PreRenderer': dict(BLOCK, margin=[1, 0, 1, 0], line_template='{}', indent=4),
    'ListItemRenderer': dict(BLOCK, **TEXT, margin=[1, 0, 0, 0], line_template='* {}'),
    'OrderedListItemRenderer': dict(BLOCK, **TEXT, margin=[1, 0, 0, 0], line_template='{0}. {1}', start_index=1, step=1),
    'DefinitionListItemRenderer': dict(BLOCK, **TEXT, margin=[1, 0, 0, 0], line_template=': {}'),
}

INLINE_KINDS = {k for k in KINDS if 'template' in KINDS[k] and 'border' not in KINDS[k]} | {
    'CodeRenderer', 'LinkRenderer', 'ImageRenderer'}

PLAIN_KINDS = {'Renderer', 'NonRenderer'}   # neither inline nor block

TAGS = dict(
    h1='MarkdownHeaderRenderer', h2='MarkdownHeaderRenderer', h3='MarkdownHeaderRenderer', h4='MarkdownHeaderRenderer',
    h5='MarkdownHeaderRenderer', h6='MarkdownHeaderRenderer', p='ParagraphRenderer', br='BreakRenderer',
    blockquote='BlockQuoteRenderer', pre='PreRenderer', div='BlockRenderer', ul='ListRenderer', ol='ListRenderer',
    li='ListItemRenderer', dl='DefinitionListRenderer', dt='DefinitionListTermHeaderRenderer',
    dd='DefinitionListItemRenderer', code='CodeRenderer', a='LinkRenderer', img='ImageRenderer', em='EmRenderer',
    strong='StrongRenderer', i='EmRenderer', b='StrongRenderer', u='UnderlineRenderer', ins='UnderlineRenderer',
    s='StrikethroughRenderer', span='InlineRenderer')
TAGS['del'] = 'StrikethroughRenderer'

DEFAULTS = dict(width=67, margin=[0, 0, 0, 0], fmt='text', link='footer', img='inline', host='', port=70, optimise=True)


class Node:
    def __init__(self, tag, attrs=None, parent=None, text=None):
        self.tag, self.parent, self.text = tag, parent, text
        self.attrs = attrs or {}
        self.children = []
        self.number = None      # of a link that is not inline
        self.links = []         # links placed at the end of this block
        self.following = []     # gophermap: links placed after this block

    def elements(self):
        return [c for c in self.children if c.tag is not None]


class Box:
    """Only two numbers: the room that is left for the content, and that of the parent."""

    def __init__(self, width, s=None, parent=None):
        if s is None:
            self.room = width
            return
        border = [len(b) for b in s['border']]
        self.margin, self.padding, self.border = s['margin'], s['padding'], s['border']  # (strings)
        self.prefix = len(s['line_template'].format('')) if s.get('line_template') else 0
        # Room inside of the borders and paddings, for the prefix and the text
        self.inside = parent.room - sum(s['margin'][i] + s['padding'][i] + border[i] for i in (1, 3))
        self.room = self.inside - self.prefix


def build(nodes, cfg):
    """The document tree, with whitespace normalised and links numbered."""
    root = Node('#document')
    counter = [0]
    root.footer = []

    def add(parent, nodes, in_pre, blocks):
        for n in nodes:
            if isinstance(n, str):
                if n == '':
                    continue
                if parent.children and parent.children[-1].tag is None:
                    parent.children[-1].text += n
                else:
                    parent.children.append(Node(None, parent=parent, text=n))
                    parent.children[-1].pre = in_pre
                continue
            tag, attrs, children = n
            node = Node(tag, attrs, parent)
            parent.children.append(node)
            if tag in ('a', 'img'):
                node.title = attrs.get('title' if tag == 'a' else 'alt')
                node.href = attrs.get('href' if tag == 'a' else 'src')
                if tag == 'img' and node.href is None:
                    node.href = ''
                if node.title is not None:
                    node.title = ' '.join(node.title.split())
                if node.href is not None:
                    node.href = re.sub('[\t\r\n]', '', node.href.strip())
                placement = cfg['link' if tag == 'a' else 'img']
                if node.href is None:
                    placement = 'inline'
                if placement != 'inline':
                    counter[0] += 1
                    node.number = counter[0]
                if placement == 'footer':
                    root.footer.append(node)
                elif placement == 'after_block':
                    if cfg['fmt'] == 'gophermap' and blocks:
                        top = node
                        while top.parent is not root:
                            top = top.parent
                        top.following.append(node)
                    else:
                        (blocks[-1] if blocks else root).links.append(node)
            add(node, [] if tag in VOID else children, in_pre or tag == 'pre', blocks + [node] if tag in BLOCKS else blocks)

    def tidy(parent):
        kids = parent.children
        keep = []
        for i, c in enumerate(kids):
            if c.tag is not None:
                tidy(c)
            elif c.pre:
                if cfg['fmt'] == 'gophermap':
                    c.text = c.text.expandtabs()
            else:
                c.text = re.sub('[ \t\r\n]+', ' ', c.text)
                if parent is root or parent.tag in BLOCKS:
                    if i == 0 or kids[i - 1].tag in BLOCKS | {'br'}:
                        c.text = c.text.lstrip(' ')
                    if i == len(kids) - 1 or kids[i + 1].tag in BLOCKS | {'br'}:
                        c.text = c.text.rstrip(' ')
                    if c.text == '':
                        continue
            keep.append(c)
        parent.children = keep

    add(root, nodes, False, [])
    tidy(root)
    return root


def resolve(node, cfg):
    """The kind of renderer and the settings of an element."""
    over = cfg.get('renderers', {})
    parent = node.parent
    elements = parent.elements()
    first, last = elements[0] is node, elements[-1] is node
    # (specificity, order) are those of the default rules; `renderers` may only have type selectors
    kind, settings = 'Renderer', {}
    if '' in over:
        kind, settings = unpack(over[''], kind, settings)
    value = over.get(node.tag, TAGS.get(node.tag))
    if value is not None:
        kind, settings = unpack(value, kind, settings)
    if node.tag == 'li' and parent.tag == 'ol':
        kind, settings = unpack(over.get('ol > li', 'OrderedListItemRenderer'), kind, settings)
    if node.tag in ('li', 'dt') and first:
        settings = dict(settings, margin=[0, 0, 0, 0])
    if node.tag == 'p' and parent.tag == 'blockquote' and (first or last):
        settings = dict(settings, margin=[0 if first else 1, 0, 0 if last else 1, 0])
    return kind, dict(KINDS[kind], **settings)


def unpack(value, kind, settings):
    if isinstance(value, str):
        return value, settings
    return value[0] or kind, dict(settings, **value[1])


# ------------------------------------------------------------------ text layout

def wrap_line(text, width, s):
    options = {k: s[k] for k in ('fix_sentence_endings', 'break_long_words', 'break_on_hyphens', 'drop_whitespace',
                                 'replace_whitespace', 'expand_tabs', 'tabsize') if k in s}
    return textwrap.wrap(text, width, initial_indent=' ' * s['initial_indent'], subsequent_indent=' ' * s['subsequent_indent'], **options)


def centre(line, width):
    pad = max(width - len(line), 0)
    left = pad // 2 + (pad & width & 1)
    return ' ' * left + line + ' ' * (pad - left)


def spread_out(line, width):
    """Full justification of one line."""
    body = line.lstrip()
    indent = len(line) - len(body)
    words = body.rstrip().split(' ')
    missing = width - len(line)
    gaps = len(words) - 1
    if missing <= 0 or gaps == 0:
        return line
    out = ' ' * indent + words[0]
    for i, w in enumerate(words[1:]):
        out += ' ' * (1 + missing // gaps + (1 if i < missing % gaps else 0)) + w
    return out


def justify(text, width, s):
    """The lines of a paragraph."""
    if s['justification'] == 'none' or width < 1:  # (no room: not wrapped)
        return [text]
    lines = wrap_line(text, width, s)
    how = s['justification']
    if how == 'right':
        lines = [' ' * (width - len(l)) + l for l in lines]
    elif how == 'center':
        lines = [centre(l, width) for l in lines]
    elif how == 'full':
        lines = [spread_out(l, width) for l in lines[:-1]] + lines[-1:]
    return lines or ['']


def block_box(lines, box):
    """Borders, padding and margins around lines."""
    b, p, m = box.border, box.padding, box.margin
    width = box.inside + p[1] + p[3]
    empty = b[3] + ' ' * width + b[1]
    full = width + len(b[1]) + len(b[3])
    out = [b[3] + ' ' * p[3] + l + ' ' * (width - p[3] - len(l)) + b[1] for l in lines]
    out = [c * full for c in b[0]] + [empty] * p[0] + out + [empty] * p[2] + [c * full for c in b[2]]
    # (an element without any width can end in a line without characters, which is not indented)
    out = [' ' * m[3] + l for l in out[:-1]] + [' ' * m[3] + l if l else '' for l in out[-1:]]
    return '\n' * m[0] + '\n'.join(out) + '\n' * m[2]


# --------------------------------------------------------------------- elements

def is_block(node, cfg):
    if node.tag is None:
        return False
    kind = resolve(node, cfg)[0]
    if kind in INLINE_KINDS:
        return False
    if kind in PLAIN_KINDS:
        return node.tag in BLOCKS
    return True


def join(parts):
    """Concatenate rendered nodes so that every block is on lines of its own."""
    out = []
    pending_break = False
    for text, block in parts:
        if text == '':
            pending_break = pending_break or block
            continue
        if out and (block or pending_break) and out[-1][-1] != '\n' and text[0] != '\n':
            out.append('\n')
        out.append(text)
        pending_break = block
    return ''.join(out)


def content_of(node, box, cfg):
    return join([(render_node(c, box, cfg), is_block(c, cfg)) for c in node.children])


def upper(s, on):
    return s.upper() if on else s


def render_node(node, box, cfg):
    if node.tag is None:
        return node.text
    kind, s = resolve(node, cfg)
    outer = box
    if kind == 'OrderedListItemRenderer':
        s = dict(s, line_template=ordinal_template(node, s))
    if 'border' in s:
        box = Box(None, s, outer)
    elif kind in BOXES:
        box = BOXES[kind](outer)
    content = content_of(node, box, cfg)
    if node.links and cfg.get('listed', True):
        content += '\n' + ''.join(link_entry(l, box, cfg) for l in node.links)
    out = ELEMENTS[kind](node, content, s, box, cfg)
    if node.following and cfg.get('listed', True):
        if not out.endswith('\n'):
            out += '\n'
        out += ''.join(link_entry(l, outer, cfg) for l in node.following)
    return out


def plain(node, content, s, box, cfg):
    return content


def nothing(node, content, s, box, cfg):
    return ''


def inline(node, content, s, box, cfg):
    return s['template'].format(upper(content, s['capitalized']))


def line_break(node, content, s, box, cfg):
    return s['template'].format('\n')


def code(node, content, s, box, cfg):
    if node.parent.tag == 'pre':
        return content
    return s['block_template' if '\n' in content else 'inline_template'].format(content)


def block(node, content, s, box, cfg):
    return block_box(content.split('\n'), box)


def heading(node, content, s, box, cfg):
    text = upper(content, s['capitalized'])
    if s['spread'] > 0:
        text = (s['spread_char'] * s['spread']).join(text)
    template = s['template']
    if resolve(node, cfg)[0] == 'MarkdownHeaderRenderer':
        template = '#' * int(node.tag[1]) + ' {} ' + '#' * int(node.tag[1])
    text = template.format(text)
    lines = [text]
    if s['underlined']:
        lines.append(s['underline_char'] * (box.inside if s['underline_full'] else len(text)))
    if s['centered'] and box.inside:
        lines = [centre(l, box.inside) for l in lines]
    return block_box('\n'.join(lines).split('\n'), box)


def paragraph(node, content, s, box, cfg):
    if s['skip_for_code_or_pre'] and [c.tag for c in node.children] in (['code'], ['pre']):
        return block_box(content.split('\n'), box)
    lines = []
    for l in upper(content, s['capitalized']).split('\n'):
        lines += justify(l.strip(), box.room, s)
    return block_box([s['line_template'].format(l) for l in lines], box)


def item(node, content, s, box, cfg):
    lines = []
    for l in upper(content, s['capitalized']).strip('\n').split('\n'):
        lines += justify(l.rstrip(), box.room, s)
    lines = [s['line_template'].format(lines[0])] + [' ' * box.prefix + l for l in lines[1:]]
    return block_box(lines, box)


def ordinal_template(node, s):
    items = [c for c in node.parent.elements() if c.tag == node.tag]
    return s['line_template'].format(s['start_index'] + s['step'] * items.index(node), '{}')


def quote(node, content, s, box, cfg):
    return block_box([s['line_template'].format(l) for l in split_lines(content)] or [''], box)


def preformatted(node, content, s, box, cfg):
    return block_box([' ' * s['indent'] + s['line_template'].format(l) for l in split_lines(content)] or [''], box)


def link(node, content, s, box, cfg):
    content = upper(content, s['capitalized'])
    if node.href is None:
        return content
    if cfg['link'] == 'inline':
        return s['inline_title' if node.title else 'inline'].format(content=content, href=node.href, title=node.title)
    return s['reference'].format(content=content, n=node.number)


def image(node, content, s, box, cfg):
    title = node.title or 'Image'
    return s['inline' if cfg['img'] == 'inline' else 'reference'].format(title=title, href=node.href, n=node.number)


ELEMENTS = {
    'Renderer': plain, 'NonRenderer': nothing, 'InlineRenderer': inline, 'EmRenderer': inline, 'StrongRenderer': inline,
    'UnderlineRenderer': inline, 'StrikethroughRenderer': inline, 'BreakRenderer': line_break, 'CodeRenderer': code,
    'LinkRenderer': link, 'ImageRenderer': image, 'BlockRenderer': block, 'ListRenderer': block,
    'DefinitionListRenderer': block, 'HeaderRenderer': heading, 'MarkdownHeaderRenderer': heading,
    'DefinitionListTermHeaderRenderer': heading, 'ParagraphRenderer': paragraph, 'BlockQuoteRenderer': quote,
    'PreRenderer': preformatted, 'ListItemRenderer': item, 'OrderedListItemRenderer': item,
    'DefinitionListItemRenderer': item,
}


BOXES = {}      # kinds that are not blocks and yet have a box: outer box -> box
ENTRIES = {}    # kinds of entries for links: (node, content, cfg) -> text


# ------------------------------------------------------------------------ links

LINK_DEFAULTS = dict(templates=['\n[{link_reference}] {description}: {href}', '\n[{link_reference}] {description}: {href} "{title}"'],
                     gophermap_template='{type}[{link_reference}] {description}\t{selector}\t{host}\t{port}\n', max_link_description=10)


def trim(text, limit):
    return text[:limit] + '...' if len(text) > limit else text


def link_entry(node, box, cfg):
    given = cfg.get('extracted', {}).get(node.tag, [None, {}])
    if isinstance(given, str):
        given = [given, {}]
    if given[0] in ENTRIES:
        return ENTRIES[given[0]](node, content_of(node, box, dict(cfg, listed=False)), cfg)
    s = dict(LINK_DEFAULTS, **BLOCK)
    if given[0] == 'NonRenderer':
        return ''
    s.update(given[1])
    inner = Box(None, s, box)
    if node.tag == 'a':
        # (the links listed in a block in a link are not part of its description)
        text = ' '.join(content_of(node, inner, dict(cfg, listed=False)).split())
        description = trim(text, s['max_link_description'])
        title = node.title
        gopher_description = node.title if node.title is not None else description
    else:
        full = node.title or 'Image'
        description = gopher_description = trim(full, s['max_link_description'])
        title = full if description != full else None
    if cfg['fmt'] == 'gophermap':
        type_, selector, host, port = gopher_link(node.href, cfg)
        line = s['gophermap_template'].format(type=type_, link_reference=node.number, description=gopher_description, selector=selector,
                                              host=host, port=port)
        return '\n' * s['margin'][0] + line + '\n' * s['margin'][2]
    text = s['templates'][1 if title else 0].format(link_reference=node.number, description=description, href=node.href, title=title)
    return block_box(text.split('\n'), inner)


def gopher_type(path):
    segment = path[path.rfind('/') + 1:].lower()
    if '.' not in segment[1:]:
        return '1'
    ext = segment[segment.rfind('.') + 1:]
    if ext == '':
        return '1'
    for t, exts in (('h', 'html htm'), ('g', 'gif'), ('I', 'jpg jpeg png bmp tiff'), ('0', 'txt csv tsv md')):
        if ext in exts.split():
            return t
    return '9'


def gopher_link(href, cfg):
    """(type, selector, host, port) for an address."""
    web = ('h', 'URL:' + href, cfg['host'], cfg['port'])
    # Appendix B of RFC 3986 (but what is before a colon is no scheme unless it has the form of one)
    scheme, authority, path = re.match(r'(?:([A-Za-z][A-Za-z0-9+.-]*):)?(//[^/?#]*)?([^?#]*)', href).groups()
    host = port = None
    if authority is not None:
        authority = authority[2:]
        # Characters that are compatible with delimiters (fullwidth slashes and the like)
        if set(unicodedata.normalize('NFKC', ''.join(c for c in authority if not c.isascii()))) & set('/?#@:'):
            return web
        brackets = re.sub('[^][]', '', authority)
        if brackets not in ('', '[]'):
            return web
        place = authority[authority.rfind('@') + 1:]
        if brackets:
            m = re.fullmatch(r'\[(.*)\](?::(.*))?', place)
            if not m or not is_ipv6(m.group(1)):
                return web
            host, port = m.groups()
        else:
            host, _, port = place.partition(':')
        if port and not (port.isascii() and port.isdigit() and int(port) <= 65535):
            return web
    scheme = (scheme or '').lower()
    if scheme == 'gopher':
        if not host:
            return web
        return gopher_type(path), path, host.lower(), int(port) if port else 70
    if scheme == '':
        return gopher_type(path), path, cfg['host'], cfg['port']
    return web


def is_ipv6(s):
    try:
        ipaddress.IPv6Address(s)
        return True
    except ValueError:
        return False


# --------------------------------------------------------------------- document

def render(nodes, config={}):
    cfg = dict(DEFAULTS, **config)
    root = build(nodes, cfg)
    m = cfg['margin']
    box = Box(cfg['width'] - m[1] - m[3])
    out = content_of(root, box, cfg)
    for links in (root.links, root.footer):
        if links:
            out += '\n' + ''.join(link_entry(l, box, cfg) for l in links)
    lines = split_lines(out, True)
    lines = [l if cfg['fmt'] == 'gophermap' and '\t' in l else ' ' * m[3] + l for l in lines]
    out = '\n' * m[0] + ''.join(lines) + '\n' * m[2]
    if cfg['optimise']:
        out = '\n'.join(l.rstrip() for l in out.split('\n'))
    return out
