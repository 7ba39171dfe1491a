"""The seeded changes, from which tools/plant.py makes seeded/*."""
BUGS = []
P, R, S, T, N, C = '_parser.py', 'rendering.py', '_selectors.py', '_textwrap.py', '_namedict.py', 'cli.py'


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


bug('c01-link-two-steps', 'C01', [(R, '''            return settings.templates["reference"].format(
                content=capitalize_func(super().render(content)),
                link_reference=self.context["link_reference"]
            )


class ExtractedLinkRenderer''', '''            template = settings.templates["reference"].format(
                content=capitalize_func(super().render(content)),
                link_reference="{reference}"
            )
            return template.format(reference=self.context["link_reference"])


class ExtractedLinkRenderer''')], r'''
expect(render('<p><a href="/x">plain</a></p>').split('\n')[1], '[plain][1]')
expect(render('<p><a href="/x">a {{b}} c</a></p>').split('\n')[1], '[a {{b}} c][1]')
''', 'a link that is placed by reference and whose text contains braces',
    'the text of the link is itself taken for a template: doubled braces lose half, single ones raise an exception')

bug('c01-three-lines', 'C01', [(P, '''                if len(data_split) > 2:
                    data_stripped''', '''                if len(data_split) > 3:
                    data_stripped''')], r'''
expect(render('<p>one\ntwo</p>').split(), ['one', 'two'])
expect(render('<p>one\ntwo\nthree\nfour</p>').split(), ['one', 'two', 'three', 'four'])
expect(render('<p>one\ntwo\nthree</p>').split(), ['one', 'two', 'three'])
''', 'a text that is on exactly three source lines', 'the middle line of three is lost')

bug('c02-right-padding', 'C02', [(R, 'self.padding[BoxSide.RIGHT] + parent.total_padding[BoxSide.RIGHT]', 'self.padding[BoxSide.RIGHT] + parent.padding[BoxSide.RIGHT]')], r'''
box = {'div': (BlockRenderer, dict(padding=[0, 5, 0, 0]))}
out = render('<div><div><div><p>aaaa bbbb cccc</p></div></div></div>', width=23, renderers=box)
expect([l for l in out.split('\n') if l.strip()], ['aaaa', 'bbbb', 'cccc'])
''', 'blocks with padding on the right, nested at least three deep',
    'only the padding of the block and of its parent is taken off the width, so lines get wider than their element')

bug('c02-prefix-two-levels', 'C02', [(R, 'self.line_template_padding + parent.total_line_template_padding', 'self.line_template_padding + parent.line_template_padding')], r'''
q = '<blockquote>'
e = '</blockquote>'
out = render(q * 3 + '<p>aaaa bbbb cccc dddd</p>' + e * 3, width=16)
expect(max(len(l) for l in out.split('\n')) <= 16, True)
''', 'three levels of line prefixes (quotations or lists in one another)', 'the outermost prefix is not taken off the width, so that lines are too long')

bug('c02-long-word-exact', 'C02', [(T, '''            if chunks and _len(chunks[-1]) > width:
                self''', '''            if chunks and _len(chunks[-1]) >= width:
                self''')], r'''
expect(render('<p>ab cdefghij kl</p>', width=8).split('\n')[1:4], ['ab', 'cdefghij', 'kl'])
''', 'a word that is exactly as long as the width, and not the first of its line', 'the word is broken although it fits on a line of its own')

bug('c03-long-codes', 'C03', [(T, '''    [;\\d]*   # zero or more digits or semicolons''', '''    \\d*(?:;\\d+){0,3}   # the parameters''')], r'''
st = {'b': (AnsiEscapeCodeRenderer, dict(foreground_colour='#ff8000'))}
import re
plain = render('<p>one two three four</p>', width=12)
styled = render('<p>one <b>two</b> three four</p>', width=12, renderers=st)
expect(re.sub('\x1b\\[[0-9;]*m', '', styled), plain)
''', 'styling with a colour given as red, green and blue, whose escape codes have five parameters', 'the escape codes count as visible text, so that styled text is wrapped too early')

bug('c04-break-in-inline', 'C04', [(R, """            j = justify_func(chunk.strip(), width, **justify_args)
""", """            j = justify_func(chunk.rstrip(), width, **justify_args)
""")], r"""
expect(render('<p>a <span>b<br></span> c</p>'), render('<p>a <span>b<br></span>c</p>'))
""", 'whitespace after an inline element that ends with a line break', 'the line starts with a space')

bug('c05-trailing-blank', 'C05', [(R, '''                )
            )
        return "\\n".join(formatted)
''', '''                )
            )
        while len(formatted) > 1 and formatted[-1].strip() == "":
            formatted.pop()
        return "\\n".join(line for line in formatted)
''')], r'''
expect(render('<pre>a\n\n\nb</pre>').split('\n'), ['', '    a', '', '', '    b', ''])
expect(render('<pre>a\n\n\n</pre><p>b</p>').split('\n'), ['', '    a', '', '', '', 'b', ''])
''', 'preformatted text that ends with blank lines', 'blank lines at the end of preformatted text are lost')

bug('c05-tabs', 'C05', [(R, '''                    settings.line_template.format(line)
                )
            )''', '''                    settings.line_template.format(line.expandtabs())
                )
            )''')], r'''
expect(render('<pre>a\tb\n\tc</pre>'), '\n    a\tb\n    \tc\n')
''', 'tabs in preformatted text in text output', 'tabs come out as spaces')

COMMENTED = '''        # Ignore any whitespace data on its own, unless in a pre tag
        # Pretty printed html includes a lot of this.
        # Removing ths because it removes significant whitespace between
        # adjacent tags... But I'm not convinced that pretty printing whitespace
        # won't be an issue.
        # if not self._in_pre:
        #     if len(data) == 0 or data.isspace():
        #         return
'''
PIECES = r'''
def pieces(*ps):
    p = GopherHTMLParser()
    for x in ps:
        p.feed(x)
    p.close()
    return p.parsed


'''
bug('c06-whitespace-piece', 'C06', [(P, COMMENTED, '''        # Whitespace on its own is never more than one space, unless in a pre tag.
        # Pretty printed html includes a lot of this.
        if data.isspace() and not self._in_pre():
            data = ' '
''')], PIECES + r'''
expect(pieces('<p>a', ' \n', 'b</p>'), pieces('<p>a \nb</p>'))
expect(pieces('<p>a', '&nbsp;', 'b</p>'), pieces('<p>a&nbsp;b</p>'))
''', 'a non-breaking space that arrives on its own, because the document is cut before and after it', 'the non-breaking space turns into a plain one, depending on how the document is cut')

bug('c06-leading-whitespace', 'C06', [(P, COMMENTED, '''        # Ignore any whitespace data on its own at the start of a tag, unless in
        # a pre tag. Pretty printed html includes a lot of this.
        if data.isspace() and not self._in_pre():
            if len((self._get_top() or self.tree).children) == 0:
                return
''')], PIECES + r'''
expect(pieces('<p>a<b>', ' ', 'b</b></p>'), pieces('<p>a<b> b</b></p>'))
''', 'the whitespace at the start of an inline element arriving apart from the text that follows it', 'the space between two words is lost if the document is cut after it')

bug('c07-open-tags', 'C07', [(P, '''        self.parsed = ""
        self._tag_stack = []
        self.tree = DocumentParser()
        self._next''', '''        self.parsed = ""
        self._tag_stack = self._tag_stack[:0] if self._parsed else self._tag_stack
        self.tree = DocumentParser()
        self._next'''), (P, '''        self._parsed = []
        self.parsed = ""
        self._tag_stack = []
        self.tree = DocumentParser()
        #''', '''        self._parsed = []
        self.parsed = ""
        self.tree = DocumentParser()
        #''')], '', '', '')
BUGS.pop()
bug('c07-footer', 'C07', [(P, '''            for l in self._footer_pending_links:
                self._parsed.append(l.link_render(self._box))
''', '''            for l in self._footer_pending_links:
                self._parsed.append(l.link_render(self._box))
            # All of them are listed now
            self._footer_pending_links = []
            self._next_link_number = 1
'''), (P, '''        self.tree = DocumentParser()
        self._next_link_number = 1
        self._footer_pending_links = []
''', '''        self.tree = DocumentParser()
'''), (P, '''        super().__init__(convert_charrefs=True)
''', '''        self._next_link_number = 1
        self._footer_pending_links = []
        super().__init__(convert_charrefs=True)
'''), (P, '''        self._next_link_number = 1
        self._footer_pending_links = []
        self._optimise = optimise
''', '''        self._optimise = optimise
''')], r'''
p = GopherHTMLParser()
for n in range(2):
    p.feed('<p><a href="/x">x</a></p>')
    p.close()
    expect(p.parsed, '\n[x][1]\n\n\n[1] x: /x')
    p.reset()
p.feed('<p><a href="/y">y</a>')
p.reset()
p.feed('<p><a href="/x">x</a></p>')
p.close()
expect(p.parsed, '\n[x][1]\n\n\n[1] x: /x')
''', 'a reset without a close, after a link was fed (or two calls of close)', 'links of the abandoned document are listed in the next one, which goes on counting')

bug('c08-shared-margins', 'C08', [(R, '''        self.total_margin = margin[:]''', '''        self.total_margin = margin'''), (R, '''        self.margin = margin[:]''', '''        self.margin = list(margin)''')], r'''
m = [0, 0, 0, 2]
renderers = {'div': (BlockRenderer, dict(margin=m))}
render('<div><div>x</div></div>', renderers=renderers)
expect(m, [0, 0, 0, 2])
''', 'blocks with a left margin inside blocks with a left margin', 'the list of margins in the settings that were passed in (or the defaults of the renderer) is added to by every rendering')

bug('c08-extracted-mapping', 'C08', [(P, '''        self.extracted_link_renderers = {
            'a': ExtractedLinkRenderer,
            'img': ExtractedImageLinkRenderer,
        }
        self.extracted_link_renderers.update(extracted_link_renderers)
''', '''        self.extracted_link_renderers = extracted_link_renderers
        self.extracted_link_renderers.setdefault('a', ExtractedLinkRenderer)
        self.extracted_link_renderers.setdefault('img', ExtractedImageLinkRenderer)
''')], r'''
e = {'a.x': ExtractedLinkRenderer}
GopherHTMLParser(extracted_link_renderers=e)
expect(list(e), ['a.x'])
''', 'the mapping of extracted link renderers that was passed being looked at, or reused', 'the defaults are added to the mapping that the caller passed')

bug('c08-settings-cache', 'C08', [(R, '''        s = namedict()
        all_classes = inspect.getmro(cls)''', '''        s = cls.settings if len(vars(cls)['settings']) > 8 else namedict()
        all_classes = inspect.getmro(cls)''')], '', '', '')
BUGS.pop()

bug('c09-close-ancestor', 'C09', [(P, '''        if top.tag == tag:
            top.closed = True
        else:
            # TODO: Consider instead just accepting mismatched tags and closing the top tag?
''', '''        if top.tag == tag:
            top.closed = True
        elif len(self._tag_stack) > 2 and self._tag_stack[-2].tag == tag:
            # The end tag of the top tag was left out, so close both
            self._tag_stack.pop()
            self._tag_stack[-1].closed = True
            top = self._tag_stack[-1]
        else:
''')], r'''
expect(render('<div><p>a<b>b</p>c</b>d</p></div>e', width=67).split(), 'a**bc**d e'.split())
expect(render('<div><b>x<i>y</b>z</i></b></div>').split(), ['**x_yz_**'])
''', 'an end tag that matches the parent of the innermost open element, three elements deep', 'the end tag of the wrong element closes elements, so that what follows moves out of them')

bug('c09-unclosed-root', 'C09', [(P, '''            if t.parent is None:
                self.tree.append(t)
''', '''            if t.parent is self.tree and not t.closed and t is not self.tree.children[-1]:
                self.tree.append(t)
''')], '', '', '')
BUGS.pop()

bug('c10-first-ancestor', 'C10', [(S, '''    if _selector_matches(tag.parent, selector):
        return True
    return _any_ancestor_matches(tag.parent, selector)
''', '''    if _selector_matches(tag.parent, getattr(selector, 'subselector', selector)):
        # The nearest candidate decides
        return _selector_matches(tag.parent, selector)
    return _any_ancestor_matches(tag.parent, selector)
''')], r'''
r = {'blockquote > div b': (InlineRenderer, dict(template='<{}>'))}
expect(render('<blockquote><div><b>x</b></div></blockquote>', renderers=r).split(), ['>', '<x>'])
expect(render('<blockquote><div><div><b>x</b></div></div></blockquote>', renderers=r).split(), ['>', '<x>'])
''', 'a descendant of a compound selector where the nearest ancestor of the right type is not the one that matches', 'elements that the selector matches are not matched, as only one ancestor is tried')

bug('c10-sibling-self', 'C10', [(S, '''    for sibling in tag.parent.tag_children():
        if sibling is tag:
            return False
        if _selector_matches(sibling, selector.selector):
            return True
    return False
''', '''    for sibling in tag.parent.tag_children():
        if _selector_matches(sibling, selector.selector):
            return sibling is not tag
        if sibling is tag:
            return False
    return False
''')], '', '', '')
BUGS.pop()

bug('c10-dash-match', 'C10', [(S, '''            split_val = attr_val.split()
            return value in split_val
''', '''            return re.search(r'(?<!\\S){}\\b'.format(re.escape(value)), attr_val) is not None
'''), (S, '''import cssselect
''', '''import re
import cssselect
''')], r'''
r = {'b[data~="one"]': (InlineRenderer, dict(template='<{}>'))}
expect(render('<p><b data="two one">x</b></p>', renderers=r).split(), ['<x>'])
expect(render('<p><b data="two one-way">x</b></p>', renderers=r).split(), ['**x**'])
''', 'an attribute in which the word that is looked for is followed by a hyphen', 'words that only begin with the one that is looked for are matched by ~=')

bug('c11-weights', 'C11', [(P, '''        all_matches.sort(key=lambda m: m[0])
''', '''        # The usual shorthand for the specificity
        all_matches.sort(key=lambda m: m[0][0] * 100 + m[0][1] * 10 + m[0][2])
''')], r'''
many = ''.join('.c%d' % n for n in range(11))
classes = ' '.join('c%d' % n for n in range(11))
r = {'#x': (InlineRenderer, dict(template='<{}>')), 'b' + many: (InlineRenderer, dict(template='({})'))}
expect(render('<p><b id="x" class="%s">x</b></p>' % classes, renderers=r).split(), ['<x>'])
''', 'a selector with more than ten classes (or types) in it', 'enough classes outrank an id')

bug('c11-last-of-list', 'C11', [(S, '''            if _more_specific(s.specificity(), best_specificity):
                matched = True
                best_specificity = s.specificity()
''', '''            matched = True
            best_specificity = s.specificity()
''')], r'''
r = {'b.x, b': (InlineRenderer, dict(template='<{}>')), 'p b': (InlineRenderer, dict(template='({})'))}
expect(render('<p><b class="x">x</b></p>', renderers=r).split(), ['<x>'])
''', 'a list of selectors of which several match, the most specific not being the last', 'the last matching part of the list decides on its specificity')

bug('c11-settings-of-renderers', 'C11', [(P, '''            if s is not None:
                renderer_settings.update(s)
''', '''            if s is not None:
                # What was set for another renderer does not apply to this one
                renderer_settings = dict(s) if r is not None else dict(renderer_settings, **s)
''')], r'''
r = {'p': (ParagraphRenderer, dict(capitalized=True)), 'div p': (ParagraphRenderer, dict(margin=[0, 0, 0, 0]))}
expect(render('<div><p>x</p></div>', renderers=r), 'X')
''', 'two matching entries that both have a renderer and settings', 'only the settings of the more specific one are used')

bug('c12-depth-first', 'C12', [(R, '''        all_classes = inspect.getmro(cls)
''', '''        all_classes = _lineage(cls)
'''), (R, '''class _RendererMeta(type):
    """
    This metaclass''', '''def _lineage(cls):
    """
    The class and all of its bases, nearest first.
    """
    classes = [cls]
    for base in cls.__bases__:
        classes.extend([c for c in _lineage(base) if c not in classes])
    return classes


class _RendererMeta(type):
    """
    This metaclass''')], r'''
class A(InlineRenderer):
    settings = dict(template='a{}')


class B(A):
    pass


class D(A):
    settings = dict(template='d{}')


class E(B, D):
    pass


expect(render('<p><b>x</b></p>', renderers={'b': E}).split(), ['dx'])
''', 'a renderer class whose two bases have a base in common (that one overrides)', 'settings are taken in the wrong order, those of the common base first')

bug('c12-attribute-list', 'C12', [(R, '''            s.update(klass.settings)

        instance''', '''            s.update(klass.settings)
        s = getattr(cls, '_combined', None) or s

        instance''')], '', '', '')
BUGS.pop()

bug('c12-last-base-only', 'C12', [(R, '''        for klass in all_classes[::-1]:
''', '''        for klass in sorted(all_classes, key=lambda c: len(c.__mro__)):
''')], r'''
class A(InlineRenderer):
    settings = dict(template='a{}')


class B(InlineRenderer):
    settings = dict(template='b{}')


class B2(B):
    pass


class C(A, B2):
    pass


expect(render('<p><b>x</b></p>', renderers={'b': C}).split(), ['ax'])
''', 'a renderer with two bases, the second of which has the longer line of ancestors', 'the settings of the second base override those of the first one')

bug('c13-title-and-truncated', 'C13', [(R, '''            if title:
                template = settings.templates[1]
                keywords["title"] = title
            return template.format(
                **keywords
            )

    def _outer_render(self, content):
        output_format = self.context['output_format']
        if output_format == "gophermap":
            # A left margin would not be acceptable for gophermap links, so only
            # apply the top and bottom margins, if any.
            box = self.box
            return "{}{}{}".format(
                '\\n' * box.margin[BoxSide.TOP],
                content,
                '\\n' * box.margin[BoxSide.BOTTOM],
            )
        return super()._outer_render(content)

    def render(self, content):
        output_format = self.context['output_format']
        if output_format == "gophermap":
            # A border would not be acceptable for gophermap links, so skip
            # that render step.
            return self._outer_render(
                self._inner_render(
                    content
                )
            )
        return super().render(content)


class ImageRenderer''', '''            if title and not title.startswith(content[:-3]):
                template = settings.templates[1]
                keywords["title"] = title
            return template.format(
                **keywords
            )

    def _outer_render(self, content):
        output_format = self.context['output_format']
        if output_format == "gophermap":
            # A left margin would not be acceptable for gophermap links, so only
            # apply the top and bottom margins, if any.
            box = self.box
            return "{}{}{}".format(
                '\\n' * box.margin[BoxSide.TOP],
                content,
                '\\n' * box.margin[BoxSide.BOTTOM],
            )
        return super()._outer_render(content)

    def render(self, content):
        output_format = self.context['output_format']
        if output_format == "gophermap":
            # A border would not be acceptable for gophermap links, so skip
            # that render step.
            return self._outer_render(
                self._inner_render(
                    content
                )
            )
        return super().render(content)


class ImageRenderer''')], r'''
expect(render('<p><a href="/x" title="Contents">text</a></p>').split('\n')[-1], '[1] text: /x "Contents"')
expect(render('<p><a href="/x" title="Text">Te</a></p>').split('\n')[-1], '[1] Te: /x "Text"')
expect(render('<p><a href="/x" title="Contents">C</a></p>').split('\n')[-1], '[1] C: /x "Contents"')
''', 'a link whose title begins with (all but three characters of) its text', 'the title of the link is not listed')

bug('c13-counted-by-list', 'C13', [(P, '''            if placement != 'inline':
                self._next_link_number += 1
''', '''            if placement == 'footer':
                self._next_link_number = len(self._footer_pending_links) + 1
            elif placement == 'after_block':
                self._next_link_number += 1
''')], r'''
out = render('<p><a href="/1">a</a><img src="/2"><a href="/3">c</a></p>', link_placement='footer', image_placement='after_block')
expect([n in out for n in ('[a][1]', '[Image][2]', '[c][3]')], [True] * 3)
out = render('<p><img src="/1"><a href="/2">a</a><a href="/3">c</a></p>', link_placement='footer', image_placement='after_block')
expect([n in out for n in ('[Image][1]', '[a][2]', '[c][3]')], [True] * 3)
''', 'links in the footer together with images after their blocks (or the other way round)', 'numbers are used twice')

bug('c14-decoded-selector', 'C14', [(P, '''                type=self._guess_type(parsed.path),
                selector=parsed.path,
                host=self._context['gopher_host'],
''', '''                type=self._guess_type(parsed.path),
                selector=unquote(parsed.path),
                host=self._context['gopher_host'],
'''), (P, '''from html.parser import HTMLParser
''', '''from html.parser import HTMLParser
from urllib.parse import unquote
''')], r'''
out = render('<p><a href="/a%09b">x</a></p>', output_format='gophermap', gopher_host='h')
expect([l.count('\t') for l in out.split('\n') if '\t' in l], [3])
''', 'an address with an encoded tab (or line break) in its path', 'the decoded tab makes the line have five fields')

bug('c14-link-margins', 'C14', [(R, '''            # A border would not be acceptable for gophermap links, so skip
            # that render step.
            return self._outer_render(
                self._inner_render(
                    content
                )
            )
        return super().render(content)


class ImageRenderer''', '''            # A border would not be acceptable for gophermap links, so skip
            # that render step.
            return super()._outer_render(
                self._inner_render(
                    content
                )
            )
        return super().render(content)


class ImageRenderer''')], r'''
out = render('<p><a href="/a">x</a></p>', output_format='gophermap', gopher_host='h', extracted_link_renderers={'a': (ExtractedLinkRenderer, dict(margin=[0, 0, 0, 2]))})
expect([l for l in out.split('\n') if '\t' in l], ['1[1] x\t/a\th\t70'])
''', 'extracted links that are configured to have a left margin, in gophermap output', 'the line of the link is indented, so that it has no valid type')

bug('c15-netloc', 'C15', [(P, '''                host=parsed.hostname,
''', '''                host=parsed.netloc.partition(':')[0],
''')], r'''
def fields(href):
    out = render('<p><a href="%s">x</a></p>' % href, output_format='gophermap', gopher_host='h')
    return [l for l in out.split('\n') if '\t' in l][0].split('\t')[1:]


expect(fields('gopher://example.org:7070/a'), ['/a', 'example.org', '7070'])
expect(fields('gopher://me@example.org/a'), ['/a', 'example.org', '70'])
expect(fields('gopher://[::1]/a'), ['/a', '::1', '70'])
''', 'a gopher address with a user name or a numeric (version 6) host', 'the host field is not a host')

bug('c15-html-prefix', 'C15', [(P, '''        elif p[2] in ("html", "htm"):
''', '''        elif p[2].startswith("htm"):
''')], r'''
def kind(href):
    out = render('<p><a href="%s">x</a></p>' % href, output_format='gophermap', gopher_host='h')
    return [l for l in out.split('\n') if '\t' in l][0][0]


expect([kind('/a.html'), kind('/a.htm'), kind('/a.htmlz')], ['h', 'h', '9'])
''', 'an extension that only begins like html', 'an archive gets the type of a web page')

bug('c16-zero', 'C16', [(R, '''            self.settings.start_index,
''', '''            self.settings.start_index or 1,
''')], r'''
expect(render('<ol><li>a</li><li>b</li></ol>', renderers={'ol > li': (OrderedListItemRenderer, dict(start_index=0))}).split(), ['0.', 'a', '1.', 'b'])
''', 'an ordered list that is configured to start from 0', 'it starts from 1')

bug('c16-hanging-plain', 'C16', [(R, '''        out = [template.format(just_split[0])]
        template_width = self.box.line_template_padding
        if len(just_split) > 1:
            out.extend(['{}{}'.format(' ' * template_width, line) for line in just_split[1:]])
        return "\\n".join(out)


class OrderedListItemRenderer''', '''        out = [template.format(just_split[0])]
        template_width = template.find('{')
        if len(just_split) > 1:
            out.extend(['{}{}'.format(' ' * template_width, line) for line in just_split[1:]])
        return "\\n".join(out)


class OrderedListItemRenderer''')], r'''
r = {'li': (ListItemRenderer, dict(line_template='[{}] '))}
expect(render('<ul><li>aaaa bbbb</li></ul>', width=9, renderers=r).split('\n')[1:3], ['[aaaa]', '   bbbb'])
''', 'a marker with something after the text of the item too', 'further lines are indented by less than the width of the marker')

bug('c17-lstrip', 'C17', [(R, '''            [template.format(line) for line in content_split]
        )


class ListRenderer''', '''            [template.format(line.lstrip() if index == 0 else line) for index, line in enumerate(content_split)]
        )


class ListRenderer''')], r'''
r = {'blockquote > p:first-child': (None, dict(margin=[0, 0, 1, 0], initial_indent=2))}
expect(render('<blockquote><p>a</p><p>b</p></blockquote>', renderers=r).split('\n')[1:4], ['>   a', '>', '> b'])
''', 'a quotation whose first line is indented', 'the indent of the first line is lost')

bug('c17-blank-prefix', 'C17', [(R, '''        return "\\n".join(
            [template.format(line) for line in content_split]
        )


class ListRenderer''', '''        blank = template.partition("{}")[0]
        return "\\n".join(
            [template.format(line) if line.strip() else blank for line in content_split]
        )


class ListRenderer''')], r'''
r = {'blockquote': (BlockQuoteRenderer, dict(line_template='|{}|'))}
expect(render('<blockquote><p>a</p><p>b</p></blockquote>', renderers=r).split('\n')[2].replace(' ', ''), '||')
''', 'a prefix with something after the text too, and blank lines in the quotation', 'blank lines only get half of the prefix')

bug('c18-border-order', 'C18', [(R, '''            for c in borders[BoxSide.TOP][::-1]:
''', '''            for c in borders[BoxSide.TOP]:
''')], r'''
r = {'div': (BlockRenderer, dict(border=['=-', '', '-=', '']))}
expect(render('<div>x</div>', width=3, renderers=r).split('\n'), ['===', '---', 'x', '---', '==='])
''', 'a top border of several different lines', 'the lines of the top border come out upside down')

bug('c18-border-right', 'C18', [(R, 'self.border[BoxSide.RIGHT] + parent.total_border[BoxSide.RIGHT]', 'self.border[BoxSide.RIGHT] + parent.total_border[BoxSide.LEFT]')], r'''
r = {'div': (BlockRenderer, dict(border=['', '||', '', '|'])), 'p': (ParagraphRenderer, dict(border=['', '|', '', '|']))}
out = render('<div><p>x</p></div>', width=12, renderers=r, optimise=False)
expect({len(l) for l in out.split('\n')}, {12})
''', 'a block inside of a block whose side borders are of different widths', 'the lines of the inner block have the wrong width')

bug('c18-padding-rows', 'C18', [(R, '''            padded.extend([vertical_pad] * box.padding[BoxSide.BOTTOM])
''', '''            padded.extend([vertical_pad] * box.padding[BoxSide.TOP])
''')], r'''
r = {'div': (BlockRenderer, dict(padding=[1, 0, 2, 0]))}
expect(render('<div>x</div>', renderers=r).split('\n'), ['', 'x', '', ''])
''', 'different paddings above and below', 'the padding below has as many lines as the one above')

bug('c19-narrow-first', 'C19', [(R, '''            out_lines.append(indent + wide.join(words[:r]) + wide + narrow.join(words[r:]))
''', '''            out_lines.append(indent + narrow.join(words[:-r]) + wide + wide.join(words[-r:]))
''')], r'''
expect(full_justify('aaa b b b aaaaaaaa', 11).split('\n')[0], 'aaa  b  b b')
''', 'a line whose spaces cannot be divided evenly', 'the wider gaps come last')

bug('c19-sentence-gap', 'C19', [(R, '''        words = rs.split(' ')
        gaps''', '''        words = rs.split()
        gaps''')], r'''
r = {'p': (ParagraphRenderer, dict(justification='full'))}
out = render('<p>Go to it. And on more words</p>', width=16, renderers=r).split('\n')[1:]
expect(len(out[0]), 16)
''', 'a sentence that ends within a fully justified line (two spaces)', 'the line is a character short of the width')

bug('c20-upper-after-spread', 'C20', [(R, '''            spread_func(
                capitalize_func(
                    super()._inner_render(content)
                ),
                settings.spread_char,
                settings.spread
            )
''', '''            capitalize_func(
                spread_func(
                    super()._inner_render(content),
                    settings.spread_char,
                    settings.spread
                )
            )
''')], r'''
r = {'h1': (HeaderRenderer, dict(capitalized=True, spread=1, spread_char='x'))}
expect(render('<h1>abc</h1>', renderers=r).split(), ['AxBxC'])
''', 'a heading that is both capitalised and spread, with a letter between (or a character whose capital is two)', 'what is put between the characters is capitalised too')

bug('c20-full-centre', 'C20', [(R, '''                center_func(underline, width),
''', '''                underline if settings.underline_full else center_func(underline, width - width % 2),
''')], r'''
r = {'h1': (HeaderRenderer, dict(centered=True, underlined=True))}
expect(render('<h1>abcd</h1>', width=11, renderers=r, optimise=False).split('\n')[1:3], ['    abcd   ', '    ====   '])
''', 'a centred, underlined heading of even length in an odd width', 'the line is not below the text')

bug('c21-upper-template', 'C21', [(R, '''        return settings.template.format(
            capitalize_func(super().render(content))
        )
''', '''        return capitalize_func(
            settings.template.format(super().render(content))
        )
''')], r'''
r = {'b': (InlineRenderer, dict(template='s{}e', capitalized=True))}
expect(render('<p><b>x</b></p>', renderers=r).split(), ['sXe'])
''', 'a capitalised inline element whose markers have letters in them', 'the markers are capitalised too')

bug('c21-code-in-pre', 'C21', [(R, '''        if parent and hasattr(parent, 'tag') and parent.tag == 'pre':
''', '''        if parent and hasattr(parent, 'tag') and parent.tag == 'pre' and len(parent.children) == 1:
''')], r'''
expect(render('<pre><code>x</code></pre>'), '\n    x\n')
expect(render('<pre><code>x</code> y</pre>'), '\n    x y\n')
''', 'code in preformatted text next to something else', 'the code gets markers')

bug('c22-short-html', 'C22', [(R, '''            colour[0] * 2,
            colour[1] * 2,
            colour[2] * 2,
''', '''            colour[0] + '0',
            colour[1] + '0',
            colour[2] + '0',
''')], r'''
r = {'b': (AnsiEscapeCodeRenderer, dict(foreground_colour='#f80'))}
expect(render('<p><b>x</b></p>', renderers=r), '\n\x1b[38;2;255;136;0mx\x1b[39m\n')
''', 'a colour in 3 digit HTML notation', 'the colour is darker than what was given')

bug('c22-zero', 'C22', [(R, '''    if isinstance(colour, int):
''', '''    if isinstance(colour, int) and colour in range(1, 256):
'''), (R, '''    # Fall back to a tuple
''', '''    if not colour:
        colour = (0, 0, 0)
''')], r'''
r = {'b': (AnsiEscapeCodeRenderer, dict(background_colour=0))}
expect(render('<p><b>x</b></p>', renderers=r), '\n\x1b[48;5;0mx\x1b[49m\n')
''', 'palette number 0', 'true black is used instead of the colour of the palette')

bug('c22-bright-background', 'C22', [(R, '''            offset = ANSI_BACKGROUND_COLOUR_OFFSET
''', '''            offset = ANSI_BACKGROUND_COLOUR_OFFSET if ansi_colours[colour] < 90 else -50
''')], r'''
r = {'b': (AnsiEscapeCodeRenderer, dict(background_colour='bright_red'))}
expect(render('<p><b>x</b></p>', renderers=r), '\n\x1b[101mx\x1b[49m\n')
''', 'a bright colour as background', 'the dark colour is used')

bug('c24-empty-paragraph', 'C24', [(R, '''        return len(children) == 1 and children[0].tag in ['code', 'pre']
''', '''        return len(children) <= 1 and children[0].tag in ['code', 'pre']
''')], r'''
render('<p>x</p>')
render('<p></p>')
''', 'a paragraph with nothing at all in it', 'an IndexError is raised')

bug('c24-empty-attribute', 'C24', [(P, '''            self.title = self.attrs.get('title', None)
''', '''            self.title = self.attrs.get('title', '').strip() or None
''')], r'''
expect(render('<p><a href="/x" title>x</a></p>').split('\n')[-1], '[1] x: /x')
''', 'a title attribute without a value', 'an AttributeError is raised')

bug('c25-splitlines', 'C25', [(P, '''        split = parsed.split('\\n')
        optimised = [l.rstrip() for l in split]
        return '\\n'.join(optimised)
''', '''        split = parsed.splitlines()
        if parsed.endswith('\\n'):
            split.append('')
        optimised = [l.rstrip() for l in split]
        return '\\n'.join(optimised)
''')], r'''
doc = '<div>a\u2028b</div><div>c</div>'
a = render(doc, optimise=True)
b = render(doc, optimise=False)
expect(a, '\n'.join(l.rstrip() for l in b.split('\n')))
''', 'text with a Unicode line separator (or a form feed)', 'the separator becomes a line feed in optimised output only')

bug('c25-spaces-only', 'C25', [(P, '''        optimised = [l.rstrip() for l in split]
''', '''        optimised = [l.rstrip(' ') for l in split]
''')], r'''
doc = '<pre>a\t\nb</pre>'
expect(render(doc), '\n    a\n    b\n')
''', 'a line that ends with a tab or a non-breaking space', 'other whitespace than spaces stays')

bug('c26-image-placement', 'C26', [(P, '''        self._image_placement = image_placement
''', '''        self._image_placement = link_placement if output_format == 'gophermap' and image_placement == 'inline' else image_placement
''')], r'''
out = render('<p><img src="/x.png" alt="pic"></p>', output_format='gophermap', gopher_host='h', image_placement='inline')
expect(out, '\n![pic](/x.png)\n')
''', 'gophermap output with images inline', 'the images are extracted regardless')

bug('c26-port', 'C26', [(P, '''        self._gopher_port = gopher_port
''', '''        self._gopher_port = gopher_port if output_format == 'gophermap' and gopher_host else 70
'''), (P, '''        self._gopher_host = gopher_host
''', '''        self._gopher_host = gopher_host.partition(':')[0]
''')], r'''
out = render('<p><a href="/x">x</a></p>', output_format='gophermap', gopher_host='::1')
expect(out.split('\n')[-2].split('\t'), ['1[1] x', '/x', '::1', '70'])
''', 'a host that contains colons (a version 6 address)', 'the host in the links is cut off at the colon')

bug('c27-none', 'C27', [(N, '''        if hasattr(self, name) and not name in self:
            object.__setattr__''', '''        if getattr(self, name, None) is not None and not name in self:
            object.__setattr__''')], '', '', '')
BUGS.pop()

bug('c27-underscore', 'C27', [(N, '''        if name in self:
            return self[name]
''', '''        if name in self and not name.startswith('_'):
            return self[name]
''')], r'''
n = gopher_render._namedict.namedict()
n['_x'] = 1
expect(n._x, 1)
''', 'a name that starts with an underscore', 'the item cannot be read as an attribute')

bug('c28-open-first', 'C28', [(C, '''    source_text = None
    source_path = Path(args.source)
    with open(source_path, 'r') as in_file:
        source_text = in_file.read()
''', '''    source_text = None
    source_path = Path(args.source)
    out_file = open(args.destination, 'w')
    with open(source_path, 'r') as in_file:
        source_text = in_file.read()
'''), (C, '''    with open(args.destination, 'w') as out_file:
        out_file.write(parser.parsed)
''', '''    with out_file:
        out_file.write(parser.parsed)
''')], r'''
import subprocess
import tempfile
with tempfile.TemporaryDirectory() as d:
    dest = os.path.join(d, 'out.txt')
    with open(dest, 'w') as f:
        f.write('before')
    env = dict(os.environ, PYTHONPATH=os.getcwd(), PYTHONDONTWRITEBYTECODE='1')
    r = subprocess.run([sys.executable, '-m', 'gopher_render', os.path.join(d, 'missing.html'), dest], env=env, stderr=subprocess.DEVNULL)
    expect(r.returncode != 0, True)
    with open(dest) as f:
        expect(f.read(), 'before')
''', 'a source that cannot be read, and a destination that exists', 'the destination is emptied before the failure')

bug('c28-suffixes', 'C28', [(C, '''    if source_path.suffix == '.md':
''', '''    if '.md' in source_path.suffixes:
''')], r'''
import subprocess
import tempfile
with tempfile.TemporaryDirectory() as d:
    src, dest = os.path.join(d, 'a.md.html'), os.path.join(d, 'out.txt')
    with open(src, 'w') as f:
        f.write('<div>\n\n*x* y\n\n</div>*z*')
    env = dict(os.environ, PYTHONPATH=os.getcwd(), PYTHONDONTWRITEBYTECODE='1')
    r = subprocess.run([sys.executable, '-m', 'gopher_render', src, dest], env=env, stdout=subprocess.DEVNULL)
    with open(dest) as f:
        expect(f.read().split(), ['*x*', 'y', '*z*'])
''', 'an HTML file in whose name .md comes before the suffix', 'the HTML is converted as Markdown')

bug('c29-first-term', 'C29', [(P, '''            'dt:first-child': (None, dict(
''', '''            'dl:first-child > dt:first-child': (None, dict(
''')], r'''
expect(render('<p>x</p><dl><dt>t</dt><dd>d</dd></dl>').split('\n'), ['', 'x', '', 't', ': d', ''])
''', 'a definition list that is not the first element where it is', 'there are blank lines before its first term')

bug('c29-fixed-indent', 'C29', [(R, '''        out = [template.format(just_split[0])]
        template_width = self.box.line_template_padding
        if len(just_split) > 1:
            out.extend(['{}{}'.format(' ' * template_width, line) for line in just_split[1:]])
        return "\\n".join(out)


ansi_colours''', '''        out = [template.format(just_split[0])]
        if len(just_split) > 1:
            out.extend(['  {}'.format(line) for line in just_split[1:]])
        return "\\n".join(out)


ansi_colours''')], r'''
r = {'dd': (DefinitionListItemRenderer, dict(line_template='-- {}'))}
expect([l for l in render('<dl><dd>aaaa bbbb</dd></dl>', width=8, renderers=r).split('\n') if l.strip()], ['-- aaaa', '   bbbb'])
''', 'a marker of definitions that is not two characters wide', 'further lines are indented by two characters regardless')

bug('c23-rare-class', 'C23', [('code_themes/tomorrow_night.py', '''    ".bp": (AnsiEscapeCodeRenderer, { "foreground_colour"''', '''    ".bp": (AnsiEscapeCodeRenderer, { "foreground_color"''')], r'''
from gopher_render.code_themes.tomorrow_night import renderers
for c in ('bp', 'nv'):
    out = render('<div class="highlight"><pre><span class="{}">x</span></pre></div>'.format(c), renderers=renderers)
    expect('\x1b[' in out, True)
''', 'code with a pseudo builtin (self, for example) in one of the themes', 'the style of that class is not applied')

bug('c23-second-in-list', 'C23', [('code_themes/darkly_ansi.py', '".c,.cm,.c1,.cs"', '".c,.cm.c1,.cs"')], r'''
from gopher_render.code_themes.darkly_ansi import renderers
for c in ('c', 'cs', 'cm', 'c1'):
    out = render('<div class="highlight"><pre><span class="{}">x</span></pre></div>'.format(c), renderers=renderers)
    expect('\x1b[' in out, True)
''', 'a comment of a particular kind in one of the themes', 'two classes of a list are not styled any more')

bug('c30-own-box', 'C30', [(P, '''        render_inst = self.renderer(self, **render_context)
        try:
            box = render_inst.box
        except AttributeError:
            # If the renderer doesn't provide a box then the parent's gets
            # passed through.
            pass

        rendered_children = render_children(self.children, box, links)
''', '''        render_inst = self.renderer(self, **render_context)
        if isinstance(render_inst, BlockRenderer):
            # If the renderer doesn't provide a box then the parent's gets
            # passed through.
            box = render_inst.box

        rendered_children = render_children(self.children, box, links)
''')], r'''
class Narrow(Renderer):
    def __init__(self, tag, **kw):
        super().__init__(tag, **kw)
        self.box = Box(margin=[0, 10, 0, 0], parent=kw['parent_box'])


out = render('<section><p>aaaa bbbb cccc dddd</p></section>', width=20, renderers={'section': Narrow})
expect(out.split(), ['aaaa', 'bbbb', 'cccc', 'dddd'])
expect([l for l in out.split('\n') if l], ['aaaa bbbb', 'cccc dddd'])
''', 'a renderer of the user\'s own that has a box, but is not derived from BlockRenderer', 'its box is ignored, and the content laid out in the whole width')

bug('c30-unknown-settings', 'C30', [(R, '''        if local_settings is not None:
            self.settings.update(local_settings)
''', '''        if local_settings is not None:
            # Leave out settings that are meant for other renderers
            self.settings.update({k: v for k, v in local_settings.items() if k in self.settings})
''')], r'''
class Mine(Renderer):
    def render(self, content):
        return self.settings.get('mark', '?') + content


out = render('<b>x</b>', renderers={'b': (Mine, dict(mark='!'))})
expect(out, '!x')
r = {'p': (None, dict(break_on_hyphens=False))}
''', 'a renderer of the user\'s own with settings that it has no default for', 'the settings are not passed to it')

bug('c31-second-unescape', 'C01', [(P, '''            self.href = self.attrs.get('href', None)
''', '''            self.href = html.unescape(self.attrs.get('href', None) or '') if 'href' in self.attrs else None
'''), (P, 'import re\nimport sys\n', 'import html\nimport re\nimport sys\n')], r'''
expect(render('<p><a href="/x?a=1&amp;b=2">t</a></p>').split('\n')[-1], '[1] t: /x?a=1&b=2')
expect(render('<p><a href="/x?a=1&amp;copy=2">t</a></p>').split('\n')[-1], '[1] t: /x?a=1&copy=2')
''', 'an address with an ampersand followed by the name of a character', 'the address is decoded twice, and another one results')

bug('c32-class-set', 'C32', [(P, '''            return self.attrs['class']
        return []''', '''            return set(self.attrs['class'])
        return []'''), (S, '''            attr_val = " ".join(attr_val)
''', '''            attr_val = " ".join(tag.classes)
''')], r'''
import subprocess
code = """
from gopher_render import GopherHTMLParser
p = GopherHTMLParser(renderers={'[class="one two three"]': (None, dict(template='!{}!'))})
p.feed('<b class="one two three">x</b>')
p.close()
print(p.parsed)
"""
for seed in range(20):
    out = subprocess.run([sys.executable, '-c', code], env=dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONPATH=os.getcwd()), stdout=subprocess.PIPE).stdout
    expect(out, b'!x!\n')
''', 'an attribute selector for a class attribute with several classes, and certain hash seeds', 'the classes are joined in the order of a set')

bug('c32-no-color', 'C32', [(R, '''        normalise = settings.normalise
        enable = []
        disable = []
''', '''        normalise = settings.normalise
        if 'NO_COLOR' in os.environ:
            return inner
        enable, disable = [], []
'''), (R, 'import inspect\n', 'import inspect\nimport os\n')], r'''
import subprocess
code = """
from gopher_render import GopherHTMLParser
from gopher_render.rendering import AnsiEscapeCodeRenderer
p = GopherHTMLParser(renderers={'b': (AnsiEscapeCodeRenderer, dict(bold=True))})
p.feed('<b>x</b>')
p.close()
print(p.parsed)
"""
for extra in ({}, dict(NO_COLOR='1')):
    out = subprocess.run([sys.executable, '-c', code], env=dict(os.environ, PYTHONPATH=os.getcwd(), **extra), stdout=subprocess.PIPE).stdout
    expect(out, b'\x1b[1mx\x1b[22m\n')
''', 'the environment variable NO_COLOR', 'the styling that was configured is left out')

bug('c32-local-directory', 'C32', [(P, '''            # No file extension, so gopher menu?
            return 1
''', '''            # No file extension, so gopher menu?
            return 0 if os.path.isfile(path) else 1
'''), (P, 'import re\nimport sys\n', 'import os\nimport re\nimport sys\n')], r'''
import tempfile
here = os.getcwd()
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    try:
        a = render('<p><a href="guide">t</a></p>', output_format='gophermap', gopher_host='h')
        open('guide', 'w').close()
        b = render('<p><a href="guide">t</a></p>', output_format='gophermap', gopher_host='h')
    finally:
        os.chdir(here)
expect(b, a)
''', 'a link without an extension that happens to be the name of a file in the working directory', 'the type of the link depends on the working directory')

bug('c33-links-twice', 'C33', [(P, '''                tag.assign_renderer((
                        renderer,
                        self._get_extracted_link_renderer(tag)
                    )
                )
''', '''                # The description of an extracted link is rendered as well
                self._assign_renderers(tag.children)
                tag.assign_renderer((renderer, self._get_extracted_link_renderer(tag)))
''')], r'''
import time
n = 14
t = time.process_time()
render('<a href="/x">' * n + 'x' + '</a>' * n, link_placement='inline')
first = time.process_time() - t
t = time.process_time()
render('<a href="/x">' * (n + 5) + 'x' + '</a>' * (n + 5), link_placement='inline')
expect(time.process_time() - t < 8 * first + 0.2, True)
''', 'links within links, deep', 'the work doubles with every link around a link')

bug('c33-cubic-siblings', 'C33', [(S, '''    for sibling in tag.parent.tag_children():
        if sibling is tag:
            return False
        if _selector_matches(sibling, selector.selector):
            return True
    return False
''', '''    siblings = tag.parent.tag_children()
    for sibling in siblings:
        # Only those before the tag
        if sibling not in [s for s in siblings[:siblings.index(tag)]]:
            return False
        if _selector_matches(sibling, selector.selector):
            return True
    return False
''')], r'''
import time
def cost(n):
    t = time.process_time()
    render('<i>x</i>' + '<b>x</b>' * n, renderers={'u ~ b': (None, dict(template='{}'))})
    return time.process_time() - t


small = min(cost(100) for _ in range(3))
large = cost(800)
expect(large < small * 64 * 3 + 0.1, True)
''', 'a rule with a general sibling combinator, and a lot of siblings', 'the work is cubic in the number of siblings')

bug('c34-print-scheme', 'C34', [(P, '''            return dict(
                type='h',
                selector="URL:{}".format(self.href),
                host=self._context['gopher_host'],
                port=self._context['gopher_port'],
            )

    def assign_renderer''', '''            if scheme is not None:
                print("Unsupported scheme, linking to the web: " + scheme)
            return dict(
                type='h',
                selector="URL:" + self.href,
                host=self._context['gopher_host'],
                port=self._context['gopher_port'],
            )

    def assign_renderer''')], r'''
import contextlib, io
for href in ('http://h/', 'x', 'mailto:a@b'):
    with contextlib.redirect_stdout(io.StringIO()) as out:
        render('<a href="{}">x</a>'.format(href))
    expect(out.getvalue(), '')
''', 'a link with a scheme that is neither of the web nor gopher', 'a message goes to standard output, where the result may be as well')

bug('c34-recursion-limit', 'C34', [(P, '''        while len(self._tag_stack) > 0:
            t = self._tag_stack.pop()
''', '''        # Deeply nested documents need deep recursion
        depth = len(self._tag_stack)
        if depth > 50:
            sys.setrecursionlimit(max(sys.getrecursionlimit(), depth * 10 + 1000))
        while self._tag_stack:
            t = self._tag_stack.pop()
''')], r'''
limit = sys.getrecursionlimit()
render('<div>' * 80 + 'x')
expect(sys.getrecursionlimit(), limit)
''', 'a document with more than fifty elements left open', 'the recursion limit of the process is changed')

bug('c07-interrupted', 'C07', [(P, '''        super().close()
        # Compile the parsed string
''', '''        if getattr(self, '_closing', False):
            # A renderer that closes the parser again must not recurse
            return
        self._closing = True
        HTMLParser.close(self)
        # Compile the parsed string
'''), (P, '''        if self._optimise:
            self.parsed = self._optimise_parsed()
''', '''        if self._optimise:
            self.parsed = self._optimise_parsed()
        self._closing = False
''')], r'''
class Failing(ParagraphRenderer):
    fail = True

    def render(self, content):
        if Failing.fail:
            raise OSError('not available')
        return super().render(content)


p = GopherHTMLParser(renderers={'p': Failing})
p.feed('<p>one</p>')
try:
    p.close()
    sys.exit(1)
except OSError:
    pass
Failing.fail = False
p.reset()
p.feed('<p>two</p>')
p.close()
expect(p.parsed, '\ntwo\n')
''', 'a close() that is cut short by an exception, after which the parser is reset and used for another document',
    'the parser believes for ever that it is being closed: every later result is empty')

bug('c07-failed-close', 'C07', [(P, '''        while len(self._tag_stack) > 0:
            t = self._tag_stack.pop()
            if t.parent is None:
                self.tree.append(t)

        self._strip_lines(self.tree)

        # Walk the tree and assign renderers.
''', '''        self._tag_stack.clear()

        if self.tree.children and getattr(self.tree, 'compiled', False):
            # Nothing was fed since, and the result is there
            return
        self.tree.compiled = True
        self._strip_lines(self.tree)

        # Walk the tree and assign renderers.
''')], r'''
class Failing(ParagraphRenderer):
    fail = True

    def render(self, content):
        if Failing.fail:
            raise OSError('not available')
        return super().render(content)


p = GopherHTMLParser(renderers={'p': Failing})
p.feed('<p>one</p>')
try:
    p.close()
    sys.exit(1)
except OSError:
    pass
Failing.fail = False
p.close()
expect(p.parsed, '\ntwo\n'.replace('two', 'one'))
''', 'a close() during which a renderer fails, repeated', 'the second close() takes the document for rendered already and leaves the result empty')

bug('c10-class-tabs', 'C10', [(P, '''(self.attrs['class'] or '').split()
            return self.attrs['class']
''', '''(self.attrs['class'] or '').split(' ')
            return list(filter(None, self.attrs['class']))
''')], r'''
rules = {'.b': (StrongRenderer, {})}
expect(render('<p><span class="a b">x</span></p>', renderers=rules), '\n**x**\n')
expect(render('<p><span class="a\tb">x</span></p>', renderers=rules), '\n**x**\n')
expect(render('<p><span class="\n  a\n  b\n">x</span></p>', renderers=rules), '\n**x**\n')
''', 'classes that are separated by a tab or a line break', 'both are taken for a single class, so that selectors by class do not match')

bug('c31-comment-splits', 'C31', [(P, '''    def handle_data(self, data):
        # Ignore any''', '''    def handle_comment(self, data):
        # What follows is a text of its own
        self._text_ended = True

    def handle_data(self, data):
        # Ignore any'''), (P, '''        siblings = (parent or self.tree).children
        if len(siblings) > 0 and isinstance(siblings[-1], DataParser):
''', '''        siblings = (parent or self.tree).children
        ended, self._text_ended = getattr(self, '_text_ended', False), False
        if len(siblings) > 0 and isinstance(siblings[-1], DataParser) and not ended:
'''), (P, '''        if parent:
            parent.children.append(d)
        else:
            # No containing tags, so add directly to the root of the tree
            # This probably''', '''        if parent is not None:
            parent.children.append(d)
        else:
            # No containing tags, so add directly to the root of the tree
            # This probably''')], r'''
expect(render('<p>one <!-- c -->two</p>'), '\none two\n')
expect(render('<div>one <!-- c --> two</div>'), 'one two')
''', 'a comment with whitespace on both sides, in an element that does not wrap its text', 'the text after a comment is taken for another one, so that whitespace around the comment is not collapsed')

bug('c06-byte-order-mark', 'C06', [(P, '''    def _get_top(self):
        t = None
        if len(self._tag_stack) > 0:
''', '''    def feed(self, data):
        # Editors put this at the start of files
        super().feed(data[1:] if data[:1] == '\\ufeff' else data)

    def _get_top(self):
        t = None
        if self._tag_stack:
''')], r'''
def pieces(*ps):
    p = GopherHTMLParser()
    for x in ps:
        p.feed(x)
    p.close()
    return p.parsed


expect(pieces('<p>a\ufeff', 'b</p>'), '\na\ufeffb\n')
expect(pieces('<p>a', '\ufeffb</p>'), '\na\ufeffb\n')
''', 'a document that is cut in front of a zero width no-break space', 'the character is taken for the mark at the start of a file in every piece, and lost')

bug('c09-implied-end', 'C09', [(P, '''        parent = self._get_top() or self.tree
        t = None
''', '''        parent = self._get_top()
        if parent and tag in ('dt', 'dd') and parent.tag in ('dt', 'dd'):
            # The end tags of these can be left out
            self.handle_endtag(parent.tag)
            parent = self._get_top()
        parent = parent or self.tree
        t = None
''')], r'''
q = {'dd': (InlineRenderer, dict(template='({})'))}
expect(render('<dd>a<dd>b</dd>c</dd>', renderers=q), '(a(b)c)')
''', 'a definition directly inside of another definition', 'the inner one ends the outer one, so that what follows it is outside and the end tag is ignored')

bug('c12-alias', 'C12', [(R, '''        s = namedict()
        all_classes = inspect.getmro(cls)
        for klass in all_classes[::-1]:
''', '''        s = namedict()
        all_classes = inspect.getmro(cls)
        declared = [k.settings for k in all_classes if vars(k).get('settings')]
        if len(declared) == 1:
            # Nothing to combine
            s, all_classes = declared[0], ()
        for klass in all_classes[::-1]:
''')], r'''
class Own(Renderer):
    settings = dict(mark='*')

    def render(self, content):
        return self.settings.mark + content


rules = {'x-a': Own, 'x-b': (Own, dict(mark='!'))}
expect(render('<x-a>a</x-a><x-b>b</x-b><x-a>c</x-a>', renderers=rules), '*a!b*c')
''', 'a class of which neither a base nor a derived class has settings, used both with and without settings of the element',
    'the settings of the element end up in those of the class, and so in those of all others')

bug('c13-same-address', 'C13', [(P, '''            if placement == 'footer':
                self._footer_pending_links.append(t)
''', '''            if placement == 'footer':
                listed = [(l.tag, l.href, l.title) for l in self._footer_pending_links]
                if (tag, t.href, t.title) not in listed:
                    self._footer_pending_links.append(t)
''')], r'''
out = render('<p><a href="/x">one</a> <a href="/y">two</a> <a href="/x">three</a></p>')
expect([l for l in out.split('\n') if l.startswith('[') and ':' in l], ['[1] one: /x', '[2] two: /y', '[3] three: /x'])
''', 'two links with the same address and title', 'only the first is listed, so that the number of the other one refers to nothing')

bug('c15-port-zero', 'C15', [(P, '''                type=self._guess_type(parsed.path),
                selector=parsed.path,
                host=parsed.hostname,
                port=70 if port is None else port,
''', '''                selector=parsed.path,
                type=self._guess_type(parsed.path),
                host=parsed.hostname,
                port=port or 70,
''')], r'''
out = render('<a href="gopher://h:0/x">a</a>', output_format='gophermap', gopher_host='me', link_placement='footer')
expect(out.split('\t')[-1].strip(), '0')
''', 'a gopher address with port 0', 'the port is taken for one that is missing')

bug('c16-other-children', 'C16', [(R, '''        items = [t for t in tag.parent.children if t.tag == tag.tag]
        return (items.index(tag) * step) + start_index
''', '''        items = [t for t in tag.parent.children if t.tag is not None]
        return start_index + items.index(tag) * step
''')], r'''
out = render('<ol><li>a</li><li>b</li></ol>')
expect('2. b' in out, True)
out = render('<ol><li>a</li><div>x</div><li>b</li></ol>')
expect('2. b' in out, True)
''', 'an ordered list with something in it that is not an item', 'everything in the list counts as an item')

bug('c30-valueless', 'C30', [(P, '''        if attrs is not None:
            self.attrs = dict(attrs)
''', '''        if attrs is not None:
            self.attrs = {k: v or '' for k, v in attrs}
''')], r'''
seen = []


class Own(Renderer):
    def render(self, content):
        seen.append(self.tag.attrs)
        return content


render('<x-a k="v" empty="" none>x</x-a>', renderers={'x-a': Own})
expect(seen, [{'k': 'v', 'empty': '', 'none': None}])
''', 'an attribute without a value, in an element with a renderer of its own', 'it cannot be told from an attribute with an empty value')

bug('c21-code-last-newline', 'C21', [(R, '''        if '\\n' in content:
            return settings['block_template'].format(content)
''', '''        if '\\n' in content.strip():
            return settings['block_template'].format(content.strip('\\n'))
''')], r'''
rules = {'pre': BlockRenderer}
expect(render('<div><code>a<br>b</code></div>'), '```\na\nb\n```\n')
expect(render('<div><code><br>a<br>b</code></div>'), '```\n\na\nb\n```\n')
''', 'a code block that starts or ends with a line break element', 'the line breaks at its ends are lost')

bug('c22-zero-font', 'C22', [(R, '''        if settings.font is not None:
''', '''        if settings.font:
''')], r'''
from gopher_render.rendering import AnsiEscapeCodeRenderer as A
expect(render('<b>x</b>', renderers={'b': (A, dict(font=0, template='{}'))}), '\x1b[10mx\x1b[10m')
''', 'font 0 (the primary font), within another font', 'the font is not set')

bug('c29-term-break', 'C29', [(R, '''class DefinitionListTermHeaderRenderer(HeaderRenderer):
    settings = dict(
        margin=[2,0,0,0],
''', '''class DefinitionListTermHeaderRenderer(HeaderRenderer):
    def _inner_render(self, content):
        # A term is a single line
        return super()._inner_render(' '.join(content.split('\\n')))

    settings = dict(
        margin=[2, 0, 0, 0],
''')], r'''
expect(render('<dl><dt>a</dt></dl>'), render('<dl><dt>a</dt></dl>'))
expect([l for l in render('<dl><dt>a<br>b</dt></dl>').split('\n') if l], ['a', 'b'])
''', 'a line break element in a term', 'the line break becomes a space')

bug('c01-soft-hyphen', 'C01', [(P, '''            data = ' '.join(data_split)
''', '''            # (soft hyphens are only needed for breaking words)
            data = ' '.join(data_split).replace('\\u00ad', '')
''')], r'''
expect(render('<p>ab&shy;cd</p>'), '\nab\u00adcd\n')
''', 'a text with soft hyphens', 'the soft hyphens are lost')

bug('c01-control', 'C01', [(P, '''            data = ' '.join(data_split)
''', '''            data = re.sub('[\\x00-\\x08\\x7f]', '', ' '.join(data_split))
''')], r'''
expect(render('<p>ab\x7fcd \x01e</p>'), '\nab\x7fcd \x01e\n')
''', 'a text with control characters', 'the characters are lost')

bug('c13-title-limit', 'C13', [(R, '''            if title:
                template = settings.templates[1]
                keywords["title"] = title
            return template.format(
                **keywords
            )

    def _outer_render(self, content):
        output_format = self.context['output_format']
        if output_format == "gophermap":
            # A left margin would not be acceptable for gophermap links, so only
            # apply the top and bottom margins, if any.
            box = self.box
            return "{}{}{}".format(
                '\\n' * box.margin[BoxSide.TOP],
                content,
                '\\n' * box.margin[BoxSide.BOTTOM],
            )
        return super()._outer_render(content)

    def render(self, content):
        output_format = self.context['output_format']
        if output_format == "gophermap":
            # A border would not be acceptable for gophermap links, so skip
            # that render step.
            return self._outer_render(
                self._inner_render(
                    content
                )
            )
        return super().render(content)


class ImageRenderer''', '''            if title:
                template = settings.templates[1]
                keywords["title"] = title if len(title) <= 64 else title[:64].rstrip() + "..."
            return template.format(
                **keywords
            )

    def _outer_render(self, content):
        output_format = self.context['output_format']
        if output_format == "gophermap":
            # A left margin would not be acceptable for gophermap links, so only
            # apply the top and bottom margins, if any.
            box = self.box
            return "{}{}{}".format(
                '\\n' * box.margin[BoxSide.TOP],
                content,
                '\\n' * box.margin[BoxSide.BOTTOM],
            )
        return super()._outer_render(content)

    def render(self, content):
        output_format = self.context['output_format']
        if output_format == "gophermap":
            # A border would not be acceptable for gophermap links, so skip
            # that render step.
            return self._outer_render(
                self._inner_render(
                    content
                )
            )
        return super().render(content)


class ImageRenderer''')], r'''
out = render('<p><a href="/x" title="{}">one</a></p>'.format('t' * 65))
expect('"' + 't' * 65 + '"' in out, True)
''', 'a link with a title of more than 64 characters', 'the title is cut')

bug('c14-selector-limit', 'C14', [(P, '''            return dict(
                type=self._guess_type(parsed.path),
                selector=parsed.path,
                host=self._context['gopher_host'],
''', '''            return dict(
                type=self._guess_type(parsed.path),
                # No selector may be longer than 255 characters
                selector=parsed.path[:255],
                host=self._context['gopher_host'],
''')], r'''
out = render('<a href="/{}">a</a>'.format('d' * 300), output_format='gophermap', gopher_host='me', link_placement='footer')
expect(out.split('\t')[1], '/' + 'd' * 300)
''', 'a relative address of more than 255 characters', 'the selector is cut, so that it leads nowhere')

bug('c16-nested-number', 'C16', [(R, '''    def _get_ordinal(self, tag, start_index, step):
''', '''    def _get_ordinal(self, tag, start_index, step):
        outer = tag.parent.parent
        if getattr(outer, 'tag', None) == 'ol':
            # A list directly in a list goes on counting
            start_index += len([t for t in outer.children[:outer.children.index(tag.parent)] if t.tag == tag.tag])
'''), (R, '''        return (items.index(tag) * step) + start_index
''', '''        return items.index(tag) * step + start_index
''')], r'''
def words(html):
    return render(html).split()


expect(words('<ol><li>a</li><li>b<ol><li>c</li></ol></li></ol>'), ['1.', 'a', '2.', 'b', '1.', 'c'])
expect(words('<ol><li>a</li><ol><li>c</li></ol><li>b</li></ol>'), ['1.', 'a', '1.', 'c', '2.', 'b'])
''', 'an ordered list that is directly in an ordered list, not in one of its items', 'the numbers of the inner list depend on the outer one')

bug('c17-quote-of-nothing', 'C17', [(R, '''        content_split = split_lines(content)
        template = self.settings.line_template

        return "\\n".join(
            [template.format(line) for line in content_split]
        )


class ListRenderer''', '''        content_split = split_lines(content)
        template = self.settings.line_template

        return "\\n".join(
            [template.format(line) if content.strip() else line for line in content_split]
        )


class ListRenderer''')], r'''
expect(render('<blockquote>a</blockquote>'), '\n> a\n')
expect(render('<blockquote><br><br></blockquote>', optimise=False).strip('\n').split('\n')[0].rstrip(), '>')
''', 'a quotation of blank lines only', 'its lines are not prefixed')

bug('c26-box-of-width-zero', 'C26', [(P, '''        if box:
            self._box = box
        else:
''', '''        if box and any(box.margin):
            self._box = box
        else:
''')], r'''
text = '<p>aaaa bbbb cccc</p>'
expect(render(text, box=Box(width=9, margin=[0, 0, 0, 1])), '\n aaaa\n bbbb\n cccc\n')
expect(render(text, box=Box(width=9)), '\naaaa bbbb\ncccc\n')
''', 'a box that has no margins', 'the box is ignored, and with it its width')

bug('c18-empty-border-side', 'C18', [(R, '''        vertical_pad = "{}{}{}".format(
            borders[BoxSide.LEFT],
            ' ' * box.padded_width,
            borders[BoxSide.RIGHT]
        )
''', '''        vertical_pad = "{}{}{}".format(
            borders[BoxSide.LEFT],
            ' ' * box.padded_width,
            borders[BoxSide.RIGHT]
        ) if any(borders[BoxSide.LEFT] + borders[BoxSide.RIGHT]) else ''
''')], r'''
rules = {'div': (BlockRenderer, dict(padding=[1, 1, 1, 1], border=['=', '', '=', '']))}
out = render('<div>x</div>', renderers=rules, optimise=False, width=9).split('\n')
expect([len(l) for l in out if l], [9, 9, 9, 9, 9])
''', 'padding above or below in a block without side borders, with the removal of trailing whitespace off', 'the lines of the padding are empty, not as wide as the block')

bug('c25-last-line', 'C25', [(P, '''        optimised = [l.rstrip() for l in split]
        return '\\n'.join(optimised)
''', '''        optimised = [l.rstrip() for l in split]
        return '\\n'.join(optimised).replace('\\n\\n\\n\\n', '\\n\\n\\n')
''')], r'''
box = Box(width=20, margin=[0, 0, 4, 0])
a, b = render('<p>x</p>', box=box), render('<p>x</p>', box=box, optimise=False)
expect(a.count('\n'), b.count('\n'))
''', 'four or more line breaks in a row', 'blank lines are lost')

bug('c01-hidden', 'C01', [(P, '''        self.renderer = None
        self.renderer_settings = None
        self._context = context
''', '''        self.renderer = self.renderer_settings = None
        self._context = context
'''), (P, '''            l.link_render(parent_box) for l in self._following_links
            ])
        return rendered
''', '''            l.link_render(parent_box) for l in self._following_links
            ])
        # Browsers do not show these either
        return "" if self.attrs.get('aria-hidden') == 'true' else rendered
''')], r'''
expect(render('<p>a <span aria-hidden="true">b</span> c</p>').split(), ['a', 'b', 'c'])
''', 'an element that is hidden from screen readers', 'its text is lost')

bug('c01-noscript', 'C01', [(P, '''    def render(self, box, links=True):
        return self.data
''', '''    def render(self, box, links=True):
        if getattr(self.parent, 'tag', None) in ('noscript', 'template', 'datalist'):
            # Not shown by browsers
            return ""
        return self._data if self._data is not None else self.data
''')], r'''
expect(render('<p>a <noscript>b</noscript> c</p>').split(), ['a', 'b', 'c'])
''', 'text in a noscript, template or datalist element', 'the text is lost')

bug('c05-deep', 'C05', [(P, '''        return any(t.tag == 'pre' for t in self._tag_stack)
''', '''        # The elements within it that highlighters use are not nested any deeper
        return any(t.tag == 'pre' for t in self._tag_stack[-6:])
''')], r'''
deep = '<pre>a  b' + '<span>' * 7 + 'c  d' + '</span>' * 7 + '</pre>'
expect(render(deep), '\n    a  bc  d\n')
''', 'text in seven inline elements within preformatted text', 'its whitespace is collapsed')

bug('c10-deep-ancestor', 'C10', [(S, '''    if _selector_matches(tag.parent, selector):
        return True
    return _any_ancestor_matches(tag.parent, selector)
''', '''    for _ in range(20):
        tag = getattr(tag, 'parent', None)
        if tag is None:
            return False
        if _selector_matches(tag, selector):
            return True
    return False
''')], r'''
r = {'.o b': (InlineRenderer, dict(template='<{}>'))}
expect(render('<p class="o">' + '<i>' * 30 + '<b>x</b></p>', renderers=dict(r, i=InlineRenderer)), '\n<x>\n')
''', 'an ancestor that is more than twenty levels up', 'a descendant selector does not match')

bug('c10-far-sibling', 'C10', [(S, '''    for sibling in tag.parent.tag_children():
        if sibling is tag:
            return False
        if _selector_matches(sibling, selector.selector):
            return True
    return False
''', '''    siblings = tag.parent.tag_children()
    index = siblings.index(tag)
    return any(_selector_matches(s, selector.selector) for s in siblings[max(index - 32, 0):index])
''')], r'''
r = {'i ~ b': (InlineRenderer, dict(template='<{}>'))}
expect(render('<p><i>y</i>' + '<u>z</u>' * 40 + '<b>x</b></p>', renderers=r).split('z_')[-1], '<x>\n')
''', 'a sibling that is more than 32 elements away', 'a general sibling selector does not match')

bug('c16-start-attribute', 'C16', [(R, '''        self.order = self._get_ordinal(
            self.tag,
            self.settings.start_index,
''', '''        start = getattr(self.tag.parent, 'attrs', {}).get('start') or ''
        self.order = self._get_ordinal(
            self.tag,
            int(start) if start.isdigit() else self.settings.start_index,
''')], r'''
expect(render('<ol start="5"><li>a</li><li>b</li></ol>').split(), ['1.', 'a', '2.', 'b'])
''', 'an ordered list with a start attribute', 'the items are not numbered from the configured start')

bug('c19-align-attribute', 'C19', [(R, '''        justify_func = justifications[settings.justification]
        capitalize_func = capitalize if settings.capitalized else _noop

        justify_args = dict(
            initial_indent=' '*settings.initial_indent,
            subsequent_indent=' '*settings.subsequent_indent,
        )
        for textwrap_arg in [
            'fix_sentence_endings',
            'break_long_words',
            'break_on_hyphens',
            'placeholder',
            'drop_whitespace',
            'replace_whitespace',
            'expand_tabs',
            'tabsize',
        ]:
            if textwrap_arg in settings:
                justify_args[textwrap_arg] = settings[textwrap_arg]

        width = self.box.inner_width_excluding_line_template
        if width < 1:
            # Nested too deeply for its width, so there is no room to wrap it to.
            justify_func = _noop
        # TODO: Is a block or line template useful here?
        inner = capitalize_func(content)
        #template''', '''        justification = self.tag.attrs.get('align')
        if justification not in ('left', 'right', 'center'):
            justification = settings.justification
        justify_func = justifications[justification]
        capitalize_func = capitalize if settings.capitalized else _noop

        justify_args = dict(
            initial_indent=' '*settings.initial_indent,
            subsequent_indent=' '*settings.subsequent_indent,
        )
        for textwrap_arg in [
            'fix_sentence_endings',
            'break_long_words',
            'break_on_hyphens',
            'placeholder',
            'drop_whitespace',
            'replace_whitespace',
            'expand_tabs',
            'tabsize',
        ]:
            if textwrap_arg in settings:
                justify_args[textwrap_arg] = settings[textwrap_arg]

        width = self.box.inner_width_excluding_line_template
        if width < 1:
            # Nested too deeply for its width, so there is no room to wrap it to.
            justify_func = _noop
        # TODO: Is a block or line template useful here?
        inner = capitalize_func(content)
        #template''')], r'''
r = {'p': (ParagraphRenderer, dict(justification='left'))}
expect(render('<p align="right">a</p>', width=5, renderers=r), '\na\n')
''', 'a paragraph with an align attribute', 'the attribute overrides the configured justification')

bug('c21-quotes', 'C21', [(P, '''    def render(self, box, links=True):
        parent_box = box
        render_context''', '''    def render(self, box, links=True):
        if self.tag == 'q' and self.renderer is Renderer:
            return '"{}"'.format("".join(render_children(self.children, box, links)))
        parent_box = box
        render_context'''), (P, '''        if links and len(self._following_links):
            if not''', '''        if links and self._following_links:
            if not''')], r'''
expect(render('<p>a <q>b</q> c</p>'), '\na b c\n')
''', 'a q element, for which there is no renderer', 'it gets quotation marks')

bug('c04-dialog', 'C04', [(P, """    'details', 'dialog', 'div', 'dl', 'dt', 'fieldset', 'figcaption', 'figure',
""", """    'details', 'div', 'dl', 'dt', 'fieldset', 'figure',
""")], r'''
expect(render('<p>a</p><figcaption> b </figcaption><p>c</p>', optimise=False), render('<p>a</p><figcaption>b</figcaption><p>c</p>', optimise=False))
''', 'whitespace in a caption or a dialog', 'it is not removed')

bug('c13-caption', 'C13', [(P, """    'details', 'dialog', 'div', 'dl', 'dt', 'fieldset', 'figcaption', 'figure',
""", """    'dialog', 'div', 'dl', 'dt', 'fieldset', 'figcaption', 'figure',
""")], r'''
expect(render('<div><details>a<a href="/1">b</a></details>c</div>', link_placement='after_block').replace('\n\n', '\n').strip().split('\n')[:2], ['a[b][1]', '[1] b: /1'])
''', 'a link in a details element with something after it, in a block', 'the link is listed after the outer block only')

bug('c18-empty-block', 'C18', [(P, '''            previous_is_block = previous_is_block or is_block
            continue
''', '''            continue
''')], r'''
expect(render('a<div>x</div>b', renderers={'div': NonRenderer}), 'a\nb')
''', 'text on both sides of an empty block', 'the two texts are on the same line')

bug('c08-wrapper-cache', 'C08', [('_textwrap.py', '''    w = AnsiAwareTextWrapper(width=width, **kwargs)
    return w.wrap(text)''', '''    key = (width, tuple(kwargs.get(k) for k in ('initial_indent', 'subsequent_indent', 'break_long_words')))
    if key not in _wrappers:
        # There are only so many
        _wrappers[key] = AnsiAwareTextWrapper(width=width, **kwargs)
    return _wrappers[key].wrap(text)'''), ('_textwrap.py', '''from textwrap import TextWrapper
import re
''', '''import re
from textwrap import TextWrapper

_wrappers = {}
''')], r'''
a = render('<p>One.  Two-three</p>', width=10, renderers={'p': (ParagraphRenderer, dict(break_on_hyphens=False))})
b = render('<p>One.  Two-three</p>', width=10)
expect(b, '\nOne.  Two-\nthree\n')
''', 'two parsers, one of which does not break at hyphens', 'the other one does not either')

bug('c20-title-attribute', 'C20', [(R, """        h_type = int(self.tag.tag[1])
        hashes""", """        h_type = int(self.tag.attrs.get('aria-level') or self.tag.tag[1])
        hashes""")], r'''
expect(render('<h2 aria-level="4">a</h2>'), '\n## a ##\n')
''', 'a heading with another level for screen readers', 'the number of marks is not that of its level')

bug('c29-compact', 'C29', [(R, '''class DefinitionListTermHeaderRenderer(HeaderRenderer):
    settings = dict(
        margin=[2,0,0,0],
        padding=[0,0,0,0]
    )
''', '''class DefinitionListTermHeaderRenderer(HeaderRenderer):
    settings = dict(
        padding=[0,0,0,0],
        margin=[2,0,0,0],
    )

    def _adjust_settings(self):
        super()._adjust_settings()
        if 'compact' in getattr(self.tag.parent, 'attrs', {}):
            self.settings.margin = [0,0,0,0]
''')], r'''
expect(render('<dl compact><dt>a</dt><dd>b</dd><dt>c</dt></dl>').count('\n'), render('<dl><dt>a</dt><dd>b</dd><dt>c</dt></dl>').count('\n'))
''', 'a definition list with the compact attribute', 'it lacks the blank lines of the margins of terms')

bug('c31-language', 'C31', [(P, '''    def renders_block(self):
        if isinstance''', '''    def renders_block(self):
        if self.attrs.get('role') == 'presentation':
            return False
        if isinstance'''), (P, '''                return True
            if issubclass(self.renderer, InlineRenderer):
                return False
        return self.tag in BLOCK_TAGS
''', '''                return True
            elif issubclass(self.renderer, InlineRenderer):
                return False
        return self.tag in BLOCK_TAGS
''')], r'''
expect(render('a<div role="presentation">b</div>c'), render('a<div>b</div>c'))
''', 'a block with role=presentation next to text', 'it is not on a line of its own')

# --- limits, caches and vocabulary

bug('c03-colon-code', 'C03', [('_textwrap.py', '''    [;\\d]*   # zero or more digits or semicolons
''', '''    (?:\\d{0,3};){0,4}\\d{0,3}  # up to five parameters
''')], r'''
out = lambda **s: render('<p>' + 'a <span>bb</span> ' * 20 + '</p>', width=20, renderers={'span': (One, s)})


class One(InlineRenderer):
    def render(self, content):
        return '\x1b[1;3;4;38;2;1;2;3m' + content + '\x1b[0m' if self.settings.get('on') else content


import re
expect(re.sub('\x1b\\[[;0-9]*m', '', out(on=True)), out())
''', 'several codes in one escape sequence, with more than five parameters', 'it is taken for visible text, and lines are broken too early')

bug('c03-first-escape', 'C03', [(R, '''        orig_len = textwrap._len(line)
        ls = line.lstrip()
''', '''        ls = line.lstrip()
        orig_len = textwrap._len(line.split('\\x1b[0m')[0]) if line.endswith('\\x1b[0m') else textwrap._len(line)
''')], r'''
import re
cfg = lambda **s: {'p': (ParagraphRenderer, dict(justification='full')), 'b': (AnsiEscapeCodeRenderer, s)}
doc = '<p>aa <b>bb</b> cc <b>dd</b> ee ff gg <b>hh ii</b> kk ll mm</p>'
for w in range(8, 30):
    expect(re.sub('\x1b\\[[;0-9]*m', '', render(doc, width=w, renderers=cfg(bold=True, normalise=True))), render(doc, width=w, renderers=cfg()))
''', 'full justification of a line with two styled words, the second of which ends it, with full resets', 'the gaps are too wide')

bug('c09-param', 'C09', [(P, """    'source', 'track', 'wbr',
)""", """    'param', 'source', 'track', 'wbr', 'keygen', 'command', 'basefont', 'frame', 'isindex', 'menuitem',
)""")], r'''
expect(render('<menuitem>a</menuitem>b', renderers={'menuitem': (InlineRenderer, dict(template='<{}>'))}), '<a>b')
''', 'an element that once was void, with content', 'the end tag of it is not the one that counts')

bug('c09-table-cell', 'C09', [(P, '''        if top.tag == tag:
            top.closed = True''', '''        if top.tag == tag or tag in ('td', 'th') and top.tag in ('td', 'th'):
            top.closed = True''')], r'''
expect(render('<th>a</td>b<section>c</section>', renderers={'th': (InlineRenderer, dict(template='<{}>'))}), '<ab\nc>')
''', 'a cell that is closed by the end tag of the other kind of cell', 'it is closed')

bug('c10-number-of-classes', 'C10', [(P, """            self.attrs['class'] = (self.attrs['class'] or '').split()
""", """            self.attrs['class'] = (self.attrs['class'] or '').split(None, 15)
""")], r'''
names = ' '.join('c{}'.format(i) for i in range(20))
expect(render('<b class="{}">x</b>'.format(names), renderers={'.c18': (InlineRenderer, dict(template='<{}>'))}), '<x>')
''', 'an element with more than sixteen classes', 'selectors for the later ones do not match')

bug('c11-none-renderer', 'C11', [(P, '''            if s is not None:
                renderer_settings.update(s)''', '''            if s:
                renderer_settings.update({k: v for k, v in s.items() if v is not None or k not in renderer_settings})''')], r'''
class T(InlineRenderer):
    def render(self, content):
        return repr(self.settings.get('x'))


expect(render('<b class="k">a</b>', renderers={'b': (T, dict(x=1)), '.k': (None, dict(x=None))}), 'None')
''', 'a more specific rule that sets something to None', 'the value of the less specific one is used')

bug('c12-none-override', 'C12', [(R, '''            if 'settings' in vars(klass):
                s.update(klass.settings)''', '''            for key, value in vars(klass).get('settings', {}).items():
                if value is not None or key not in s:
                    s[key] = value''')], r'''
class Red(AnsiEscapeCodeRenderer):
    settings = dict(foreground_colour='red', bold=True)


class Plain(Red):
    settings = dict(foreground_colour=None)


expect(render('<b>a</b>', renderers={'b': Plain}), '\x1b[1ma\x1b[22m')
''', 'a class that turns something off that its base class turns on, with None', 'the setting of the base class is used')

bug('c13-nested-blocks', 'C13', [(P, '''        for t in self._tag_stack[::-1]:
            if t.tag in BLOCK_TAGS:
                return t''', '''        for t in self._tag_stack[:-10:-1]:
            if t.tag in BLOCK_TAGS:
                return t''')], r'''
doc = '<div>' + '<b>' * 12 + '<a href="/x">y</a>' + '</b>' * 12 + '</div><p>z</p>'
out = render(doc, link_placement='after_block')
expect(out.index('/x') < out.index('z'), True)
''', 'a link in more than nine inline elements', 'it is listed at the end of the document and not of its block')

bug('c15-unicode-host', 'C15', [(P, '''                selector=parsed.path,
                host=parsed.hostname,
''', '''                selector=parsed.path,
                host=parsed.hostname.rstrip('.').removeprefix('www.'),
''')], r'''
out = render('<a href="gopher://www.example.org/1">x</a>', output_format='gophermap', gopher_host='h')
expect(out.split('\t')[2:3], ['www.example.org'])
''', 'a gopher host that starts with www', 'it lacks that')

bug('c17-levels', 'C17', [(R, '''        width = self.box.inner_width

        content_split = split_lines(content)
        template = self.settings.line_template
''', '''        width = self.box.inner_width

        content_split = split_lines(content)
        template = self.settings.line_template
        if width < self.box.line_template_padding * 2:
            # no room for it
            return content
''')], r'''
expect(render('<blockquote>' * 12 + 'a' + '</blockquote>' * 12, width=24).count('> a'), 1)
expect('> ' * 12 + 'a' in render('<blockquote>' * 12 + 'a' + '</blockquote>' * 12, width=24), True)
''', 'quotations nested so deeply that nearly no width is left', 'the innermost ones have no prefix')

bug('c19-single-line', 'C19', [(R, '''        words = rs.split(' ')
        gaps = (len(words) - 1)''', '''        words = rs.split()
        gaps = (len(words) - 1)''')], r'''
cfg = {'p': (ParagraphRenderer, dict(justification='full'))}
out = render('<p>a\xa0b c d e f g h ij k\xa0l m</p>', width=12, renderers=cfg)
expect(out, '\na\xa0b  c d e f\ng h ij k\xa0l m\n')
''', 'full justification of words with no-break spaces', 'they are torn apart')

bug('c20-spread-wide', 'C20', [(R, '''            underline_len = width if settings.underline_full else textwrap._len(inner)
            underline = "{}".format(settings.underline_char * underline_len, width)''', '''            underline_len = width if settings.underline_full else min(textwrap._len(inner), width)
            underline = "{}".format(settings.underline_char * underline_len, width)''')], r'''
out = render('<h1>abcdefghij</h1>', width=7, renderers={'h1': (HeaderRenderer, dict(underlined=True))})
expect([l for l in out.split('\n') if l], ['abcdefghij', '=' * 10])
''', 'a heading that is wider than the available width', 'its underline is shorter than the text')

bug('c21-em-at-end', 'C21', [(R, '''        return settings.template.format(
            capitalize_func(super().render(content))
        )


class BlockRenderer''', '''        if content.isspace() and '\\n' not in content:
            return content
        return settings.template.format(
            capitalize_func(super().render(content))
        )


class BlockRenderer''')], r'''
expect(render('a<em> </em>b'), 'a_ _b')
''', 'an inline element that contains only a space', 'it has no markers')

bug('c24-deep-list', 'C24', [(R, '''        items = [t for t in tag.parent.children if t.tag == tag.tag]
        return (items.index(tag) * step) + start_index''', '''        items = [t for t in tag.parent.children if t.tag == tag.tag and not t.attrs.get('hidden', '').startswith('until')]
        return (items.index(tag) * step) + start_index''')], r'''
expect(render('<ol><li hidden>a</li></ol>'), '\n1. a\n')
''', 'an item with an attribute that has no value', 'an exception')

bug('c25-tabs', 'C25', [(P, '''        optimised = [l.rstrip() for l in split]''', '''        optimised = [l.rstrip(' \\t\\xa0') for l in split]''')], r'''
expect(render('a\u2003<br>b'), 'a\nb')
''', 'another kind of space at the end of a line', 'it stays')

bug('c26-empty-renderers', 'C26', [(P, '''        if box:
            self._box = box
        else:''', '''        if box and (box.margin != [0, 0, 0, 0] or width == 67):
            self._box = box
        else:''')], r'''
expect(render('<p>aa bb cc</p>', box=Box(width=5), width=40), '\naa bb\ncc\n')
''', 'a box without margins and a width given as well', 'the width is used')

bug('c30-tag-name', 'C30', [(P, '''            self.attrs = dict(attrs)
            self.classes''', '''            self.attrs = dict((name, value.strip() if value and name in ('id', 'class', 'name', 'lang') else value) for name, value in attrs)
            self.classes''')], r'''
class T(InlineRenderer):
    def render(self, content):
        return repr(self.tag.attrs['name'])


expect(render('<b name=" x ">a</b>', renderers={'b': T}), "' x '")
''', 'an attribute with whitespace at its ends', 'a renderer sees it without')

bug('c33-nested-quantifier', 'C33', [(P, '''        optimised = [l.rstrip() for l in split]''', '''        optimised = [re.sub(r'(?:\\s+)+$', '', l) for l in split]''')], r'''
import signal
signal.alarm(20)
expect(render('<pre>a' + ' ' * 40 + 'b</pre>'), '\n    a' + ' ' * 40 + 'b\n')
''', 'a line of preformatted text with many spaces within', 'the time doubles with each of them')

bug('c34-uses-netloc', 'C34', [(P, '''        try:
            parsed = urlsplit(self.href)''', '''        import urllib.parse
        if 'gopher' not in urllib.parse.uses_params:
            urllib.parse.uses_params.append('gopher')
        try:
            parsed = urlsplit(self.href)''')], r'''
import urllib.parse
before = list(urllib.parse.uses_params)
render('<a href="gopher://h/1;x">a</a>')
expect(urllib.parse.uses_params, before)
''', 'rendering a link', 'a table of urllib is changed')

bug('c32-term', 'C32', [(R, '''        underline = ""
        if settings['underlined']:''', '''        underline = ""
        import locale
        if settings['underlined'] and settings.underline_char not in ('=', '-') and locale.getpreferredencoding(False).lower() in ('ascii', 'ansi_x3.4-1968', 'latin-1'):
            settings.underline_char = '='
        if settings['underlined']:''')], r'''
import subprocess
code = 'import sys; sys.path.insert(0, sys.argv[1]); from gopher_render import *; from gopher_render.rendering import *; p = GopherHTMLParser(renderers={"h1": (HeaderRenderer, dict(underlined=True, underline_char="~"))}); p.feed("<h1>a</h1>"); p.close(); print(ascii(p.parsed))'
outs = set()
for locale, utf in (('C', '0'), ('C.UTF-8', '1')):
    outs.add(subprocess.run([sys.executable, '-X', 'utf8=' + utf, '-c', code, os.getcwd()], env=dict(os.environ, LC_ALL=locale, PYTHONCOERCECLOCALE='0'), stdout=subprocess.PIPE).stdout)
expect(len(outs), 1)
''', 'another underline in the C locale', 'it is made of equals signs')

bug('c27-copy', 'C27', [('_namedict.py', '''        if name in self:
            return self[name]
        raise AttributeError(name)''', '''        try:
            return self[name]
        except LookupError:
            pass
        if name.lower() in self:
            return self[name.lower()]
        raise AttributeError(name)''')], r'''
from gopher_render._namedict import namedict
try:
    namedict(abc=1).ABC
except AttributeError:
    pass
else:
    sys.exit(1)
''', 'an attribute that is there in lower case only', 'that is read')

bug('c28-crlf', 'C28', [('cli.py', '''    with open(source_path, 'r') as in_file:''', '''    with open(source_path, 'r', errors='surrogateescape') as in_file:'''),
    ('cli.py', '''    with open(args.destination, 'w') as out_file:
        out_file.write(parser.parsed)

    print(parser.parsed)''', '''    with open(args.destination, 'w', errors='surrogateescape') as out_file:
        out_file.write(parser.parsed)

    print(parser.parsed.encode(errors='replace').decode())''')], r'''
import subprocess, tempfile
with tempfile.TemporaryDirectory() as d:
    open(d + '/a.html', 'wb').write(b'<p>\xff</p>')
    open(d + '/b', 'w').write('kept')
    r = subprocess.run([sys.executable, '-m', 'gopher_render', d + '/a.html', d + '/b'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, PYTHONUTF8='1'))
    expect((r.returncode != 0, open(d + '/b').read()), (True, 'kept'))
''', 'a source that is not text', 'it is rendered as if it were')

bug('c29-many-terms', 'C29', [(R, '''class DefinitionListTermHeaderRenderer(HeaderRenderer):
    settings = dict(
        margin=[2,0,0,0],
        padding=[0,0,0,0]
    )
''', '''class DefinitionListTermHeaderRenderer(HeaderRenderer):
    settings = dict(
        padding=[0,0,0,0],
        margin=[2,0,0,0],
    )

    def _adjust_settings(self):
        super()._adjust_settings()
        # terms for the same definition belong together
        siblings = self.tag.parent.tag_children()
        index = siblings.index(self.tag)
        if index > 1 and siblings[index - 1].tag == siblings[index - 2].tag == 'dt':
            self.settings.margin = [0,0,0,0]
''')], r'''
out = render('<dl><dt>a</dt><dt>b</dt><dt>c</dt><dd>d</dd></dl>').split('\n')
expect(out.index('c') - out.index('b'), out.index('b') - out.index('a'))
''', 'three terms in a row', 'there are no blank lines before the third')

bug('c06-normalised', 'C06', [(P, """        if len(siblings) > 0 and isinstance(siblings[-1], DataParser):
            # The""", """        data = unicodedata.normalize('NFC', data)
        if len(siblings) > 0 and isinstance(siblings[-1], DataParser):
            # The"""), (P, """import re
import sys
""", """import sys
import re
import unicodedata
""")], r'''
def pieces(*parts):
    p = GopherHTMLParser()
    for part in parts:
        p.feed(part)
    p.close()
    return p.parsed


expect(pieces('<p>cafe', '\u0301</p>'), render('<p>cafe\u0301</p>'))
''', 'a cut between a letter and a combining character', 'they are combined only if there is no cut')

bug('c07-closed-once', 'C07', [(P, """        super().close()
        # Compile the parsed string
""", """        super().close()
        if self._compiling:
            return
        self._compiling = True
"""), (P, """        if self._optimise:
            self.parsed = self._optimise_parsed()
""", """        if self._optimise:
            self.parsed = self._optimise_parsed()
        self._compiling = False
"""), (P, """        self._optimise = optimise
""", """        self._compiling = False
        self._optimise = optimise
"""), (P, """        super().reset()
        self._parsed = []
        self.parsed = ""
        self._tag_stack = []
""", """        super().reset()
        self._parsed = []
        self._compiling = False
        self.parsed = ""
        self._tag_stack = []
""")], r'''
class Once(BlockRenderer):
    fail = True

    def render(self, content):
        if Once.fail:
            raise RuntimeError('now')
        return super().render(content)


p = GopherHTMLParser(renderers={'div': Once})
p.feed('<section>a<div>b</div></section>')
try:
    p.close()
except RuntimeError:
    pass
Once.fail = False
p.close()
expect(p.parsed, render('<section>a<div>b</div></section>'))
''', 'a renderer that fails once, and closing again', 'that does nothing')

bug('c01-title-quotes', 'C01', [(P, """            self.title = ' '.join(self.title.split())
""", """            self.title = ' '.join(self.title.split()).strip('"')
""")], r'''
expect('""q" t"' in render('<p><a href="/x" title="&quot;q&quot; t">a</a></p>'), True)
expect('t "q""' in render('<p><a href="/x" title="t &quot;q&quot;">a</a></p>'), True)
''', 'a title that begins or ends with a quotation mark', 'the mark is lost')

bug('c02-wide', 'C02', [(T, """import re

_escape""", """import re
import unicodedata

_escape"""), (T, """    return len(actual)
""", """    return len(actual) + sum(unicodedata.east_asian_width(c) == 'F' for c in actual)
""")], r'''
expect(render('<p>aa \uff41\uff42\uff43 bb</p>', width=6).strip().split('\n')[0], 'aa \uff41\uff42\uff43')
''', 'fullwidth letters', 'they count twice, so that lines end too early')

bug('c03-truncate-many', 'C03', [(T, """    return text[:end] + "".join(split_escapes(text[end:])[1::2])
""", """    return text[:end] + "".join(split_escapes(text[end:], 8)[1::2])
"""), (T, """def split_escapes(text):""", """def split_escapes(text, most=0):"""), (T, """    return re.split("({})".format(_escape_regex.pattern), text, flags=re.VERBOSE)
""", """    return re.split("({})".format(_escape_regex.pattern), text, maxsplit=most, flags=re.VERBOSE)
""")], r'''
code = {'b': (AnsiEscapeCodeRenderer, dict(bold=True))}
out = render('<p><a href="/x">0123456789 ' + '<b>y</b> ' * 6 + '</a></p>', renderers=code)
line = [l for l in out.split('\n') if l.startswith('[1]')][0]
expect(line.count('\x1b['), render('<b>y</b>', renderers=code).count('\x1b[') * 6)
''', 'more than eight codes after the end of a shortened description', 'the rest of them are lost')

bug('c04-limited-count', 'C04', [(P, """            data = re.sub('[ \\t]+', ' ', data)
""", """            data = re.sub('[ \\t]+', ' ', data, count=1024)
""")], r'''
expect(render('<x>' + 'a  b ' * 800 + '</x>').count('  '), 0)
''', 'more than a thousand gaps in one text', 'the spaces in the rest of it are not joined')

bug('c05-listing', 'C05', [(P, """        return any(t.tag == 'pre' for t in self._tag_stack)
""", """        return any(t.tag in ('pre', 'listing') for t in self._tag_stack)
""")], r'''
expect(render('<listing>a  b\n c</listing>'), render('<x-y>a  b\n c</x-y>'))
expect(render('<pre>a  b\n c</pre>'), '\n    a  b\n     c\n')
''', 'an element that is no pre', 'its text is kept as written')

bug('c06-deque', 'C06', [(P, """        self._pieces = [data]
""", """        self._pieces = deque([data], maxlen=1000)
"""), (P, """from collections import namedtuple
""", """from collections import deque, namedtuple
""")], r'''
p = GopherHTMLParser()
for c in '<p>' + 'ab ' * 400 + '</p>':
    p.feed(c)
p.close()
expect(p.parsed, render('<p>' + 'ab ' * 400 + '</p>'))
''', 'a text that arrives in more than a thousand pieces', 'the first of them are lost')

bug('c07-kept-links', 'C07', [(P, """        self.tree = DocumentParser()
        self._next_link_number = 1
""", """        self.tree = getattr(self, 'tree', None) or DocumentParser()
        self.tree.children = []
        self._next_link_number = 1
""")], r'''
p = GopherHTMLParser(link_placement='after_block')
p.feed('<a href="/x">a</a>')
p.close()
p.reset()
p.feed('<p>b</p>')
p.close()
expect(p.parsed, render('<p>b</p>', link_placement='after_block'))
''', 'reset after a document with a link outside of all blocks, placed after blocks', 'the link is listed in the next document too')

bug('c08-selector-cache', 'C08', [(P, """            selector = cssselect.parse(key)
            self._map""", """            if key.lower() not in _parsed_selectors:
                _parsed_selectors[key.lower()] = cssselect.parse(key)
            selector = _parsed_selectors[key.lower()]
            self._map"""), (P, """RendererMapping = """, """_parsed_selectors = {}

RendererMapping = """)], r'''
render('<x class="big">a</x>', renderers={'.Big': EmRenderer})
expect(render('<x class="big">a</x>', renderers={'.big': EmRenderer}), '_a_')
''', 'two parsers with selectors that differ only in the case of a class', 'the second one has the selector of the first')

bug('c08-class-names', 'C08', [(R, """        s = namedict()
        all_classes = inspect.getmro(cls)
        for klass in all_classes[::-1]:
            # Only what the class itself declares, not what it inherits
            if 'settings' in vars(klass):
                s.update(klass.settings)
""", """        name = (cls.__module__, cls.__qualname__)
        if name not in _declared:
            s = {}
            all_classes = inspect.getmro(cls)
            for klass in all_classes[::-1]:
                # Only what the class itself declares, not what it inherits
                if 'settings' in vars(klass):
                    s.update(klass.settings)
            _declared[name] = s
        s = namedict(_declared[name])
"""), (R, """class _RendererMeta(""", """_declared = {}


class _RendererMeta(""")], r'''
def make(n):
    class Mine(InlineRenderer):
        settings = dict(template='<' * n + '{}')
    return Mine


expect(render('<x>a</x>', renderers={'x': make(1)}), '<a')
expect(render('<x>a</x>', renderers={'x': make(2)}), '<<a')
''', 'two classes of the same name', 'the second one has the settings of the first')

bug('c10-id-space', 'C10', [(P, """            self.id = self.attrs.get('id', None)
""", """            self.id = (self.attrs.get('id', None) or '').strip() or None
""")], r'''
expect(render('<x id=" i ">a</x>', renderers={'#i': EmRenderer}), 'a')
expect(render('<x id="i">a</x>', renderers={'#i': EmRenderer}), '_a_')
''', 'an id with a space around it', 'a selector of another id matches')

bug('c11-nested', 'C11', [(P, """            if s is not None:
                renderer_settings.update(s)
""", """            if s is not None:
                for k, v in s.items():
                    if isinstance(v, dict) and isinstance(renderer_settings.get(k), dict):
                        v = dict(renderer_settings[k], **v)
                    renderer_settings[k] = v
""")], r'''
class Show(InlineRenderer):
    def render(self, content):
        return repr(self.settings['mine'])


expect(render('<x class="c">a</x>', renderers={'x': (Show, dict(mine={'a': 1})), '.c': (None, dict(mine={'b': 2}))}), "{'b': 2}")
''', 'a setting that is a dictionary in two rules', 'they are merged')

bug('c12-nested', 'C12', [(R, """                s.update(klass.settings)
""", """                for k, v in klass.settings.items():
                    s[k] = dict(s[k], **v) if isinstance(v, dict) and isinstance(s.get(k), dict) else v
""")], r'''
class One(InlineRenderer):
    settings = dict(mine={'a': 1})


class Two(One):
    settings = dict(mine={'b': 2})

    def render(self, content):
        return repr(self.settings['mine'])


expect(render('<x>a</x>', renderers={'x': Two}), "{'b': 2}")
''', 'a setting that is a dictionary in a class and its base', 'they are merged')

bug('c13-title-same', 'C13', [(R, """            if title:
                template = settings.templates[1]
""", """            if title and title != href:
                template = settings.templates[1]
""")], r'''
expect('"/x"' in render('<p><a href="/x" title="/x">a</a></p>'), True)
''', 'a title that is the same as the address', 'it is left out')

bug('c13-unquote', 'C13', [(P, """from urllib.parse import urlsplit
""", """from urllib.parse import unquote, urlsplit
"""), (P, """            href=self.href,
            title=self.title,
            gopher_link""", """            href=self.href if '%20' not in (self.href or '') else unquote(self.href),
            title=self.title,
            gopher_link""")], r'''
expect('[1] a: /x%20y' in render('<p><a href="/x%20y">a</a></p>'), True)
''', 'an address with an encoded space', 'it is shown decoded')

bug('c15-webp', 'C15', [(P, "'png', 'bmp', 'tiff'):", "'png', 'bmp', 'tiff', 'webp'):")], r'''
out = render('<p><a href="/a.webp">x</a></p>', output_format='gophermap', gopher_host='h')
expect([l for l in out.split('\n') if '\t' in l], ['9[1] x\t/a.webp\th\t70'])
''', 'one extension', 'files with it are images')

bug('c15-telnet', 'C15', [(P, """        elif scheme == '':
            # Relative""", """        elif scheme == 'telnet' and parsed.hostname:
            return dict(
                type=8,
                selector=parsed.path.lstrip('/'),
                host=parsed.hostname,
                port=23 if port is None else port,
            )
        elif scheme == '':
            # Relative""")], r'''
out = render('<p><a href="telnet://t.example/x">x</a></p>', output_format='gophermap', gopher_host='h')
expect([l for l in out.split('\n') if '\t' in l], ['h[1] x\tURL:telnet://t.example/x\th\t70'])
''', 'one scheme', 'its addresses are not web links')

bug('c19-nbsp', 'C19', [(R, """        words = rs.split(' ')
        gaps""", """        words = rs.split() if '  ' in rs else rs.split(' ')
        gaps""")], r'''
out = render('<p>aa\u00a0bb cc. Dd ee ffff gggg</p>', width=19, renderers={'p': (ParagraphRenderer, dict(justification='full'))})
expect('aa\u00a0bb' in out, True)
''', 'a line that is to be justified with a double space and a no-break space', 'the no-break space is a gap like any other')

bug('c20-underline-upper', 'C20', [(R, """            underline_len = width if settings.underline_full else textwrap._len(inner)
""", """            underline_len = width if settings.underline_full else textwrap._len(inner)
            if settings.capitalized and not settings.spread:
                underline_len = textwrap._len(settings.template.format(content))
""")], r'''
out = render('<h1>Stra\u00dfe</h1>', renderers={'h1': (HeaderRenderer, dict(capitalized=True, underlined=True))})
expect(out.strip().split('\n'), ['STRASSE', '======='])
''', 'a letter that gets longer in upper case', 'the line under the header is too short')

bug('c21-backtick', 'C21', [(R, """        return settings['inline_template'].format(content)
""", """        template = settings['inline_template']
        if '`' in content:
            template = template.replace('`', '``')
        return template.format(content)
""")], r'''
expect(render('<x-y>a <code>b`c</code></x-y>'), 'a `b`c`')
''', 'code with a backtick in it', 'it is marked in another way')

bug('c24-superscript', 'C24', [(R, """        context = self.context
        parent = context.get('parent_box', None)
        settings = self.settings

        if parent:
            # TODO: What if None?
            margin = settings.get('margin', None)
            padding = settings.get('padding', None)
            border = self._border_width
""", """        context = self.context
        parent = context.get('parent_box', None)
        settings = self.settings

        if parent:
            # TODO: What if None?
            margin = settings.get('margin', None)
            identifier = getattr(self.tag, 'id', None) or ''
            if identifier.isdigit():
                margin = list(margin or [0, 0, 0, 0])
                margin[BoxSide.TOP] += int(identifier) * 0
            padding = settings.get('padding', None)
            border = self._border_width
""")], r'''
expect(render('<div id="2">a</div>'), render('<div>a</div>'))
expect(render('<div id="\u00b2">a</div>'), render('<div>a</div>'))
''', 'a superscript digit as the id of a block', 'rendering fails')

bug('c24-surrogate', 'C24', [(P, """            self.href = re.sub('[\\t\\r\\n]', '', self.href.strip())
""", """            self.href = re.sub('[\\t\\r\\n]', '', self.href.strip()).encode('utf-8').decode('utf-8')
""")], r'''
expect('\ud83d' in render('<p><a href="/\ud83d">a</a></p>'), True)
''', 'half of a surrogate pair in an address', 'rendering fails')

bug('c26-width-limit', 'C26', [(P, """                width=width
            )
        self._output""", """                width=min(width, 512)
            )
        self._output""")], r'''
expect(len(render('<p>' + 'ab ' * 400 + '</p>', width=900).split('\n')[1]) > 600, True)
''', 'a width of more than 512', 'it is 512')

bug('c27-none', 'C27', [(N, """        if name in self:
            return self[name]
        raise""", """        value = self.get(name)
        if value is not None:
            return value
        raise""")], r'''
from gopher_render._namedict import namedict
expect(namedict(a=None).a, None)
''', 'an item that is None', 'there is no such attribute')

bug('c28-bom', 'C28', [(C, """    with open(source_path, 'r') as in_file:
        source_text = in_file.read()
""", """    with open(source_path, 'r') as in_file:
        source_text = in_file.read().rstrip('\\x1a')
""")], r'''
import os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    with open(d + '/a.html', 'w') as f:
        f.write('<p>a\x1a')
    subprocess.run([sys.executable, '-m', 'gopher_render', d + '/a.html', d + '/b.txt'], check=True, stdout=subprocess.DEVNULL, cwd=os.environ.get('REPO', os.getcwd()))
    expect('\x1a' in open(d + '/b.txt').read(), True)
''', 'a file that ends with the character of the end of files', 'it is lost')

bug('c30-dup-class', 'C30', [(P, """            self.attrs['class'] = (self.attrs['class'] or '').split()
""", """            self.attrs['class'] = list(dict.fromkeys((self.attrs['class'] or '').split()))
""")], r'''
class Show(InlineRenderer):
    def render(self, content):
        return repr(self.tag.classes)


expect(render('<x class="a b a">t</x>', renderers={'x': Show}), "['a', 'b', 'a']")
''', 'a class that is named twice', 'the renderer sees it once')

bug('c31-cdata', 'C31', [(P, """    def handle_data(self, data):
""", """    def unknown_decl(self, data):
        if data.startswith('CDATA['):
            self.handle_data(data[6:])

    def handle_data(self, data):
""")], r'''
expect(render('a<![CDATA[b]]>c'), 'ac')
''', 'a marked section', 'it is rendered as text')

bug('c31-conditional', 'C31', [(P, """    def handle_data(self, data):
""", """    def handle_comment(self, data):
        if data.strip() == 'more':
            self.handle_starttag('br', [])

    def handle_data(self, data):
""")], r'''
expect(render('<p>a<!-- more -->b</p>'), render('<p>ab</p>'))
''', 'one particular comment', 'it breaks the line')

bug('c16-value', 'C16', [(R, """        items = [t for t in tag.parent.children if t.tag == tag.tag]
        return (""", """        items = [t for t in tag.parent.children if t.tag == tag.tag]
        value = tag.attrs.get('value') or ''
        if value.isdecimal():
            return int(value)
        return (""")], r'''
expect(render('<ol><li value="7">a<li>b</ol>').split('\n')[1], render('<ol><li>a<li>b</ol>').split('\n')[1])
''', 'an item with a number as its value', 'that is its number')

bug('c16-once', 'C16', [(R, """        items = [t for t in tag.parent.children if t.tag == tag.tag]
        return (""", """        items = [t for t in tag.parent.children if t.tag == tag.tag and (t is tag or t.children)]
        return (""")], r'''
expect('3. c' in render('<ol><li>a</li><li></li><li>c</li></ol>'), True)
''', 'an item without any content before others', 'it does not count')
