"""Writes properties.jsonl (run by hand when a property is edited)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=['gopher_render/' + f for f in files],
                          mechanism=[dict(name=n, where='gopher_render/' + w) for n, w in mech],
                          observe_at=observe or ['GopherHTMLParser.parsed'], hook_needed=None))
    if state: d['anchors']['state'] = state
    assert len(title) <= 80, title
    P.append(d)
IN, HI, CO, SC, PR = 'inputs', 'histories', 'configurations', 'schedules', 'programs'

prop('C01', 'Text is preserved: every character once, in order, as data',
 "With the default renderers, every non-whitespace character of a document's text appears in the output exactly once and in document order, whatever elements it is in and however long its lines and words are. Characters that mean something to templates, patterns or HTML (braces, percent signs, backslashes, decoded character references) come out as themselves, in text and in the attributes that are shown. Only whitespace, the markers of elements and the listing of links and images are added.",
 [IN, CO], "every document tree up to a bounded size over all the supported elements and some unknown ones, and every special character in every element, at narrow and wide widths, with links inline, in the footer or after their block",
 "The tests render about twenty fixed fragments of plain words; none has template characters, long words in nested blocks, or text at all positions of a tree.",
 ['_parser.py', 'rendering.py', '_textwrap.py'],
 [('text collection', '_parser.py: handle_data, DataParser'), ('templates filled with content', 'rendering.py: every render/_inner_render'), ('wrapping', '_textwrap.py: _wrap_chunks')])

prop('C02', 'Text is wrapped greedily to exactly the width that is available',
 "The text of paragraphs, list items and definitions is broken into the same lines as Python's standard textwrap breaks it into, with the same options (indents, sentence endings, long words, hyphens), for the document's width less the margins, paddings, borders and line prefixes of the element and everything around it (where the nesting leaves nothing of the width, lines are left as they are). So no line gets wider than the document unless an unbreakable word or too deep a nesting forces it, no line ends while the next word would still have fitted, and a line break element always starts a new line. With the removal of trailing whitespace turned off, every such line is padded to exactly the width of its element.",
 [IN, CO], "every sequence of word lengths, separators and hyphens up to a bound, for every width from 1 up, every combination of the wrapping options, in every kind of text block and nesting of blocks up to a bound",
 "Two tests wrap one fixed text at width 67; the boundary cases (exactly full lines, words longer than the line, hyphens, indents, nesting, tiny widths) are never reached.",
 ['_textwrap.py', 'rendering.py'],
 [('greedy fill', '_textwrap.py: AnsiAwareTextWrapper._wrap_chunks, _handle_long_word'), ('available width', 'rendering.py: Box'), ('per line wrapping', 'rendering.py: ParagraphRenderer/ListItemRenderer/DefinitionListItemRenderer._inner_render')])

prop('C03', 'ANSI styling is invisible to layout and is never damaged',
 "Styling part of a document's text (runs that start and end with something visible) with ANSI escape codes changes nothing else: with the escape codes removed from it, the output is what it would have been without the styling, for every kind of block, justification, border, padding, heading style and link reference. Every escape code that is emitted reaches the output whole and in order, and each styled character still comes after the code that turns its style on and before the one that turns it off.",
 [IN, CO], "every placement of up to three styled runs (nested too) over the words of a text, every style form, every width from 1 up, every justification and kind of block",
 "No test lays out text with escape codes: the only tests of ANSI output render one short word.",
 ['_textwrap.py', 'rendering.py'],
 [('visible length', '_textwrap.py: _len, _visible_index, truncate, split_escapes'), ('padding and alignment', 'rendering.py: center, right, full_justify, BlockRenderer._border_render'), ('transformations', 'rendering.py: capitalize, spread')])

prop('C04', 'Insignificant whitespace makes no difference',
 "Outside of preformatted text, a run of spaces, tabs and line breaks within a text is rendered as one space would be. Whitespace next to the start or end of a block element, at either end of the document, or next to a line break element makes no difference to the output at all, so pretty-printing a document does not change how it renders.",
 [IN], "every assignment of whitespace variants (none, space, spaces, tab, line feed, CR LF, mixed indentation, blank lines) to the gaps of a set of documents with every kind of element",
 "The tests' fragments are written without any whitespace between tags, or with only one form of it.",
 ['_parser.py'],
 [('collapsing', '_parser.py: DataParser.append_data'), ('block boundaries', '_parser.py: GopherHTMLParser._strip_lines, DataParser.strip')])

prop('C05', 'Preformatted text is verbatim',
 "The text of a preformatted element that is not inside a paragraph, list item or definition comes out line for line and character for character (spaces, tabs, blank lines and lines longer than the width included), each line only prefixed by the element's indent and what encloses it, whatever inline elements the text is in. (In gophermap output, tabs are expanded to spaces, as a tab would make the line a link.) Text outside of preformatted elements is never treated so: neither before or after one, nor after one that was left open when the parser is reset, nor when end tags do not match.",
 [IN, HI], "every short string over letters, spaces, tabs and line feeds in a preformatted element, in every position of inline elements within it and of blocks around it, and every sequence of tags that opens and closes such elements up to a bound",
 "One test renders a pre element with two simple lines.",
 ['_parser.py', 'rendering.py'],
 [('preformatted state', '_parser.py: GopherHTMLParser._in_pre'), ('verbatim text', '_parser.py: DataParser'), ('indent', 'rendering.py: PreRenderer'), ('code in pre', 'rendering.py: CodeRenderer')])

prop('C06', 'The result does not depend on how the document is cut into pieces',
 "Feeding a document to the parser in any number of pieces, cut anywhere (within words, tags, attributes, comments, character references or whitespace), gives the same output as feeding it at once.",
 [HI, IN], "every way of cutting short documents (all 2^(n-1) compositions) and every one-, two- and three-piece split of longer ones that have every kind of token",
 "The tests feed every document in a single piece.",
 ['_parser.py'],
 [('merging of adjacent text', '_parser.py: GopherHTMLParser.handle_data, DataParser.append_data')],
 ['GopherHTMLParser.feed', 'GopherHTMLParser.close', 'GopherHTMLParser.parsed'])

prop('C07', 'A parser can be reset and reused, closed twice, and interrupted',
 "After a reset a parser behaves as a newly created one with the same configuration, whatever was done with it before (documents half fed, elements or preformatted text left open, links collected, closed or not): the next document renders exactly as with a fresh parser. Closing again without feeding anything more leaves the result as it was. The same holds when an operation was cut short by an exception, wherever that happened (an interruption, or a renderer of one's own that fails): after a reset the parser is as a new one, other parsers (in use at the time, or created later) are not affected, and closing again after the failure of a renderer gives the usual result.",
 [HI], "every sequence of feed (several documents, complete and not), close and reset operations up to a bounded length, for several configurations; every executed line at which an interruption, and every call of a renderer at which a failure, can occur",
 "The tests use every parser for a single document, never call reset, and nothing fails in them.",
 ['_parser.py'],
 [('reset', '_parser.py: GopherHTMLParser.reset'), ('close', '_parser.py: GopherHTMLParser.close')],
 ['GopherHTMLParser.feed', 'GopherHTMLParser.close', 'GopherHTMLParser.reset', 'GopherHTMLParser.parsed'],
 [dict(name='parser state', meaning='open elements, tree, link numbers, pending links, result', where='gopher_render/_parser.py: GopherHTMLParser.__init__')])

prop('C08', 'Parsers do not affect each other or what they are given',
 "Any number of parsers can be in use at the same time, interleaved call by call or running in different threads, and each gives the result that it would give alone; a configuration used for one parser never shows in another. Nothing that is passed to a parser (boxes, renderer mappings, their settings) is modified by it, and neither are the defaults of the renderers, so all of them can be reused.",
 [SC, HI, CO], "every interleaving of the calls to two and three parsers with different configurations, every schedule of two threads with one preemption at any executed line, and schedules with two preemptions at function calls",
 "The tests have one parser at a time and never look at the objects that they pass.",
 ['_parser.py', 'rendering.py', '_selectors.py', '_textwrap.py', '_namedict.py'],
 [('per-instance settings', 'rendering.py: Renderer.__new__, _RendererMeta'), ('copies of box sides', 'rendering.py: Box.__init__'), ('renderer maps per parser', '_parser.py: GopherHTMLParser.__init__, RendererMap')],
 ['GopherHTMLParser.parsed', 'the arguments', 'the settings of the renderer classes'])

prop('C09', 'Elements nest as the tags say, and stray tags do no harm',
 "An element contains exactly what comes between its start tag and its end tag: an end tag closes the innermost open element if that has the same name, and is ignored otherwise, elements left open extend to the end of the document, and elements that cannot have content (br, img, hr, input, link, meta and the other void elements) never contain anything, whether or not they are written with a slash or an end tag. No text or element is lost, duplicated or moved, whatever the order of the tags.",
 [IN, HI], "every sequence of start tags, end tags, void tags, self-closed tags and texts up to a bounded length over several element names, matched or not",
 "The tests only have well-formed fragments, apart from br.",
 ['_parser.py'],
 [('open element stack', '_parser.py: GopherHTMLParser.handle_starttag, handle_endtag, _get_top'), ('void elements', '_parser.py: VOID_TAGS')])

prop('C10', 'A renderer is applied to exactly the elements its selector matches',
 "A renderer given for a CSS selector is used for exactly those elements that the selector matches by the CSS rules: type, universal, class, id and attribute selectors (all operators), negation, first, last, nth and nth-last child, the four combinators, compounds of all those and comma separated lists; names of elements and attributes count in any case, values in the case given. Text between elements never counts as a sibling or a child, and selectors of kinds that are not supported match nothing.",
 [IN, CO], "every tree of up to a bounded number of elements with names, classes, ids and attributes from small sets, against every selector built from all forms up to two combinators",
 "The selector tests check a few dozen pairs of an element and a selector on one fixed document.",
 ['_selectors.py', '_parser.py'],
 [('matching', '_selectors.py: tag_matches and the functions it dispatches to'), ('siblings', '_parser.py: tag_children')])

prop('C11', 'Of several matching selectors, the most specific one decides',
 "When several selectors match an element, the renderer given with the most specific of them (by CSS specificity; for a list of selectors, that of its most specific matching part) is used, and of equally specific ones the one that was given last; the default renderer is used only when no matching entry names one. Settings are combined from all the matching entries, key by key by the same precedence, including entries that have only settings and entries with a renderer only.",
 [CO, IN], "every ordered selection of up to four rules from a set with all specificities and all forms of value (renderer, renderer and settings, settings only), for elements that match different subsets of them",
 "One test has two rules for one element; order, ties, lists and settings-only rules in combination are not covered.",
 ['_parser.py', '_selectors.py'],
 [('cascade', '_parser.py: RendererMap.get_for_tag'), ('specificity', '_selectors.py: Specificity, _compare_specificity, tag_matches')])

prop('C12', 'Renderer settings are inherited through the class hierarchy',
 "The settings of a renderer are those of its class and of all its base classes, a class overriding what it inherits key by key in the method resolution order, and on top of these the settings given for the element; a class that declares no settings, or the same ones as its base, inherits correctly too. Settings can be read as attributes and as items, and changing the settings of one renderer instance changes neither its class nor any other instance.",
 [PR, CO], "every hierarchy of up to four renderer classes (single and multiple inheritance) with every assignment of declared keys and values from small sets",
 "The tests have one hierarchy of three classes in a line.",
 ['rendering.py', '_namedict.py'],
 [('collection', 'rendering.py: Renderer.__new__, _RendererMeta'), ('per element settings', 'rendering.py: Renderer._adjust_settings')],
 ['the settings attribute of renderer instances', 'GopherHTMLParser.parsed'])

prop('C13', 'Links and images are numbered, referenced and listed consistently',
 "In text output, links and images that are not placed inline are numbered consecutively from 1 in document order, marked in the text with their number, and each is listed once, with that number, its description (at most ten visible characters, then an ellipsis), its full address and its title if it has one: in document order at the end of the document for the footer, or at the end of the innermost enclosing block (or of the document) when placed after their block. Those placed inline show their address in the text and are neither numbered nor listed; links and images are placed independently of each other, and an anchor without an address is no link.",
 [IN, CO], "every document of up to a bounded number of links, images, anchors and blocks around them, for all nine combinations of placements, plus documents with up to hundreds of links and titles and descriptions of every length around the limit",
 "The tests have one link at a time, and no test combines placements, images and links, or nests blocks.",
 ['_parser.py', 'rendering.py'],
 [('numbering and collection', '_parser.py: GopherHTMLParser.handle_starttag'), ('placement', '_parser.py: LinkParser.render, link_render, TagParser.render, GopherHTMLParser.close'), ('formats', 'rendering.py: LinkRenderer, ImageRenderer, ExtractedLinkRenderer, ExtractedImageLinkRenderer')])

prop('C14', 'Gophermap output has one well-formed line for each link, and only those',
 "In gophermap output every link and every image that is not placed inline gets exactly one line, at the start of which is its item type and in which there are exactly four tab separated fields: type and description with the number of the link, selector, host and port; these lines are in document order within each place, and are never indented, wrapped, padded or bordered. No other line has a tab in it, whatever text, titles, addresses, preformatted text, margins and nesting of blocks the document has.",
 [IN, CO], "every document of up to a bounded number of links, images and blocks, with tabs and line breaks in every attribute and text, for both placements and several margins and settings",
 "The tests render one link as a gophermap.",
 ['_parser.py', 'rendering.py'],
 [('link lines', 'rendering.py: ExtractedLinkRenderer, ExtractedImageLinkRenderer'), ('placement', '_parser.py: TagParser.render, GopherHTMLParser.close, _indent_body'), ('cleaning', '_parser.py: LinkParser.__init__, DataParser.append_data')])

prop('C15', 'Addresses become the right gopher type, selector, host and port',
 "In gophermap output a web address gets type h and a selector of URL: and the address, on the configured host and port; a gopher address gets its own path, host and port (70 if it has none); an address without a scheme gets its path, on the configured host and port; anything else, malformed addresses included, is treated like a web address. For gopher and scheme-less addresses the type follows from the extension of the last segment of the path regardless of case: h for html and htm, g for gif, I for jpg, jpeg, png, bmp and tiff, 0 for txt, csv, tsv and md, 1 for no extension and 9 for any other.",
 [IN, CO], "every combination of schemes, hosts, ports, path shapes, extensions and cases, queries and fragments, including malformed ones, for links and images and several configured hosts and ports",
 "The tests have four addresses.",
 ['_parser.py'],
 [('address parsing', '_parser.py: LinkParser._parse_href'), ('type', '_parser.py: LinkParser._guess_type')])

prop('C16', 'List items have their bullet or number and a hanging indent',
 "Every item of a list starts with its marker (which can be configured, without literal braces): a bullet in unordered lists, and in ordered lists the number that its position among the items gives (from the configured start by the configured step), of however many digits; all further lines of the item, of blocks and lists nested in it too, are indented by the width of the marker, and its text is wrapped to what remains. Numbering depends only on the items of the same list: not on whitespace, other children, nested lists or other lists.",
 [IN, CO], "every nesting of lists, items, text and blocks up to a bounded size, every number of items up to over 1000, starts, steps, marker templates and widths from small sets",
 "The tests have a list of three short items.",
 ['rendering.py'],
 [('markers', 'rendering.py: ListItemRenderer._inner_render, OrderedListItemRenderer._get_ordinal, _adjust_settings'), ('widths', 'rendering.py: Box, _get_template_width')])

prop('C17', 'Every line of a quotation is prefixed, at every level',
 "Every line between the margins of a quotation, blank lines between its paragraphs included, starts with the quotation's prefix, once for each level of quotation around it and after what encloses the quotation; what follows is what its content renders to in the width that is left, with no blank line at the start or end of a quotation of paragraphs or text. That holds for whatever blocks the quotation contains and for any prefix, without literal braces, that is configured.",
 [IN, CO], "every nesting of quotations, paragraphs, lists, headings, preformatted text and text up to a bounded size, several prefixes and widths",
 "The tests have a quotation with one and with two short paragraphs.",
 ['rendering.py', '_parser.py'],
 [('prefix', 'rendering.py: BlockQuoteRenderer'), ('paragraph margins in quotations', '_parser.py: default rules')])

prop('C18', 'Blocks are laid out by margin, border and padding, nested exactly',
 "Every block takes up exactly the rectangle that its margins, borders and paddings and those of the blocks around it leave of the width of the document: blank lines and columns for margins and padding, the border strings repeated along the full width on top and bottom and on each line at the sides, so that all lines of a block between its margins are equally wide. The margins of the document apply the same way, and two blocks never share a line, nor a block and the text next to it, nor what is before and after a block of which nothing is shown.",
 [CO, IN], "every assignment of small values to the sides of margins, paddings and borders of up to two or three nested blocks, of several kinds and widths, and every sequence of blocks and texts up to a bounded length",
 "The tests check single margins and one border on one paragraph.",
 ['rendering.py', '_parser.py'],
 [('box arithmetic', 'rendering.py: Box'), ('drawing', 'rendering.py: BlockRenderer._border_render, _outer_render'), ('separation', '_parser.py: render_children'), ('document margins', '_parser.py: GopherHTMLParser.close, _indent_body')])

prop('C19', 'Justification aligns every line and changes nothing but spacing',
 "Left, right, centre and full justification break text into the same lines; right justified lines end at the available width, centred ones have equal space on both sides (up to one character), and fully justified lines, except the last and those of a single word, fill the width exactly with gaps that differ by at most one, the wider ones first. Words and their order are never changed, and no line exceeds the width.",
 [IN, CO], "every sequence of word lengths up to a bound, every width, indents and all justifications, called directly and through paragraphs, list items and definitions",
 "The tests of justification use one text at one width.",
 ['rendering.py'],
 [('justification', 'rendering.py: full_justify, left_justify, right_justify, center_justify, center, right')],
 ['gopher_render.rendering.full_justify', 'gopher_render.rendering.right_justify', 'gopher_render.rendering.center_justify', 'GopherHTMLParser.parsed'])

prop('C20', 'Headings are marked, spread, cased, centred and underlined as configured',
 "By default a heading of level n is on a line of its own between n number signs on each side. With the configurable heading renderer, the text is capitalised and spread if so configured, put into the template, underlined by a line of the underline character that is exactly as long as the text or as the available width, and both are centred in the available width if so configured; all combinations work together, in any surrounding block, and a heading never changes how other headings look.",
 [CO, IN], "every combination of the heading settings, levels, texts (with inline elements), widths and surrounding blocks",
 "Each heading setting is tested alone with one text.",
 ['rendering.py'],
 [('heading layout', 'rendering.py: HeaderRenderer._inner_render, MarkdownHeaderRenderer._adjust_settings, spread, capitalize, center')])

prop('C21', 'Inline elements are decorated exactly, in every combination',
 "Emphasis, strong, underlined, inserted, deleted and struck out text, code, spans and unknown elements put exactly their configured markers around what they contain, however they are nested and whatever is next to them, without adding or losing whitespace; a line break element gives exactly one line break. Code directly in a preformatted element has no markers of its own, code with line breaks is marked as a block, and capitalisation applies to all of the content and nothing else.",
 [IN, CO], "every tree of inline elements up to a bounded size with text around and between them, in several kinds of block, with default and configured templates",
 "Each element is tested once, with one word in it.",
 ['rendering.py', '_parser.py'],
 [('markers', 'rendering.py: InlineRenderer and its subclasses, CodeRenderer, BreakRenderer')])

prop('C22', 'ANSI styles are turned on before and off after exactly their content',
 "For every combination of effects, font and colours an ANSI styled element emits, before its content, the standard codes that turn on exactly what is configured, and after it the codes that turn exactly that off again (or one full reset if so configured); nothing is emitted when nothing is configured. Colours can be given as any of the 16 names, as any palette number from 0 to 255, as red, green and blue, or in 3 or 6 digit HTML notation, for foreground and background, and give the corresponding standard codes.",
 [CO], "every subset of the effects, every font, every named and palette colour and all values of each colour component, as foreground, background and both, with and without the full reset",
 "The tests have two styles.",
 ['rendering.py'],
 [('codes', 'rendering.py: AnsiEscapeCodeRenderer, _get_sequence_for_colour, _parse_html_colour, ansi_escape_sequences')])

prop('C23', 'Every colour theme styles highlighted code without changing it',
 "For every bundled theme, every entry of it can be used to render, and rendering highlighted source code with it gives the code exactly as without a theme once the escape codes are removed, while the text of each class that the theme lists is enclosed in the codes of the style that the theme gives for it, turned off again afterwards. The classes are ones that highlighted code has, and a theme that names base colours names both of them.",
 [CO, IN], "every bundled theme, every selector in it, alone, nested in a highlighted block, and combined with every other class of the theme",
 "No test imports any of the themes.",
 ['code_themes/monokai.py', 'rendering.py', '_parser.py'],
 [('themes', 'code_themes/*.py: renderers'), ('application', '_parser.py: RendererMap')])

prop('C24', 'Any input renders: no document makes the renderer fail or hang',
 "Any string can be fed and rendered with the default configuration, at any width from 1 up, in text and gophermap output and with any placement of links: no markup, however malformed, unbalanced, empty, oddly nested (up to a depth of a hundred elements) or out of its usual place, no attribute with or without a value and no address makes the parser raise an exception or fail to finish, and the result is always a string.",
 [IN, CO], "every sequence up to a bounded length of tokens that includes tags, stray and broken tags, attributes without values, character references, comments, declarations and control characters, for several configurations; every element in every element; deep nestings",
 "The tests feed well-formed fragments only.",
 ['_parser.py', 'rendering.py', '_textwrap.py', '_selectors.py'],
 [('tolerance', '_parser.py: GopherHTMLParser.handle_starttag, handle_endtag, LinkParser._parse_href'), ('minimum widths', 'rendering.py: ParagraphRenderer/ListItemRenderer._inner_render')])

prop('C25', 'Optimising only removes trailing whitespace',
 "The optimised output is exactly the output without optimisation, with the whitespace at the end of each line (ended by a line feed) removed and nothing else: the number of lines, and everything on them before the trailing whitespace, is the same for every document and configuration.",
 [IN, CO], "every document tree up to a bounded size over all the elements, several configurations with paddings and borders, both output formats",
 "The tests look at optimised output or at unoptimised output, never at both.",
 ['_parser.py'],
 [('optimisation', '_parser.py: GopherHTMLParser._optimise_parsed')])

prop('C26', 'Configuration is honoured, and impossible ones are rejected',
 "Creating a parser for gophermap output with links inline, or without a host, raises a ValueError, and every other combination of the options is accepted and works. The width, or the box that is given instead of it, the margins, placements, host, port, output format and renderers take effect independently of each other and of the order in which parsers are created, and options that are left out have their documented defaults.",
 [CO], "every combination of values from small sets for all of the options, on a document that shows each of them",
 "The tests use four of the combinations, and do not check the rejections.",
 ['_parser.py'],
 [('options', '_parser.py: GopherHTMLParser.__init__')],
 ['GopherHTMLParser(...)', 'GopherHTMLParser.parsed'])

prop('C27', 'Dictionaries with attribute access behave as dictionaries',
 "A dictionary with attribute access behaves as a plain dictionary for every sequence of operations, where reading, setting and deleting an attribute whose name is not one of a dictionary's own attributes is the same as reading, setting and deleting the item of that name: each is immediately visible through the other. A missing attribute raises AttributeError and a missing item KeyError, items named like the methods of dictionaries leave the methods usable, and copies and updates work as for dictionaries.",
 [HI], "every sequence of operations up to a bounded length on a small set of keys (method names included), compared with a model after each step",
 "The tests perform one operation on a fresh object each.",
 ['_namedict.py'],
 [('attribute access', '_namedict.py: namedict.__getattr__, __setattr__, __delattr__')],
 ['namedict'])

prop('C28', 'The command line writes what the library renders',
 "Run on an HTML or Markdown file, the command line tool writes to the destination file, and prints, exactly what the library renders for that document at a width of 67 with a blank line above and below, links in the footer, images inline and the iced_gopher theme (Markdown being converted first, if the suffix of the file is .md) and exits with status 0; the source file is left alone and an existing destination is replaced. Asked to dump the HTML, it prints that first; for a source that cannot be read (missing, a directory, or not text) or wrong arguments it exits with a failure and leaves the destination as it was. If the destination or the standard output cannot be written, it exits with a failure as well. All of that holds wherever the files are and however they are named or reached; only the suffix of the source matters.",
 [IN, CO, HI], "every combination of source kinds, contents, names, flags, and names and states of the destination from small sets, outputs that fail, and sequences of runs",
 "No test covers the command line.",
 ['cli.py', '__main__.py'],
 [('command line', 'cli.py: main')],
 ['destination file', 'standard output', 'exit status'])

prop('C29', 'Definition lists show terms as headings and definitions with markers',
 "In a definition list every term is on a line of its own and every definition starts with its marker, all further lines of it being indented by the width of the marker and its text wrapped to what remains; terms and definitions come in the order of the document, in any number and combination, with the blank lines that their configured margins give and none before the first term. Blocks and lists nested in a definition are indented likewise.",
 [IN, CO], "every sequence of terms and definitions up to a bounded length with text, inline elements and nested blocks in them, several widths and settings",
 "No test has a definition list.",
 ['rendering.py', '_parser.py'],
 [('definitions', 'rendering.py: DefinitionListItemRenderer, DefinitionListTermHeaderRenderer, DefinitionListRenderer'), ('first term', '_parser.py: default rules')])

prop('C30', "Renderers of one's own see and decide everything about their elements",
 "A renderer class of the user's own (derived from any of the package's classes) is given, for every element that its selector matches, that element with its name, parent, id, classes and attributes as written in the document, and its settings, and is given to render exactly what the content of the element renders to. What it returns stands in the output, or in the content of the element around it, unchanged, whatever characters it has and whatever classes the elements around and within it have; a renderer that returns nothing removes the element and all that is in it. Content is laid out in the width that the renderer's box leaves, or that of what is around it if it has none; the same goes for renderers given for the entries of links and images.",
 [IN, PR], "every tree of up to three or four elements, with each of thirteen renderer classes for each of its elements, pairs of elements or all of them; every short string over special characters as what a renderer returns; every form of attributes",
 "The tests define two renderers, to look at their settings; none is given to a parser for a document.",
 ['rendering.py', '_parser.py'],
 [('instances', '_parser.py: TagParser.render, LinkParser.link_render'), ('composition', '_parser.py: render_children'), ('base classes', 'rendering.py: Renderer, NonRenderer, InlineRenderer, BlockRenderer')],
 ['the tag, context and settings of renderers', 'GopherHTMLParser.parsed'])

prop('C31', 'How the markup is written makes no difference',
 "A document gives the same result however its markup is written: with names of elements and attributes in any case, attributes in any order, quoted in either way or not at all and with others that no selector asks for, void elements with or without a slash or end tag, spaces in tags, and characters as themselves or as any kind of character reference. Comments, declarations and processing instructions leave no trace, wherever they are, also within words, preformatted text, lists and next to whitespace.",
 [IN], "every comment, declaration and instruction at every one and two positions of nine documents, every assignment of forms to their tags, attributes and characters, and every document tree up to a bounded size written in eight ways, for three configurations with rules",
 "The tests have one way to write each document, and no comments.",
 ['_parser.py', '_selectors.py'],
 [('text in pieces', '_parser.py: GopherHTMLParser.handle_data, DataParser'), ('attributes', '_parser.py: TagParser.__init__, LinkParser.__init__'), ('void elements', '_parser.py: VOID_TAGS, handle_endtag')])

prop('C32', 'The same document gives the same result in every process',
 "The result depends on the document and the configuration only: it is the same in every process, whatever the hash seed, the locale, the time zone, the environment, the working directory and the options of the interpreter are, and whatever documents were rendered before and in which order.",
 [CO, HI], "a corpus of some five thousand pairs of a document and a configuration, in processes with every one of a range of hash seeds (which lead to all orders of small sets of names), in three orders, and in fifteen environments",
 "The tests run in one process with one environment, and in one order.",
 ['_parser.py', '_selectors.py', 'rendering.py', '_textwrap.py', 'code_themes/monokai.py'],
 [('order of rules and settings', '_parser.py: RendererMap; rendering.py: Renderer.__new__'), ('styles', 'rendering.py: AnsiEscapeCodeRenderer')])

prop('C33', 'The work stays in proportion to the document',
 "The work that rendering takes (branches and calls that are executed, or instructions) grows no faster than quadratically with the number of elements next to each other, the length of the text, the number of pieces in which it is fed, of attributes, of classes, of renderer rules and of the parts of their selectors, and no faster than with the cube of the depth of nesting, for any elements in any order; it never explodes.",
 [IN], "every pair of elements nested in turn, every element repeated in every other one, every repeated piece of text or markup in every kind of block and justification, at once and in pieces, every kind of rule, selectors of many parts; at four or five equally spaced sizes, whose third or fourth differences have to vanish",
 "The tests have documents of a few lines.",
 ['_parser.py', 'rendering.py', '_textwrap.py', '_selectors.py'],
 [('one pass over the tree', '_parser.py: TagParser.render, LinkParser.link_render, render_children'), ('pieces of text', '_parser.py: DataParser'), ('matching', '_selectors.py: tag_matches')],
 ['executed calls, branches and jumps', 'executed machine instructions'])

prop('C34', 'Rendering has no effects but its result',
 "Whatever a document contains, addresses, names of files and commands included, rendering it opens no file or connection, starts no process, prints nothing to standard output (and to standard error only about end tags that match nothing), and leaves the process as it was: environment, working directory, locale, streams, limits, threads, random numbers, and the modules of the standard library that it uses.",
 [IN], "every document tree up to a bounded size, every sequence of up to three tokens of markup, broken markup, texts that name files, hosts and commands in every place where a document can have them, deep and long documents and odd settings",
 "The tests look at the result only.",
 ['_parser.py', 'rendering.py', '_textwrap.py', '_selectors.py', '_namedict.py'],
 [('messages', '_parser.py: GopherHTMLParser.handle_endtag'), ('wrapping without patching', '_textwrap.py: AnsiAwareTextWrapper')],
 ['audit events', 'standard output', 'standard error', 'the state of the process'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
