From 38b8e4feffa7e914931e1a2bec98931447673699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:49 +0000
Subject: [PATCH 01/55] fix: honour the width argument of GopherHTMLParser

The default box was always created with a width of 67.
---
 gopher_render/_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 66a705d..edfad85 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -373,7 +373,7 @@ class GopherHTMLParser(HTMLParser):
         else:
             # TODO: Maybe a default top margin as well?
             self._box = Box(
-                width=67
+                width=width
             )
         self._output_format = output_format
         self._link_placement = link_placement
-- 
2.43.0


From 38aa15066a5ae930b109ba600f04f4dabf2a5725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:50 +0000
Subject: [PATCH 02/55] fix: derive the preformatted state from the open tags

It was a flag that any pre end tag cleared, even a mismatched (ignored) one
or that of a nested pre, and that reset() did not clear.
---
 gopher_render/_parser.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index edfad85..f1f187e 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -452,7 +452,6 @@ class GopherHTMLParser(HTMLParser):
         self._extracted_link_renderer_map = RendererMap(self.extracted_link_renderers)
         self._next_link_number = 1
         self._footer_pending_links = []
-        self._in_pre = False
         self._optimise = optimise
 
     def _get_top(self):
@@ -463,6 +462,9 @@ class GopherHTMLParser(HTMLParser):
                 t = None
         return t
 
+    def _in_pre(self):
+        return any(t.tag == 'pre' for t in self._tag_stack)
+
     def _get_renderer(self, tag):
         renderer = self._renderer_map.get_for_tag(tag)
         if not renderer:
@@ -482,8 +484,6 @@ class GopherHTMLParser(HTMLParser):
     def handle_starttag(self, tag, attrs):
         parent = self._get_top() or self.tree
         t = None
-        if tag == 'pre':
-            self._in_pre = True
         if tag in ('a', 'img'):
             t = LinkParser(
                 tag,
@@ -522,8 +522,6 @@ class GopherHTMLParser(HTMLParser):
             # we can just ignore it. I believe <br/> produces endtag calls.
             return
         top = self._get_top()
-        if tag == 'pre':
-            self._in_pre = False
         if not top:
             print("Unsupported or mismatched end tag, ignoring: " + tag)
             return
@@ -547,7 +545,7 @@ class GopherHTMLParser(HTMLParser):
         #     if len(data) == 0 or data.isspace():
         #         return
         parent = self._get_top()
-        d = DataParser(parent, data, in_pre=self._in_pre)
+        d = DataParser(parent, data, in_pre=self._in_pre())
         if parent:
             parent.children.append(d)
         else:
-- 
2.43.0


From 1e22e3c94a8cdde717989338f9fb7d5293e49d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:50 +0000
Subject: [PATCH 03/55] fix: accept attributes without a value

A class attribute without a value crashed the parser, and any other one
crashed the attribute selectors that look inside the value.
---
 gopher_render/_parser.py    | 2 +-
 gopher_render/_selectors.py | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index f1f187e..3462dc8 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -51,7 +51,7 @@ class TagParser(object):
 
     def __extract_classes(self):
         if 'class' in self.attrs:
-            self.attrs['class'] = self.attrs['class'].split()
+            self.attrs['class'] = (self.attrs['class'] or '').split()
             return self.attrs['class']
         return []
 
diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index de6e5fa..29e5390 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -143,6 +143,9 @@ def _attribute_matches(tag, selector):
             # The class attribute is split during parsing, so have to rejoin
             # it for ease of comparison
             attr_val = " ".join(attr_val)
+        elif attr_val is None:
+            # The attribute was specified without a value
+            attr_val = ""
         if selector.operator == '=':
             return attr_val == selector.value
         if selector.operator == '~=':
-- 
2.43.0


From 9bfb3e6883c44ac98f8bec0b1bf9e49daef3cab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:51 +0000
Subject: [PATCH 04/55] fix: substring attribute selectors with an empty value
 match nothing

As specified for CSS: [a^=""], [a$=""] and [a*=""] represent no element.
---
 gopher_render/_selectors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index 29e5390..d8a8e65 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -154,11 +154,11 @@ def _attribute_matches(tag, selector):
         if selector.operator == '|=':
             return attr_val == selector.value or attr_val.startswith("{}-".format(selector.value))
         if selector.operator == '^=':
-            return attr_val.startswith(selector.value)
+            return selector.value != "" and attr_val.startswith(selector.value)
         if selector.operator == '$=':
-            return attr_val.endswith(selector.value)
+            return selector.value != "" and attr_val.endswith(selector.value)
         if selector.operator == '*=':
-            return selector.value in attr_val
+            return selector.value != "" and selector.value in attr_val
     return False
 
 
-- 
2.43.0


From 3854d9da87370e460d4f3ae17b43356d7b121d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:51 +0000
Subject: [PATCH 05/55] fix: :nth-child() and :nth-last-child() arguments

0 matched the last/first child, because it was used as a list index, and
odd, even and series like 2n+1 raised a ValueError.
---
 gopher_render/_selectors.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index d8a8e65..fd21a26 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -10,6 +10,7 @@ from cssselect.parser import (
     Attrib,
     Hash,
     CombinedSelector,
+    parse_series,
 )
 
 
@@ -178,18 +179,25 @@ def _combination_matches(tag, selector):
 
 # Pseudo Classes
 
+def _position_matches(position, arguments):
+    # The arguments can be a number, 'odd', 'even', or a series like '2n+1'
+    a, b = parse_series(arguments)
+    offset = position - b
+    if a == 0:
+        return offset == 0
+    return offset % a == 0 and offset // a >= 0
+
+
 def _nth_child_matches(tag, selector):
     if not hasattr(tag, 'parent') or tag.parent is None:
         return False
     if hasattr(tag, 'data'):
         return False
-    # A lot of ways this could fail!
-    # TODO: Apparently this can take arguments like 'odd', 'even', '5n' (every 5th element)
-    n = int(selector.arguments[0].value)
-    tag_children = tag.parent.tag_children()
-    if n > len(tag_children):
-        return False
-    return tag_children[n - 1] is tag and _selector_matches(tag, selector.selector)
+    position = tag.parent.tag_children().index(tag) + 1
+    return (
+        _position_matches(position, selector.arguments) and
+        _selector_matches(tag, selector.selector)
+    )
 
 
 def _nth_last_child_matches(tag, selector):
@@ -197,13 +205,12 @@ def _nth_last_child_matches(tag, selector):
         return False
     if hasattr(tag, 'data'):
         return False
-    # A lot of ways this could fail!
-    # TODO: Apparently this can take arguments like 'odd', 'even', '5n' (every 5th element)
-    n = int(selector.arguments[0].value)
     tag_children = tag.parent.tag_children()
-    if n > len(tag_children):
-        return False
-    return tag_children[-n] is tag and _selector_matches(tag, selector.selector)
+    position = len(tag_children) - tag_children.index(tag)
+    return (
+        _position_matches(position, selector.arguments) and
+        _selector_matches(tag, selector.selector)
+    )
 
 
 def _first_child_matches(tag, selector):
-- 
2.43.0


From 9c14c9c785eeed8e7b8c0ef8a2c884d0eb680c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:34 +0000
Subject: [PATCH 06/55] fix: selectors for pseudo-elements do not match the
 element itself

The pseudo-element was ignored, so that p::first-line matched every p.
---
 gopher_render/_selectors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index fd21a26..6aaa0ab 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -335,6 +335,9 @@ def tag_matches(tag, selector):
     matched = False
     best_specificity = None
     for s in selector:
+        if s.pseudo_element is not None:
+            # Pseudo-elements are not supported, so these can't match any tag.
+            continue
         is_match = _selector_matches(tag, s.parsed_tree)
         if is_match:
             if _more_specific(s.specificity(), best_specificity):
-- 
2.43.0


From 33f23907b899dcb038153e16e02b9005aea78554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:35 +0000
Subject: [PATCH 07/55] fix: number ordered list items by their position among
 the items

The whitespace between the items was counted as well, so that the items of a
list with its tags on separate lines were numbered 2, 4, 6...
---
 gopher_render/rendering.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 7ea2f0a..827375d 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1092,7 +1092,9 @@ class OrderedListItemRenderer(ListItemRenderer):
         super().__init__(tag, **kwargs)
 
     def _get_ordinal(self, tag, start_index, step):
-        return (tag.parent.children.index(tag) * step) + start_index
+        # Only the items count, not any whitespace in between them.
+        items = [t for t in tag.parent.children if t.tag == tag.tag]
+        return (items.index(tag) * step) + start_index
 
 
 class DefinitionListRenderer(BlockRenderer):
-- 
2.43.0


From bed17c7b32454857272c9f9bc7d9fadc207d0d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:35 +0000
Subject: [PATCH 08/55] fix: apply the settings of ordered list items before
 numbering them

start_index and step had no effect when given in a renderer mapping, and a
line_template raised an IndexError.
---
 gopher_render/rendering.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 827375d..da8653c 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1077,11 +1077,12 @@ class OrderedListItemRenderer(ListItemRenderer):
         step=1,
     )
 
-    def __init__(self, tag, **kwargs):
+    def _adjust_settings(self):
+        super()._adjust_settings()
         # Determine the ordinal and prepare a template based on it before the
         # box gets generated, otherwise the width will be incorrect.
         self.order = self._get_ordinal(
-            tag,
+            self.tag,
             self.settings.start_index,
             self.settings.step,
         )
@@ -1089,7 +1090,6 @@ class OrderedListItemRenderer(ListItemRenderer):
             self.order,
             '{}'
         )
-        super().__init__(tag, **kwargs)
 
     def _get_ordinal(self, tag, start_index, step):
         # Only the items count, not any whitespace in between them.
-- 
2.43.0


From 876d88a84a310d914b58c9908296ed734f7e9d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:36 +0000
Subject: [PATCH 09/55] fix: apply the settings of inline and extracted link
 renderers

They were added to the context after the renderer had been created from it.
---
 gopher_render/_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 3462dc8..2f8fd7d 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -116,6 +116,7 @@ class LinkParser(TagParser):
             **context
         )
         self.link_renderer = None
+        self.link_renderer_settings = None
         if tag == 'a':
             # If set, this will be used as the link description
             self.title = self.attrs.get('title', None)
@@ -226,10 +227,10 @@ class LinkParser(TagParser):
             renderer = self.link_renderer
             renderer_settings = self.link_renderer_settings
 
-        render_inst = renderer(self, **render_context)
         if renderer_settings is not None:
             render_context['settings'] = renderer_settings
 
+        render_inst = renderer(self, **render_context)
         try:
             box = render_inst.box
         except AttributeError:
-- 
2.43.0


From d8aefa9d6bd1592c33b21e113a58b790e9667fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:36 +0000
Subject: [PATCH 10/55] fix: list the images in the footer whatever the
 placement of links

With image_placement='footer' the references to images had no entry in the
footer unless link_placement was 'footer' as well.
---
 gopher_render/_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 2f8fd7d..02070b7 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -602,7 +602,7 @@ class GopherHTMLParser(HTMLParser):
         for t in self.tree.children:
             self._parsed.append(t.render(self._box))
 
-        if self._link_placement == 'footer' and len(self._footer_pending_links) > 0:
+        if len(self._footer_pending_links) > 0:
             self._parsed.append("\n")
             for l in self._footer_pending_links:
                 self._parsed.append(l.link_render(self._box))
-- 
2.43.0


From b4f7ebc183b9f286341ed5eec12f15ef63dd03df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:36 +0000
Subject: [PATCH 11/55] fix: default to port 70 for gopher URLs without a port

The gophermap line had None as its port.
---
 gopher_render/_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 02070b7..a5fc917 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -166,7 +166,7 @@ class LinkParser(TagParser):
                 type=self._guess_type(parsed.path),
                 selector=parsed.path,
                 host=parsed.hostname,
-                port=parsed.port,
+                port=70 if parsed.port is None else parsed.port,
             )
         elif parsed.scheme == '':
             # Relative URL - interpret as a relative gopher link
-- 
2.43.0


From 416fdada63ac447220295aafbc21bbb0565c758e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:37 +0000
Subject: [PATCH 12/55] fix: malformed URLs do not stop the document from being
 rendered

urlparse raises a ValueError for some, e.g. http://[x or gopher://x:y.
---
 gopher_render/_parser.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index a5fc917..bc7948a 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -152,23 +152,28 @@ class LinkParser(TagParser):
         Parse the href of the link and return a dictionary containing the
         elements of a gophermap link
         """
-        parsed = urlparse(self.href)
-        if parsed.scheme in ("http", "https"):
+        try:
+            parsed = urlparse(self.href)
+            # The port is only parsed on access
+            scheme, port = parsed.scheme, parsed.port
+        except ValueError:
+            scheme, port = None, None
+        if scheme in ("http", "https"):
             return dict(
                 type='h',
                 selector="URL:{}".format(self.href),
                 host=self._context['gopher_host'],
                 port=self._context['gopher_port'],
             )
-        elif parsed.scheme == 'gopher':
+        elif scheme == 'gopher':
             # Absolute gopher url
             return dict(
                 type=self._guess_type(parsed.path),
                 selector=parsed.path,
                 host=parsed.hostname,
-                port=70 if parsed.port is None else parsed.port,
+                port=70 if port is None else port,
             )
-        elif parsed.scheme == '':
+        elif scheme == '':
             # Relative URL - interpret as a relative gopher link
             return dict(
                 type=self._guess_type(parsed.path),
@@ -177,7 +182,7 @@ class LinkParser(TagParser):
                 port=self._context['gopher_port'],
             )
         else:
-            # Unknown protocol: try it as a web link
+            # Unknown protocol or malformed URL: try it as a web link
             return dict(
                 type='h',
                 selector="URL:{}".format(self.href),
-- 
2.43.0


From 899ea6f7cfe7bc29754fc015458dca1f56a56768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:06 +0000
Subject: [PATCH 13/55] fix: all void elements are self-closing, not only br
 and img

Anything after an <hr>, <input>, <wbr>... became part of its content, and the
end tags of the elements around it were ignored as mismatched.
---
 gopher_render/_parser.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index bc7948a..654a949 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -23,6 +23,13 @@ from .rendering import DefinitionListRenderer, DefinitionListTermHeaderRenderer,
 from .rendering import AnsiEscapeCodeRenderer
 
 
+# Elements that never have any content, and so no end tag.
+VOID_TAGS = (
+    'area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta',
+    'source', 'track', 'wbr',
+)
+
+
 # TODO: Maybe this class should do more actual parsing? Or just rename to Tag
 class TagParser(object):
 
@@ -30,7 +37,7 @@ class TagParser(object):
         self.tag = tag
         self.parent = parent
         self.children = []
-        self.closed = tag in ('br', 'img')
+        self.closed = tag in VOID_TAGS
         self.attrs = {}
         self.classes = []
         self.id = None
@@ -523,8 +530,8 @@ class GopherHTMLParser(HTMLParser):
             self.tree.append(t)
 
     def handle_endtag(self, tag):
-        if tag in ('br', 'img'):
-            # br and img tags are inherently self-closing, so if we encounter an end tag
+        if tag in VOID_TAGS:
+            # Tags like br and img are inherently self-closing, so if we encounter an end tag
             # we can just ignore it. I believe <br/> produces endtag calls.
             return
         top = self._get_top()
-- 
2.43.0


From 5154dc3b468810c49a53fc644e4d8156c8d18457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:06 +0000
Subject: [PATCH 14/55] fix: an a tag without an href is not a link

Named anchors were rendered as (and numbered and listed as) links to None.
---
 gopher_render/_parser.py   | 8 ++++++++
 gopher_render/rendering.py | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 654a949..ff9c171 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -210,6 +210,12 @@ class LinkParser(TagParser):
         except TypeError:
             self.link_renderer = renderer[1]
 
+    def is_anchor_only(self):
+        """
+        True for an `a` tag that is not a link, e.g. <a name="section">.
+        """
+        return self.tag == 'a' and self.href is None
+
     # For links, this generally renders the contents of the tag in its
     # original location, unless 'link_placement' is 'inline', in which case
     # link rendering occurs in the original location.
@@ -510,6 +516,8 @@ class GopherHTMLParser(HTMLParser):
                 gopher_port=self._gopher_port,
             )
             placement = self._image_placement if tag == 'img' else self._link_placement
+            if t.is_anchor_only():
+                placement = 'inline'
             if placement == 'footer':
                 self._footer_pending_links.append(t)
             elif placement == 'after_block':
diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index da8653c..1c7c574 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -702,6 +702,8 @@ class LinkRenderer(InlineRenderer):
     def render(self, content):
         settings = self.settings
         capitalize_func = capitalize if settings.capitalized else _noop
+        if self.tag.is_anchor_only():
+            return capitalize_func(super().render(content))
         if self.context["link_placement"] == "inline":
             if "title" in self.context and self.context["title"]:
                 return settings.templates["inline"][1].format(
-- 
2.43.0


From 623d29397df7621d24ae1659d045eaede77038b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:34 +0000
Subject: [PATCH 15/55] fix: an image without a source does not link to None

---
 gopher_render/_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index ff9c171..12be0b7 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -132,7 +132,7 @@ class LinkParser(TagParser):
         elif tag == 'img':
             # If set, this will be used as the link description
             self.title = self.attrs.get('alt', None)
-            self.href = self.attrs.get('src', None)
+            self.href = self.attrs.get('src', None) or ''
             self.gopher_link = self._parse_href()
 
     # TODO: This needs a lot more work to be comprehensive
-- 
2.43.0


From 5b171df2e62341e1cf15c237ff5e90ac4ea72af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:19 +0000
Subject: [PATCH 16/55] fix: links placed after their block belong to a block,
 or the document

With 'after_block' a link was listed at the end of its parent: in the middle
of a line if that was an inline element, not at all if it was an inline link,
and there was an AttributeError if the link was not in any element.
---
 gopher_render/_parser.py | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 12be0b7..a91c75a 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -30,6 +30,15 @@ VOID_TAGS = (
 )
 
 
+BLOCK_TAGS = (
+    'address', 'article', 'aside', 'blockquote', 'body', 'caption', 'dd',
+    'details', 'dialog', 'div', 'dl', 'dt', 'fieldset', 'figcaption', 'figure',
+    'footer', 'form', 'h1', 'h2', 'h3', 'h4', 'h5', 'h6', 'head', 'header',
+    'hr', 'html', 'li', 'main', 'nav', 'ol', 'p', 'pre', 'section', 'summary',
+    'table', 'tbody', 'td', 'tfoot', 'th', 'thead', 'title', 'tr', 'ul',
+)
+
+
 # TODO: Maybe this class should do more actual parsing? Or just rename to Tag
 class TagParser(object):
 
@@ -305,6 +314,7 @@ class DocumentParser(object):
     """
     def __init__(self):
         self.children = []
+        self.pending_links = []
 
     def tag_children(self):
         """
@@ -315,8 +325,12 @@ class DocumentParser(object):
     def append(self, tag):
         self.children.append(tag)
 
+    def add_pending_link(self, link):
+        self.pending_links.append(link)
+
     def reset(self):
         self.children = []
+        self.pending_links = []
 
 
 RendererMapping = namedtuple('RendererMapping', 'selector, renderer')
@@ -481,6 +495,15 @@ class GopherHTMLParser(HTMLParser):
                 t = None
         return t
 
+    def _get_block(self):
+        """
+        The innermost open block element, or the document if there is none.
+        """
+        for t in self._tag_stack[::-1]:
+            if t.tag in BLOCK_TAGS:
+                return t
+        return self.tree
+
     def _in_pre(self):
         return any(t.tag == 'pre' for t in self._tag_stack)
 
@@ -521,7 +544,7 @@ class GopherHTMLParser(HTMLParser):
             if placement == 'footer':
                 self._footer_pending_links.append(t)
             elif placement == 'after_block':
-                parent.add_pending_link(t)
+                self._get_block().add_pending_link(t)
             if placement != 'inline':
                 self._next_link_number += 1
         else:
@@ -622,6 +645,11 @@ class GopherHTMLParser(HTMLParser):
         for t in self.tree.children:
             self._parsed.append(t.render(self._box))
 
+        if len(self.tree.pending_links) > 0:
+            self._parsed.append("\n")
+            for l in self.tree.pending_links:
+                self._parsed.append(l.link_render(self._box))
+
         if len(self._footer_pending_links) > 0:
             self._parsed.append("\n")
             for l in self._footer_pending_links:
-- 
2.43.0


From 0b54411b2e82eb2adfbbfb9cd869407fface5c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:55 +0000
Subject: [PATCH 17/55] fix: adjacent pieces of text are one run of text

The text passed to feed() in several pieces, or interrupted by a comment or an
ignored end tag, was treated as several runs. That left several spaces in a
row where the pieces met, so that the output depended on how it was fed.
---
 gopher_render/_parser.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index a91c75a..96d4d7b 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -279,7 +279,15 @@ class LinkParser(TagParser):
 class DataParser(TagParser):
     def __init__(self, parent, data, **context):
         super().__init__(None, parent, None, **context)
-        if not context['in_pre']:
+        self._source = ""
+        self.data = ""
+        self.closed = True
+        self.append_data(data)
+
+    def append_data(self, data):
+        self._source += data
+        data = self._source
+        if not self._context['in_pre']:
             # This attempts to remove extraneous formatting internal to the data
             # but does not remove whitespace from the start or end of the data
             # because it may be followed or preceeded by a tag that depends on
@@ -298,7 +306,6 @@ class DataParser(TagParser):
             data = ' '.join(data_split)
             data = re.sub('[ \t]+', ' ', data)
         self.data = data
-        self.closed = True
 
     def render(self, box):
         return self.data
@@ -589,6 +596,11 @@ class GopherHTMLParser(HTMLParser):
         #     if len(data) == 0 or data.isspace():
         #         return
         parent = self._get_top()
+        siblings = (parent or self.tree).children
+        if len(siblings) > 0 and isinstance(siblings[-1], DataParser):
+            # The same run of text: it may arrive in any number of pieces.
+            siblings[-1].append_data(data)
+            return
         d = DataParser(parent, data, in_pre=self._in_pre())
         if parent:
             parent.children.append(d)
-- 
2.43.0


From f8ed72a51c6cf9548755def572c6660e0d8aaac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 18/55] fix: closing the parser again does not repeat the
 document

---
 gopher_render/_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 96d4d7b..473f03c 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -654,6 +654,7 @@ class GopherHTMLParser(HTMLParser):
         # Walk the tree and assign renderers.
         self._assign_renderers(self.tree.children)
 
+        self._parsed = []
         for t in self.tree.children:
             self._parsed.append(t.render(self._box))
 
-- 
2.43.0


From d97ac3a11b9d3a5a071fa1d270ba84ba71fb8858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 19/55] fix: renderer settings equal to those of a base class
 still apply

They were skipped as duplicates, even if a class in between had other values.
---
 gopher_render/rendering.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 1c7c574..9670437 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -300,13 +300,9 @@ class Renderer(metaclass=_RendererMeta):
         """
         s = namedict()
         all_classes = inspect.getmro(cls)
-        all_bases = []
         for klass in all_classes[::-1]:
             if hasattr(klass, 'settings'):
-                if klass.settings not in all_bases:
-                    all_bases.append(klass.settings)
-        for base in all_bases:
-            s.update(base)
+                s.update(klass.settings)
 
         instance = super().__new__(cls)
         instance.settings = s
-- 
2.43.0


From 0356a507cc26f981fb1fcccbca2018ab78ef14bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 20/55] fix: NameError when a font is set for the
 AnsiEscapeCodeRenderer

---
 gopher_render/rendering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 9670437..308c754 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1319,7 +1319,7 @@ class AnsiEscapeCodeRenderer(InlineRenderer):
 
         # Fonts
         if settings.font is not None:
-            enable.append(ANSI_ESCAPE_SEQUENCE.format(setting.font + ANSI_FONT_OFFSET))
+            enable.append(ANSI_ESCAPE_SEQUENCE.format(settings.font + ANSI_FONT_OFFSET))
             if not normalise:
                 disable.append(ANSI_ESCAPE_SEQUENCE.format(0 + ANSI_FONT_OFFSET))
 
-- 
2.43.0


From 89261bf494d230a164a88dd921699e181c3fdd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:57 +0000
Subject: [PATCH 21/55] fix: colour 0 of the 8-bit palette is a colour

---
 gopher_render/rendering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 308c754..a84ecbf 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1324,7 +1324,7 @@ class AnsiEscapeCodeRenderer(InlineRenderer):
                 disable.append(ANSI_ESCAPE_SEQUENCE.format(0 + ANSI_FONT_OFFSET))
 
         # Colours
-        if settings.foreground_colour:
+        if settings.foreground_colour is not None:
             enable.append(
                 ANSI_ESCAPE_SEQUENCE.format(
                     _get_sequence_for_colour(
@@ -1335,7 +1335,7 @@ class AnsiEscapeCodeRenderer(InlineRenderer):
             if not normalise:
                 # Default foreground
                 disable.append(ANSI_ESCAPE_SEQUENCE.format(39))
-        if settings.background_colour:
+        if settings.background_colour is not None:
             enable.append(
                 ANSI_ESCAPE_SEQUENCE.format(
                     _get_sequence_for_colour(
-- 
2.43.0


From af6f00414cd3c0db86f17fa07b5583a65e6957c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:19 +0000
Subject: [PATCH 22/55] fix: ANSI escape codes take no room when padding and
 aligning lines

They are left out when wrapping lines, but were counted when padding them to
the width of their box, and when justifying, centering and underlining.
---
 gopher_render/rendering.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index a84ecbf..df82b05 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -14,9 +14,9 @@ def full_justify(text, width, *args, **kwargs):
     lines = textwrap.wrap(text, width, *args, **kwargs)
     out_lines = []
     for line in lines[:-1]:
-        orig_len = len(line)
+        orig_len = textwrap._len(line)
         ls = line.lstrip()
-        indent = ' ' * (orig_len - len(ls))
+        indent = ' ' * (orig_len - textwrap._len(ls))
         padding_spaces = width - orig_len
         rs = ls.rstrip()
         #padding_spaces = len(ls) - len(rs)
@@ -58,16 +58,19 @@ def center_justify(text, width, *args, **kwargs):
     return '\n'.join(centered)
 
 
-def center(text, width, *args, **kwargs):
+def center(text, width, fillchar=' '):
     if not width:
         return _noop(text)
-    return text.center(width, *args, **kwargs)
+    pad = max(width - textwrap._len(text), 0)
+    # The side that gets the extra character is the same as for str.center
+    left = pad // 2 + (pad & width & 1)
+    return "{}{}{}".format(fillchar * left, text, fillchar * (pad - left))
 
 
-def right(text, width, *args, **kwargs):
+def right(text, width, fillchar=' '):
     if not width:
         return _noop(text)
-    return text.rjust(width, *args, **kwargs)
+    return "{}{}".format(fillchar * (width - textwrap._len(text)), text)
 
 
 justifications = {
@@ -100,7 +103,7 @@ class BoxSide:
 
 def _get_template_width(template):
     # TODO: This needs to be more sophisticated
-    return len(template) - 2
+    return textwrap._len(template) - 2
 
 
 class Box(object):
@@ -439,7 +442,7 @@ class BlockRenderer(Renderer):
                 borders[BoxSide.LEFT],
                 ' ' * box.padding[BoxSide.LEFT],
                 l,
-                ' ' * (box.padded_width - (box.padding[BoxSide.LEFT] + len(l))),
+                ' ' * (box.padded_width - (box.padding[BoxSide.LEFT] + textwrap._len(l))),
                 borders[BoxSide.RIGHT]
             ) for l in lines
         ]
@@ -507,7 +510,7 @@ class HeaderRenderer(BlockRenderer):
         )
         underline = ""
         if settings['underlined']:
-            underline_len = width if settings.underline_full else len(inner)
+            underline_len = width if settings.underline_full else textwrap._len(inner)
             underline = "{}".format(settings.underline_char * underline_len, width)
             return "{}\n{}".format(
                 center_func(inner, width),
-- 
2.43.0


From e6bf2cc0b206395425b7518699971c08031286db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:47 +0000
Subject: [PATCH 23/55] fix: do not break long words inside an ANSI escape
 sequence

The base class broke them after a number of characters that included those of
the escape sequences, which split the sequences and left the lines short.
---
 gopher_render/_textwrap.py | 43 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index 17a3cab..253c702 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -27,12 +27,55 @@ def _len(obj):
     return len(actual)
 
 
+def _visible_index(text, count):
+    """
+    The index in the text that follows its first `count` visible characters, and
+    any escape sequences that follow those.
+    """
+    index = 0
+    while True:
+        escape = _escape_regex.match(text, index)
+        if escape:
+            index = escape.end()
+        elif count > 0 and index < len(text):
+            index += 1
+            count -= 1
+        else:
+            return index
+
+
 class AnsiAwareTextWrapper(TextWrapper):
     """
     This TextWrapper subclass ignores ANSI escape sequences when determining
     the length of wrapped lines.
     """
 
+    def _handle_long_word(self, reversed_chunks, cur_line, cur_len, width):
+        """
+        As in the base class, but never break a word inside an ANSI escape
+        sequence, and do not count those.
+        """
+        chunk = reversed_chunks[-1]
+        visible = _escape_regex.sub("", chunk)
+        if visible == chunk:
+            super()._handle_long_word(reversed_chunks, cur_line, cur_len, width)
+            return
+        # Find out from the base class where to break the visible text.
+        reversed_chunks[-1] = visible
+        count = len(cur_line)
+        super()._handle_long_word(reversed_chunks, cur_line, cur_len, width)
+        if len(cur_line) == count:
+            # The word is not to be broken, and does not go on this line
+            reversed_chunks[-1] = chunk
+        elif cur_line[-1] == visible:
+            cur_line[-1] = chunk
+        elif cur_line[-1] != '':
+            end = _visible_index(chunk, len(cur_line[-1]))
+            cur_line[-1] = chunk[:end]
+            reversed_chunks[-1] = chunk[end:]
+        else:
+            reversed_chunks[-1] = chunk
+
     def _wrap_chunks(self, chunks):
         """
         An exact reimplementation of the method from the base class, but using
-- 
2.43.0


From 8e5c9acd188db807936f12d4a5b3f6936e543ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:32 +0000
Subject: [PATCH 24/55] fix: capitalizing and spreading text keeps its ANSI
 escape sequences intact

---
 gopher_render/_textwrap.py |  8 ++++++++
 gopher_render/rendering.py | 15 +++++++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index 253c702..902bef2 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -27,6 +27,14 @@ def _len(obj):
     return len(actual)
 
 
+def split_escapes(text):
+    """
+    Split the text into a list of alternately visible text and the escape
+    sequence in between.
+    """
+    return re.split("({})".format(_escape_regex.pattern), text, flags=re.VERBOSE)
+
+
 def _visible_index(text, count):
     """
     The index in the text that follows its first `count` visible characters, and
diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index df82b05..e71a90e 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -86,12 +86,23 @@ justifications = {
 # should probably match the method name
 # TODO: Should may deal with casing the same way as the justifications...
 def capitalize(text):
-    return text.upper()
+    pieces = textwrap.split_escapes(text)
+    pieces[::2] = [piece.upper() for piece in pieces[::2]]
+    return "".join(pieces)
 
 
 def spread(text, spread_char, count):
     s = spread_char * count
-    return s.join(text)
+    pieces = textwrap.split_escapes(text)
+    # The spacing goes before every visible character but the first.
+    spacing = ""
+    for index in range(0, len(pieces), 2):
+        spaced = ""
+        for c in pieces[index]:
+            spaced += spacing + c
+            spacing = s
+        pieces[index] = spaced
+    return "".join(pieces)
 
 
 class BoxSide:
-- 
2.43.0


From 21112c42f0fa3e131a5fa5cf127bf647caf241ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:32 +0000
Subject: [PATCH 25/55] fix: link descriptions are trimmed by what is visible
 of them

Trimming could cut through an ANSI escape sequence or leave one active, and
surrounding whitespace was counted although it had been removed.
---
 gopher_render/_textwrap.py |  9 +++++++++
 gopher_render/rendering.py | 12 ++++++------
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index 902bef2..dcc8e2c 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -52,6 +52,15 @@ def _visible_index(text, count):
             return index
 
 
+def truncate(text, count):
+    """
+    The first `count` visible characters of the text, with all of its escape
+    sequences, so that none of those that follow are left active.
+    """
+    end = _visible_index(text, count)
+    return text[:end] + "".join(split_escapes(text[end:])[1::2])
+
+
 class AnsiAwareTextWrapper(TextWrapper):
     """
     This TextWrapper subclass ignores ANSI escape sequences when determining
diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index e71a90e..36d3bab 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -751,10 +751,10 @@ class ExtractedLinkRenderer(BlockRenderer):
 
         # TODO: Surely this truncation should be optional?
         max_link_description = settings.max_link_description
-        trimming = len(content) > max_link_description
-        content = content.strip()[:max_link_description]
+        content = content.strip()
+        trimming = textwrap._len(content) > max_link_description
         if trimming:
-            content = "{}...".format(content)
+            content = "{}...".format(textwrap.truncate(content, max_link_description))
 
         if output_format == 'gophermap':
             description = title if title is not None else content
@@ -862,10 +862,10 @@ class ExtractedImageLinkRenderer(BlockRenderer):
 
         # TODO: Surely this truncation should be optional?
         max_link_description = settings.max_link_description
-        trimming = len(title) > max_link_description
-        trimmed_title = title.strip()[:max_link_description]
+        trimmed_title = title.strip()
+        trimming = len(trimmed_title) > max_link_description
         if trimming:
-            trimmed_title = "{}...".format(trimmed_title)
+            trimmed_title = "{}...".format(trimmed_title[:max_link_description])
 
         if output_format == 'gophermap':
             description = trimmed_title
-- 
2.43.0


From 44d289913f333afcc657d1a00c9ff68f50404c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:55 +0000
Subject: [PATCH 26/55] fix: the widths of a box leave out those of all the
 boxes around it

Not all of the padding, border and line templates of the ancestors were left
out, so that the lines of a block in a padded, bordered or quoted block were
too long, which broke the border of the outer block.
---
 gopher_render/rendering.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 36d3bab..70c31ef 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -146,9 +146,9 @@ class Box(object):
         self.total_border = border[:]
         self.line_template = line_template
         self.line_template_padding = 0
-        self.total_line_template_padding = 0
         if self.line_template:
             self.line_template_padding = _get_template_width(self.line_template)
+        self.total_line_template_padding = self.line_template_padding
         self.parent = parent
         # If a parent was provided, its width overrides the provided width
         # and its margins are added to the provided margins to give total margins
@@ -183,32 +183,28 @@ class Box(object):
     def inner_width():
         doc = "The width actually available to the element's inner content."
         def fget(self):
-            return self.width - (
-                self.total_margin[BoxSide.LEFT] + self.total_margin[BoxSide.RIGHT] +
-                self.total_padding[BoxSide.LEFT] + self.total_padding[BoxSide.RIGHT] +
-                self.total_border[BoxSide.LEFT] + self.total_border[BoxSide.RIGHT]
-            )
+            # This has to include the width of the local line template
+            # but exclude any added by further up the hierarchy.
+            return self.inner_width_excluding_line_template + self.line_template_padding
         return locals()
     inner_width = property(**inner_width())
 
     def padded_width():
         doc = "The width of the element including the padding."
         def fget(self):
-            # This has to include the width of the local line template
-            # but exclude any added by further up the hierarchy.
-            return self.width - (
-                self.total_margin[BoxSide.LEFT] + self.total_margin[BoxSide.RIGHT] +
-                self.total_border[BoxSide.LEFT] + self.total_border[BoxSide.RIGHT] +
-                (self.total_line_template_padding - self.line_template_padding)
+            return (
+                self.inner_width +
+                self.padding[BoxSide.LEFT] + self.padding[BoxSide.RIGHT]
             )
         return locals()
     padded_width = property(**padded_width())
 
     def bordered_width():
-        doc = "The width of the element including the padding."
+        doc = "The width of the element including the padding and the border."
         def fget(self):
-            return self.width - (
-                self.total_margin[BoxSide.LEFT] + self.total_margin[BoxSide.RIGHT]
+            return (
+                self.padded_width +
+                self.border[BoxSide.LEFT] + self.border[BoxSide.RIGHT]
             )
         return locals()
     bordered_width = property(**bordered_width())
-- 
2.43.0


From b5ec83fabe1ef4d8c039411460caf6403e678cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:16 +0000
Subject: [PATCH 27/55] fix: text nested too deeply for its width does not
 raise a ValueError

---
 gopher_render/rendering.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 70c31ef..66a2a43 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -621,7 +621,8 @@ class ParagraphRenderer(BlockRenderer):
             if textwrap_arg in settings:
                 justify_args[textwrap_arg] = settings[textwrap_arg]
 
-        width = self.box.inner_width_excluding_line_template
+        # However deeply nested, there has to be some room for the text.
+        width = max(self.box.inner_width_excluding_line_template, 1)
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
         #template = settings['template']
@@ -1063,7 +1064,8 @@ class ListItemRenderer(BlockRenderer):
             if textwrap_arg in settings:
                 justify_args[textwrap_arg] = settings[textwrap_arg]
 
-        width = self.box.inner_width_excluding_line_template
+        # However deeply nested, there has to be some room for the text.
+        width = max(self.box.inner_width_excluding_line_template, 1)
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
         justified = justify_func(inner, width, **justify_args)
@@ -1180,7 +1182,8 @@ class DefinitionListItemRenderer(BlockRenderer):
             if textwrap_arg in settings:
                 justify_args[textwrap_arg] = settings[textwrap_arg]
 
-        width = self.box.inner_width_excluding_line_template
+        # However deeply nested, there has to be some room for the text.
+        width = max(self.box.inner_width_excluding_line_template, 1)
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
         justified = justify_func(inner, width, **justify_args)
-- 
2.43.0


From 2bd12465e9552d3f4a794e8f9ac85a3bc5d41bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:24 +0000
Subject: [PATCH 28/55] fix: whitespace around the tags of block elements is
 not text

It was rendered as a space, which indented the first line of any list or
blockquote with its tags on separate lines (as converted from Markdown).
---
 gopher_render/_parser.py | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 473f03c..225db67 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -38,6 +38,9 @@ BLOCK_TAGS = (
     'table', 'tbody', 'td', 'tfoot', 'th', 'thead', 'title', 'tr', 'ul',
 )
 
+# The elements that start on a new line, or that the text after them does.
+LINE_ENDING_TAGS = BLOCK_TAGS + ('br',)
+
 
 # TODO: Maybe this class should do more actual parsing? Or just rename to Tag
 class TagParser(object):
@@ -307,6 +310,14 @@ class DataParser(TagParser):
             data = re.sub('[ \t]+', ' ', data)
         self.data = data
 
+    def strip(self, start, end):
+        if self._context['in_pre']:
+            return
+        if start:
+            self.data = self.data.lstrip(' ')
+        if end:
+            self.data = self.data.rstrip(' ')
+
     def render(self, box):
         return self.data
 
@@ -618,6 +629,27 @@ class GopherHTMLParser(HTMLParser):
             for l in lines
         ])
 
+    def _strip_lines(self, parent):
+        """
+        Remove the whitespace at the start and end of the lines of text in block
+        elements. Between the tags of two blocks, that's all there is.
+        """
+        children = []
+        for index, child in enumerate(parent.children):
+            if child.tag is not None:
+                self._strip_lines(child)
+            elif parent is self.tree or parent.tag in BLOCK_TAGS:
+                before = parent.children[max(index - 1, 0):index]
+                after = parent.children[index + 1:index + 2]
+                child.strip(
+                    start=all([t.tag in LINE_ENDING_TAGS for t in before]),
+                    end=all([t.tag in LINE_ENDING_TAGS for t in after]),
+                )
+                if child.data == '':
+                    continue
+            children.append(child)
+        parent.children = children
+
     def _assign_renderers(self, tags):
         for tag in tags:
             renderer = self._get_renderer(tag)
@@ -651,6 +683,8 @@ class GopherHTMLParser(HTMLParser):
             if t.parent is None:
                 self.tree.append(t)
 
+        self._strip_lines(self.tree)
+
         # Walk the tree and assign renderers.
         self._assign_renderers(self.tree.children)
 
-- 
2.43.0


From eccc592082d9f12d863fc865f723e531ce6064c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:25 +0000
Subject: [PATCH 29/55] fix: list items and definitions keep the lines of their
 content

The rendered content was wrapped as if it was one run of text, so that line
breaks, preformatted lines and nested paragraphs and lists ran together.
---
 gopher_render/_parser.py   |  4 ----
 gopher_render/rendering.py | 12 ++++++++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 225db67..2db947d 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -464,10 +464,6 @@ class GopherHTMLParser(HTMLParser):
             'li:first-child': (None, dict(
                 margin=[0,0,0,0]
             )),
-            # TODO: The need for this is unfortunate...
-            'li > ol > li:first-child, li > ul > li:first-child': (None, dict(
-                margin=[1,0,0,0]
-            )),
 
             # Definition list
             'dl': DefinitionListRenderer,
diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 66a2a43..382b3d6 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1068,7 +1068,11 @@ class ListItemRenderer(BlockRenderer):
         width = max(self.box.inner_width_excluding_line_template, 1)
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
-        justified = justify_func(inner, width, **justify_args)
+        # The content can include line breaks and other blocks, so each line is
+        # wrapped separately.
+        justified = "\n".join(
+            [justify_func(line.rstrip(), width, **justify_args) for line in inner.strip("\n").split("\n")]
+        )
         just_split = justified.split("\n")
         template = self.settings.line_template
         # The template only applies for the first line in this case, the rest
@@ -1186,7 +1190,11 @@ class DefinitionListItemRenderer(BlockRenderer):
         width = max(self.box.inner_width_excluding_line_template, 1)
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
-        justified = justify_func(inner, width, **justify_args)
+        # The content can include line breaks and other blocks, so each line is
+        # wrapped separately.
+        justified = "\n".join(
+            [justify_func(line.rstrip(), width, **justify_args) for line in inner.strip("\n").split("\n")]
+        )
         just_split = justified.split("\n")
         template = self.settings.line_template
         # The template only applies for the first line in this case, the rest
-- 
2.43.0


From 375741be1391b8cabd24500333938371c1cd0c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:25 +0000
Subject: [PATCH 30/55] fix: blocks are on lines of their own

Blocks without a vertical margin, e.g. two adjacent divs, were rendered on the
same line as the block or text before or after them.
---
 gopher_render/_parser.py | 49 +++++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 2db947d..928295b 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -42,6 +42,31 @@ BLOCK_TAGS = (
 LINE_ENDING_TAGS = BLOCK_TAGS + ('br',)
 
 
+def render_children(children, box):
+    """
+    Render the children of a tag or of the document, and return a list of the
+    results. Line breaks are added so that every block is on lines of its own.
+    """
+    rendered_children = []
+    previous = ""
+    previous_is_block = False
+    for c in children:
+        rendered = c.render(box)
+        is_block = c.renders_block()
+        if rendered == "":
+            previous_is_block = previous_is_block or is_block
+            continue
+        if (
+            (is_block or previous_is_block) and previous != "" and
+            not previous.endswith('\n') and not rendered.startswith('\n')
+        ):
+            rendered_children.append('\n')
+        rendered_children.append(rendered)
+        previous = rendered
+        previous_is_block = is_block
+    return rendered_children
+
+
 # TODO: Maybe this class should do more actual parsing? Or just rename to Tag
 class TagParser(object):
 
@@ -74,6 +99,14 @@ class TagParser(object):
             return self.attrs['class']
         return []
 
+    def renders_block(self):
+        if isinstance(self.renderer, type):
+            if issubclass(self.renderer, BlockRenderer):
+                return True
+            if issubclass(self.renderer, InlineRenderer):
+                return False
+        return self.tag in BLOCK_TAGS
+
     def add_pending_link(self, link):
         self._pending_links.append(link)
 
@@ -101,11 +134,7 @@ class TagParser(object):
             # passed through.
             pass
 
-        rendered_children = []
-        for c in self.children:
-            rendered_children.append(
-                c.render(box)
-            )
+        rendered_children = render_children(self.children, box)
 
         if len(self._pending_links):
             rendered_children.append('\n')
@@ -268,11 +297,7 @@ class LinkParser(TagParser):
             # passed through.
             pass
 
-        rendered_children = []
-        for c in self.children:
-            rendered_children.append(
-                c.render(box)
-            )
+        rendered_children = render_children(self.children, box)
 
         return render_inst.render(
             "".join(rendered_children)
@@ -684,9 +709,7 @@ class GopherHTMLParser(HTMLParser):
         # Walk the tree and assign renderers.
         self._assign_renderers(self.tree.children)
 
-        self._parsed = []
-        for t in self.tree.children:
-            self._parsed.append(t.render(self._box))
+        self._parsed = render_children(self.tree.children, self._box)
 
         if len(self.tree.pending_links) > 0:
             self._parsed.append("\n")
-- 
2.43.0


From 70d16d7aff34194e02d20ea086a28191bbb255f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:18 +0000
Subject: [PATCH 31/55] fix: gophermap links are one line with four fields

Tabs and line breaks in the title, content or URL of a link, or the alternate
text of an image, were copied to the line. Those in the URL are not part of it.
And a tab in preformatted text made a link out of the line.
---
 gopher_render/_parser.py   | 19 ++++++++++++++++---
 gopher_render/rendering.py |  3 ++-
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 928295b..08b9290 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -169,12 +169,17 @@ class LinkParser(TagParser):
             # If set, this will be used as the link description
             self.title = self.attrs.get('title', None)
             self.href = self.attrs.get('href', None)
-            self.gopher_link = self._parse_href()
         elif tag == 'img':
             # If set, this will be used as the link description
             self.title = self.attrs.get('alt', None)
             self.href = self.attrs.get('src', None) or ''
-            self.gopher_link = self._parse_href()
+        # Neither a tab nor a line break may end up in a gophermap link, and both
+        # attributes are used within a line of text.
+        if self.title is not None:
+            self.title = ' '.join(self.title.split())
+        if self.href is not None:
+            self.href = re.sub('[\t\r\n]', '', self.href.strip())
+        self.gopher_link = self._parse_href()
 
     # TODO: This needs a lot more work to be comprehensive
     def _guess_type(self, path):
@@ -333,6 +338,9 @@ class DataParser(TagParser):
                 data_split = data_stripped
             data = ' '.join(data_split)
             data = re.sub('[ \t]+', ' ', data)
+        elif self._context.get('output_format', None) == 'gophermap':
+            # A line with tabs in it would be taken for a link
+            data = data.expandtabs()
         self.data = data
 
     def strip(self, start, end):
@@ -633,7 +641,12 @@ class GopherHTMLParser(HTMLParser):
             # The same run of text: it may arrive in any number of pieces.
             siblings[-1].append_data(data)
             return
-        d = DataParser(parent, data, in_pre=self._in_pre())
+        d = DataParser(
+            parent,
+            data,
+            in_pre=self._in_pre(),
+            output_format=self._output_format,
+        )
         if parent:
             parent.children.append(d)
         else:
diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 382b3d6..269284f 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -748,7 +748,8 @@ class ExtractedLinkRenderer(BlockRenderer):
 
         # TODO: Surely this truncation should be optional?
         max_link_description = settings.max_link_description
-        content = content.strip()
+        # The description has to fit on a line, whatever is in the link
+        content = ' '.join(content.split())
         trimming = textwrap._len(content) > max_link_description
         if trimming:
             content = "{}...".format(textwrap.truncate(content, max_link_description))
-- 
2.43.0


From 5b87a2cc75e43973754a1ebfd89c08b1b7b30c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:08 +0000
Subject: [PATCH 32/55] fix: do not indent gophermap links by the margin of the
 document

---
 gopher_render/_parser.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 08b9290..91913aa 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -658,8 +658,10 @@ class GopherHTMLParser(HTMLParser):
         box = self._box
         parsed = "".join(self._parsed)
         lines = parsed.splitlines(keepends=True)
+        # Gophermap links (the only lines that contain tabs) must not be indented
         return "".join([
-            "{}{}".format(' ' * self._box.margin[BoxSide.LEFT], l)
+            l if self._output_format == 'gophermap' and '\t' in l
+            else "{}{}".format(' ' * self._box.margin[BoxSide.LEFT], l)
             for l in lines
         ])
 
@@ -735,11 +737,6 @@ class GopherHTMLParser(HTMLParser):
                 self._parsed.append(l.link_render(self._box))
 
         # TODO: Some variation here within our box model:
-        # Gophermap links should definitely not be indented, but this naively
-        # indents everything. If link placement is footer this should be easy
-        # enough to avoid, but for inter-block links it will be troublesome.
-        # Could perhaps identify the points where links need to be inserted
-        # and indent everything around them separately.
         # Addition of padding and border to box model complicate this even further
         indented = self._indent_body()
         self.parsed = "{}{}{}".format(
-- 
2.43.0


From 42c0d8921e1bbd1efb387ae0349a29c066789841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:39 +0000
Subject: [PATCH 33/55] fix: gophermap links placed after their block are not
 part of its content

They were wrapped, padded, prefixed... like any other content of the block,
which does not leave a valid link.
---
 gopher_render/_parser.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 91913aa..72cfc4e 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -86,6 +86,7 @@ class TagParser(object):
         self.renderer_settings = None
         self._context = context
         self._pending_links = []
+        self._following_links = []
 
     def tag_children(self):
         """
@@ -110,6 +111,9 @@ class TagParser(object):
     def add_pending_link(self, link):
         self._pending_links.append(link)
 
+    def add_following_link(self, link):
+        self._following_links.append(link)
+
     def assign_renderer(self, renderer):
         try:
             self.renderer = renderer[0]
@@ -118,6 +122,7 @@ class TagParser(object):
             self.renderer = renderer
 
     def render(self, box):
+        parent_box = box
         render_context = dict(
             parent_box=box,
         )
@@ -143,10 +148,18 @@ class TagParser(object):
                 l.link_render(box)
             )
 
-        return render_inst.render(
+        rendered = render_inst.render(
             "".join(rendered_children)
         )
 
+        if len(self._following_links):
+            if not rendered.endswith('\n'):
+                rendered += '\n'
+            rendered += "".join([
+                l.link_render(parent_box) for l in self._following_links
+            ])
+        return rendered
+
 
 class LinkParser(TagParser):
 
@@ -591,7 +604,12 @@ class GopherHTMLParser(HTMLParser):
             if placement == 'footer':
                 self._footer_pending_links.append(t)
             elif placement == 'after_block':
-                self._get_block().add_pending_link(t)
+                block = self._get_block()
+                if self._output_format == 'gophermap' and block is not self.tree:
+                    # A gophermap link can't be nested in the lines of a block
+                    self._tag_stack[0].add_following_link(t)
+                else:
+                    block.add_pending_link(t)
             if placement != 'inline':
                 self._next_link_number += 1
         else:
-- 
2.43.0


From 6f69c41831ce83c7f4cba342c7158fe4db88918a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:40 +0000
Subject: [PATCH 34/55] fix: gophermap links to images are not padded

The padding of one ended up in front of the next one on the same line.
---
 gopher_render/rendering.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 269284f..6f52ccc 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -891,6 +891,31 @@ class ExtractedImageLinkRenderer(BlockRenderer):
                 **keywords
             )
 
+    def _outer_render(self, content):
+        output_format = self.context['output_format']
+        if output_format == "gophermap":
+            # A left margin would not be acceptable for gophermap links, so only
+            # apply the top and bottom margins, if any.
+            box = self.box
+            return "{}{}{}".format(
+                '\n' * box.margin[BoxSide.TOP],
+                content,
+                '\n' * box.margin[BoxSide.BOTTOM],
+            )
+        return super()._outer_render(content)
+
+    def render(self, content):
+        output_format = self.context['output_format']
+        if output_format == "gophermap":
+            # A border would not be acceptable for gophermap links, so skip
+            # that render step.
+            return self._outer_render(
+                self._inner_render(
+                    content
+                )
+            )
+        return super().render(content)
+
 
 # TODO: i tags should also have a renderer for icons
 class EmRenderer(InlineRenderer):
-- 
2.43.0


From 6be6906e3635e41f788dfd9f1796f905054d2569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:41 +0000
Subject: [PATCH 35/55] fix: references to images include their alternate text

It was only available when the image was rendered inline or in the footer, so
that every reference was to an 'Image'.
---
 gopher_render/_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 72cfc4e..5c834b2 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -193,6 +193,8 @@ class LinkParser(TagParser):
         if self.href is not None:
             self.href = re.sub('[\t\r\n]', '', self.href.strip())
         self.gopher_link = self._parse_href()
+        # The references to images need the description as well
+        self._context['title'] = self.title
 
     # TODO: This needs a lot more work to be comprehensive
     def _guess_type(self, path):
-- 
2.43.0


From 37ba9d1167f92f4a5c2a4d929f9e5c370fba0971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:11 +0000
Subject: [PATCH 36/55] fix: guess the type of a gopher link from the extension
 of its last segment

Any dot in the path was taken for the start of an extension, e.g. in ../menu or
/v1.0/menu, and extensions were not recognised in upper case.
---
 gopher_render/_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 5c834b2..8382a8a 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -198,8 +198,8 @@ class LinkParser(TagParser):
 
     # TODO: This needs a lot more work to be comprehensive
     def _guess_type(self, path):
-        p = path.rpartition('.')
-        if p[0] == "":
+        p = path.rpartition('/')[2].lower().rpartition('.')
+        if p[0] == "" or p[2] == "":
             # No file extension, so gopher menu?
             return 1
         elif p[2] in ("html", "htm"):
-- 
2.43.0


From 29a638edc86719b35df060dccf35679ec1fe46a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:12 +0000
Subject: [PATCH 37/55] fix: settings without a renderer apply to the default
 renderer too

A mapping like '.note': (None, {...}) had no effect on elements for which no
other mapping specified a renderer.
---
 gopher_render/_parser.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 8382a8a..6f02a87 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -413,7 +413,7 @@ class RendererMap(object):
             selector = cssselect.parse(key)
             self._map.append(RendererMapping(selector, renderer_dict[key]))
 
-    def get_for_tag(self, tag):
+    def get_for_tag(self, tag, default=None):
         all_matches = []
         for mapping in self._map:
             match, specificity = tag_matches(tag, mapping.selector)
@@ -427,12 +427,13 @@ class RendererMap(object):
         all_matches.sort(key=lambda m: m[0])
         renderer = None
         renderer_settings = {}
-        for s, mapping in all_matches:
+        # The default applies to any tag, but is less specific than any selector.
+        for spec in [default] + [mapping.renderer for s, mapping in all_matches]:
             try:
-                r = mapping.renderer[0]
-                s = mapping.renderer[1]
+                r = spec[0]
+                s = spec[1]
             except TypeError:
-                r = mapping.renderer
+                r = spec
                 s = None
             if r is not None:
                 renderer = r
@@ -570,10 +571,7 @@ class GopherHTMLParser(HTMLParser):
         return any(t.tag == 'pre' for t in self._tag_stack)
 
     def _get_renderer(self, tag):
-        renderer = self._renderer_map.get_for_tag(tag)
-        if not renderer:
-            renderer = self._default_renderer
-        return renderer
+        return self._renderer_map.get_for_tag(tag, self._default_renderer)
 
     def _get_extracted_link_renderer(self, tag):
         try:
-- 
2.43.0


From 89c22614cc50014ae136e8d7ac686294b05e52f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:12 +0000
Subject: [PATCH 38/55] fix: report ignored end tags on stderr

The command prints the rendered document to stdout, and they ended up there.
---
 gopher_render/_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 6f02a87..269f53d 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -1,4 +1,5 @@
 import re
+import sys
 from html.parser import HTMLParser
 from urllib.parse import urlparse
 from collections import namedtuple
@@ -632,13 +633,13 @@ class GopherHTMLParser(HTMLParser):
             return
         top = self._get_top()
         if not top:
-            print("Unsupported or mismatched end tag, ignoring: " + tag)
+            print("Unsupported or mismatched end tag, ignoring: " + tag, file=sys.stderr)
             return
         if top.tag == tag:
             top.closed = True
         else:
             # TODO: Consider instead just accepting mismatched tags and closing the top tag?
-            print("Unsupported or mismatched end tag, ignoring: " + tag)
+            print("Unsupported or mismatched end tag, ignoring: " + tag, file=sys.stderr)
         if top.closed:
             # TODO: This will have to determine if links should be rendered
             # after the closed tag if link_placement is 'after_block'
-- 
2.43.0


From 9fd8996d2ecdcac4d8e94131b6bd9cdebed59b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:13 +0000
Subject: [PATCH 39/55] fix: write the rendered document to the destination
 file

The argument is required, but nothing was ever written to it.
---
 gopher_render/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gopher_render/cli.py b/gopher_render/cli.py
index c17e14f..9b69722 100644
--- a/gopher_render/cli.py
+++ b/gopher_render/cli.py
@@ -63,8 +63,8 @@ def main():
     parser.feed(source_text)
     parser.close()
 
-    #with open(args.destination, 'w') as out_file:
-    #    out_file.write(parser.parsed)
+    with open(args.destination, 'w') as out_file:
+        out_file.write(parser.parsed)
 
     print(parser.parsed)
 
-- 
2.43.0


From 5f528ccfc03d0412bb129323bdb85df6e52ae02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:30 +0000
Subject: [PATCH 40/55] fix: a gopher URL without a host is malformed

---
 gopher_render/_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 269f53d..03bac30 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -234,7 +234,7 @@ class LinkParser(TagParser):
                 host=self._context['gopher_host'],
                 port=self._context['gopher_port'],
             )
-        elif scheme == 'gopher':
+        elif scheme == 'gopher' and parsed.hostname:
             # Absolute gopher url
             return dict(
                 type=self._guess_type(parsed.path),
-- 
2.43.0


From 715eaf9444195ec34f85705c6b6d9cf5bae0d1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:30 +0000
Subject: [PATCH 41/55] fix: a semicolon in the path of a link is part of its
 selector

---
 gopher_render/_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 03bac30..c8d9343 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -1,7 +1,7 @@
 import re
 import sys
 from html.parser import HTMLParser
-from urllib.parse import urlparse
+from urllib.parse import urlsplit
 from collections import namedtuple
 import cssselect
 
@@ -222,7 +222,7 @@ class LinkParser(TagParser):
         elements of a gophermap link
         """
         try:
-            parsed = urlparse(self.href)
+            parsed = urlsplit(self.href)
             # The port is only parsed on access
             scheme, port = parsed.scheme, parsed.port
         except ValueError:
-- 
2.43.0


From 1807af6b901786282a3bff17eb7b1bfd6274b72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 42/55] fix: ANSI escape sequences do not change where text is
 split

---
 gopher_render/_textwrap.py | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index dcc8e2c..dfd6960 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -67,6 +67,44 @@ class AnsiAwareTextWrapper(TextWrapper):
     the length of wrapped lines.
     """
 
+    def _split(self, text):
+        """
+        As in the base class, but ANSI escape sequences make no difference to
+        where the text is split. Each one stays with the word it is next to.
+        """
+        pieces = split_escapes(text)
+        if len(pieces) == 1:
+            return super()._split(text)
+        escapes = {}
+        visible = ""
+        for index, piece in enumerate(pieces):
+            if index % 2 == 0:
+                visible += piece
+            else:
+                escapes[len(visible)] = escapes.get(len(visible), "") + piece
+        chunks = []
+        position = 0
+        for chunk in super()._split(visible):
+            escaped = ""
+            for c in chunk:
+                escaped += escapes.pop(position, "") + c
+                position += 1
+            if chunk.strip() != '':
+                escaped += escapes.pop(position, "")
+            chunks.append(escaped)
+        chunks.extend(escapes.values())
+        return chunks
+
+    def _fix_sentence_endings(self, chunks):
+        """
+        As in the base class, but looking only at what is visible.
+        """
+        visible = [_escape_regex.sub("", chunk) for chunk in chunks]
+        super()._fix_sentence_endings(visible)
+        for index, chunk in enumerate(chunks):
+            if chunk == " ":
+                chunks[index] = visible[index]
+
     def _handle_long_word(self, reversed_chunks, cur_line, cur_len, width):
         """
         As in the base class, but never break a word inside an ANSI escape
-- 
2.43.0


From d5e7a70f66aacdc86341557b3e577eb7099663d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:41 +0000
Subject: [PATCH 43/55] fix: attribute selectors compare with the value given

---
 gopher_render/_selectors.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index 6aaa0ab..4deb05f 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -139,6 +139,8 @@ def _attribute_matches(tag, selector):
     if selector.attrib in tag.attrs:
         if selector.operator == 'exists':
             return True
+        # The value of the selector is a token
+        value = selector.value.value
         attr_val = tag.attrs[selector.attrib]
         if selector.attrib == 'class':
             # The class attribute is split during parsing, so have to rejoin
@@ -148,18 +150,18 @@ def _attribute_matches(tag, selector):
             # The attribute was specified without a value
             attr_val = ""
         if selector.operator == '=':
-            return attr_val == selector.value
+            return attr_val == value
         if selector.operator == '~=':
             split_val = attr_val.split()
-            return selector.value in split_val
+            return value in split_val
         if selector.operator == '|=':
-            return attr_val == selector.value or attr_val.startswith("{}-".format(selector.value))
+            return attr_val == value or attr_val.startswith("{}-".format(value))
         if selector.operator == '^=':
-            return selector.value != "" and attr_val.startswith(selector.value)
+            return value != "" and attr_val.startswith(value)
         if selector.operator == '$=':
-            return selector.value != "" and attr_val.endswith(selector.value)
+            return value != "" and attr_val.endswith(value)
         if selector.operator == '*=':
-            return selector.value != "" and selector.value in attr_val
+            return value != "" and value in attr_val
     return False
 
 
-- 
2.43.0


From 68b12982d85055d819364a40fdd83ecdda93457a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 44/55] fix: base renderer for tags that only settings were
 given for

---
 gopher_render/_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index c8d9343..df3f6b2 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -572,7 +572,8 @@ class GopherHTMLParser(HTMLParser):
         return any(t.tag == 'pre' for t in self._tag_stack)
 
     def _get_renderer(self, tag):
-        return self._renderer_map.get_for_tag(tag, self._default_renderer)
+        # Nothing but settings may have been given for the tag
+        return self._renderer_map.get_for_tag(tag, self._default_renderer) or Renderer
 
     def _get_extracted_link_renderer(self, tag):
         try:
-- 
2.43.0


From f1086e162c22536ac8fbf0be264eb251ad6508ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:10 +0000
Subject: [PATCH 45/55] fix: settings that a mixin inherits do not override
 those of other classes

---
 gopher_render/rendering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 6f52ccc..489c3b9 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -311,7 +311,8 @@ class Renderer(metaclass=_RendererMeta):
         s = namedict()
         all_classes = inspect.getmro(cls)
         for klass in all_classes[::-1]:
-            if hasattr(klass, 'settings'):
+            # Only what the class itself declares, not what it inherits
+            if 'settings' in vars(klass):
                 s.update(klass.settings)
 
         instance = super().__new__(cls)
-- 
2.43.0


From aaf1f447f04a5b175797191d98d8d3fea93b0b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:11 +0000
Subject: [PATCH 46/55] fix: background colours of the github theme

---
 gopher_render/code_themes/github.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gopher_render/code_themes/github.py b/gopher_render/code_themes/github.py
index ac50b88..d82bb0a 100644
--- a/gopher_render/code_themes/github.py
+++ b/gopher_render/code_themes/github.py
@@ -23,20 +23,20 @@ _NAVY = "#000080"
 
 renderers = {
     ".highlight .c": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999988", "italic": True }),
-    ".highlight .err": (AnsiEscapeCodeRenderer, { "foreground_colour": "#a61717", "background-colour": "#e3d2d2", }),
+    ".highlight .err": (AnsiEscapeCodeRenderer, { "foreground_colour": "#a61717", "background_colour": "#e3d2d2", }),
     ".highlight .k": (AnsiEscapeCodeRenderer, { "bold": True }),
     ".highlight .o": (AnsiEscapeCodeRenderer, { "bold": True }),
     ".highlight .cm": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999988", "italic": True }),
     ".highlight .cp": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999999", "bold": True }),
     ".highlight .c1": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999988", "italic": True }),
     ".highlight .cs": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999999", "bold": True, "italic": True }),
-    ".highlight .gd": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background-colour": "#ffdddd", }),
-    ".highlight .gd .x": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background-colour": "#ffaaaa", }),
+    ".highlight .gd": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background_colour": "#ffdddd", }),
+    ".highlight .gd .x": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background_colour": "#ffaaaa", }),
     ".highlight .ge": (AnsiEscapeCodeRenderer, { "italic": True }),
     ".highlight .gr": (AnsiEscapeCodeRenderer, { "foreground_colour": "#aa0000", }),
     ".highlight .gh": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999999", }),
-    ".highlight .gi": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background-colour": "#ddffdd", }),
-    ".highlight .gi .x": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background-colour": "#aaffaa", }),
+    ".highlight .gi": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background_colour": "#ddffdd", }),
+    ".highlight .gi .x": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background_colour": "#aaffaa", }),
     ".highlight .go": (AnsiEscapeCodeRenderer, { "foreground_colour": "#888888", }),
     ".highlight .gp": (AnsiEscapeCodeRenderer, { "foreground_colour": "#555555", }),
     ".highlight .gs": (AnsiEscapeCodeRenderer, { "bold": True }),
@@ -83,5 +83,5 @@ renderers = {
     ".highlight .vg": (AnsiEscapeCodeRenderer, { "foreground_colour": _TEAL }),
     ".highlight .vi": (AnsiEscapeCodeRenderer, { "foreground_colour": _TEAL }),
     ".highlight .il": (AnsiEscapeCodeRenderer, { "foreground_colour": "#009999", }),
-    ".highlight .gc": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999", "background-colour": "#EAF2F5", }),
+    ".highlight .gc": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999", "background_colour": "#EAF2F5", }),
 }
-- 
2.43.0


From 3ff08fc9fff6044269e30949bc19291446744b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:02 +0000
Subject: [PATCH 47/55] fix: descriptions of links do not repeat the links
 placed after blocks in them

---
 gopher_render/_parser.py | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index df3f6b2..4e7de83 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -43,16 +43,18 @@ BLOCK_TAGS = (
 LINE_ENDING_TAGS = BLOCK_TAGS + ('br',)
 
 
-def render_children(children, box):
+def render_children(children, box, links=True):
     """
     Render the children of a tag or of the document, and return a list of the
     results. Line breaks are added so that every block is on lines of its own.
+    The links placed after blocks among the children are left out if `links` is
+    False.
     """
     rendered_children = []
     previous = ""
     previous_is_block = False
     for c in children:
-        rendered = c.render(box)
+        rendered = c.render(box, links)
         is_block = c.renders_block()
         if rendered == "":
             previous_is_block = previous_is_block or is_block
@@ -122,7 +124,7 @@ class TagParser(object):
         except TypeError:
             self.renderer = renderer
 
-    def render(self, box):
+    def render(self, box, links=True):
         parent_box = box
         render_context = dict(
             parent_box=box,
@@ -140,20 +142,20 @@ class TagParser(object):
             # passed through.
             pass
 
-        rendered_children = render_children(self.children, box)
+        rendered_children = render_children(self.children, box, links)
 
-        if len(self._pending_links):
+        if links and len(self._pending_links):
             rendered_children.append('\n')
-        for l in self._pending_links:
-            rendered_children.append(
-                l.link_render(box)
-            )
+            for l in self._pending_links:
+                rendered_children.append(
+                    l.link_render(box)
+                )
 
         rendered = render_inst.render(
             "".join(rendered_children)
         )
 
-        if len(self._following_links):
+        if links and len(self._following_links):
             if not rendered.endswith('\n'):
                 rendered += '\n'
             rendered += "".join([
@@ -281,13 +283,13 @@ class LinkParser(TagParser):
     # For links, this generally renders the contents of the tag in its
     # original location, unless 'link_placement' is 'inline', in which case
     # link rendering occurs in the original location.
-    def render(self, box):
+    def render(self, box, links=True):
         placement = self._context['image_placement'] if self.tag == 'img' else self._context['link_placement']
         if placement != 'inline':
-            return super().render(box)
-        return self.link_render(box)
+            return super().render(box, links)
+        return self.link_render(box, links)
 
-    def link_render(self, box):
+    def link_render(self, box, links=True):
         """
         Render an extracted link.
         """
@@ -318,7 +320,13 @@ class LinkParser(TagParser):
             # passed through.
             pass
 
-        rendered_children = render_children(self.children, box)
+        # The links of blocks within the content are not part of the description
+        # of an extracted link. (And each would be rendered twice, at each level.)
+        rendered_children = render_children(
+            self.children,
+            box,
+            links=links and placement == "inline"
+        )
 
         return render_inst.render(
             "".join(rendered_children)
@@ -367,7 +375,7 @@ class DataParser(TagParser):
         if end:
             self.data = self.data.rstrip(' ')
 
-    def render(self, box):
+    def render(self, box, links=True):
         return self.data
 
 
-- 
2.43.0


From d7288681421d04dc10fb83e1cd20c9aeb605bb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:44 +0000
Subject: [PATCH 48/55] fix: do not break up the lines of text that is nested
 too deeply for its width

---
 gopher_render/rendering.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 489c3b9..6d631a4 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -622,8 +622,10 @@ class ParagraphRenderer(BlockRenderer):
             if textwrap_arg in settings:
                 justify_args[textwrap_arg] = settings[textwrap_arg]
 
-        # However deeply nested, there has to be some room for the text.
-        width = max(self.box.inner_width_excluding_line_template, 1)
+        width = self.box.inner_width_excluding_line_template
+        if width < 1:
+            # Nested too deeply for its width, so there is no room to wrap it to.
+            justify_func = _noop
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
         #template = settings['template']
@@ -1091,8 +1093,10 @@ class ListItemRenderer(BlockRenderer):
             if textwrap_arg in settings:
                 justify_args[textwrap_arg] = settings[textwrap_arg]
 
-        # However deeply nested, there has to be some room for the text.
-        width = max(self.box.inner_width_excluding_line_template, 1)
+        width = self.box.inner_width_excluding_line_template
+        if width < 1:
+            # Nested too deeply for its width, so there is no room to wrap it to.
+            justify_func = _noop
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
         # The content can include line breaks and other blocks, so each line is
@@ -1213,8 +1217,10 @@ class DefinitionListItemRenderer(BlockRenderer):
             if textwrap_arg in settings:
                 justify_args[textwrap_arg] = settings[textwrap_arg]
 
-        # However deeply nested, there has to be some room for the text.
-        width = max(self.box.inner_width_excluding_line_template, 1)
+        width = self.box.inner_width_excluding_line_template
+        if width < 1:
+            # Nested too deeply for its width, so there is no room to wrap it to.
+            justify_func = _noop
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
         # The content can include line breaks and other blocks, so each line is
-- 
2.43.0


From 8b448ec3a22c2056b94797dc93705bd369888605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:59 +0000
Subject: [PATCH 49/55] fix: default renderers of extracted links that only
 settings were given for

---
 gopher_render/_parser.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 4e7de83..28ba6a5 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -584,14 +584,9 @@ class GopherHTMLParser(HTMLParser):
         return self._renderer_map.get_for_tag(tag, self._default_renderer) or Renderer
 
     def _get_extracted_link_renderer(self, tag):
-        try:
-            renderer = self._extracted_link_renderer_map.get_for_tag(tag)
-        except KeyError:
-            renderer = None
-        if not renderer:
-            # This should have been matched in the map anyway
-            renderer = self.extracted_link_renderers['a']
-        return renderer
+        # Nothing but settings may have been given for the tag
+        default = ExtractedImageLinkRenderer if tag.tag == 'img' else ExtractedLinkRenderer
+        return self._extracted_link_renderer_map.get_for_tag(tag, default)
 
     def handle_starttag(self, tag, attrs):
         parent = self._get_top() or self.tree
-- 
2.43.0


From 92221ae249da33d0014cfc985b3fa01ccfef6b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 50/55] fix: text that is fed in many pieces is processed once,
 not at each piece

---
 gopher_render/_parser.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 28ba6a5..2b180fb 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -336,14 +336,22 @@ class LinkParser(TagParser):
 class DataParser(TagParser):
     def __init__(self, parent, data, **context):
         super().__init__(None, parent, None, **context)
-        self._source = ""
-        self.data = ""
+        self._pieces = [data]
+        self._data = None
         self.closed = True
-        self.append_data(data)
 
     def append_data(self, data):
-        self._source += data
-        data = self._source
+        self._pieces.append(data)
+        self._data = None
+
+    @property
+    def data(self):
+        # Only when all of the pieces are there: there may be a lot of them
+        if self._data is None:
+            self._data = self._clean("".join(self._pieces))
+        return self._data
+
+    def _clean(self, data):
         if not self._context['in_pre']:
             # This attempts to remove extraneous formatting internal to the data
             # but does not remove whitespace from the start or end of the data
@@ -365,15 +373,15 @@ class DataParser(TagParser):
         elif self._context.get('output_format', None) == 'gophermap':
             # A line with tabs in it would be taken for a link
             data = data.expandtabs()
-        self.data = data
+        return data
 
     def strip(self, start, end):
         if self._context['in_pre']:
             return
         if start:
-            self.data = self.data.lstrip(' ')
+            self._data = self.data.lstrip(' ')
         if end:
-            self.data = self.data.rstrip(' ')
+            self._data = self.data.rstrip(' ')
 
     def render(self, box, links=True):
         return self.data
-- 
2.43.0


From 63a70110a026bcad87fbf11a77d637c510d052e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:46 +0000
Subject: [PATCH 51/55] fix: names of elements and attributes in selectors can
 be written in any case

---
 gopher_render/_selectors.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index 4deb05f..c4328ce 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -24,7 +24,8 @@ def _element_matches(tag, element):
     if hasattr(tag, 'data'):
         return False
     # element.element will be None for the universal selector ('*')
-    return tag.tag == element.element or element.element is None
+    # The names of html elements can be written in any case.
+    return element.element is None or tag.tag == element.element.lower()
 
 
 def _hash_matches(tag, hash):
@@ -136,13 +137,15 @@ def _attribute_matches(tag, selector):
     # not handled here.
     # There are also options related to how to compare the values case-wise
     # but that is apparently not handled by cssselect.
-    if selector.attrib in tag.attrs:
+    # The names of html attributes can be written in any case.
+    attrib = selector.attrib.lower()
+    if attrib in tag.attrs:
         if selector.operator == 'exists':
             return True
         # The value of the selector is a token
         value = selector.value.value
-        attr_val = tag.attrs[selector.attrib]
-        if selector.attrib == 'class':
+        attr_val = tag.attrs[attrib]
+        if attrib == 'class':
             # The class attribute is split during parsing, so have to rejoin
             # it for ease of comparison
             attr_val = " ".join(attr_val)
-- 
2.43.0


From 4130ee90a53b99b12fe2ba15f52489f1140c14cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:47 +0000
Subject: [PATCH 52/55] fix: assign the base foreground colours of the themes,
 instead of annotating them

---
 gopher_render/code_themes/darkly.py         | 2 +-
 gopher_render/code_themes/github.py         | 2 +-
 gopher_render/code_themes/monokai.py        | 2 +-
 gopher_render/code_themes/tomorrow.py       | 2 +-
 gopher_render/code_themes/tomorrow_night.py | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/gopher_render/code_themes/darkly.py b/gopher_render/code_themes/darkly.py
index ae48550..5196a7a 100644
--- a/gopher_render/code_themes/darkly.py
+++ b/gopher_render/code_themes/darkly.py
@@ -10,7 +10,7 @@ from ..rendering import AnsiEscapeCodeRenderer
 # To use them, an ANSI aware block renderer would be required that restores
 # these colour settings after every syntax span.
 background_colour = "#343642"
-foreground_colour: "#C1C2C3"
+foreground_colour = "#C1C2C3"
 
 renderers = {
     ".hll": (AnsiEscapeCodeRenderer, { "background_colour": "#ffc" }),
diff --git a/gopher_render/code_themes/github.py b/gopher_render/code_themes/github.py
index d82bb0a..d3fcfec 100644
--- a/gopher_render/code_themes/github.py
+++ b/gopher_render/code_themes/github.py
@@ -11,7 +11,7 @@ from ..rendering import AnsiEscapeCodeRenderer
 # these colour settings after every syntax span.
 background_colour = "#f8f8f8"
 # There is actually no foreground colour specified by this theme.
-foreground_colour: "#C1C2C3"
+foreground_colour = "#C1C2C3"
 
 # GitHub style for Pygments syntax highlighter, for use with Jekyll
 # Courtesy of GitHub.com
diff --git a/gopher_render/code_themes/monokai.py b/gopher_render/code_themes/monokai.py
index 900df20..d098f04 100644
--- a/gopher_render/code_themes/monokai.py
+++ b/gopher_render/code_themes/monokai.py
@@ -10,7 +10,7 @@ from ..rendering import AnsiEscapeCodeRenderer
 # To use them, an ANSI aware block renderer would be required that restores
 # these colour settings after every syntax span.
 background_colour = "#343642"
-foreground_colour: "#C1C2C3"
+foreground_colour = "#C1C2C3"
 
 renderers = {
     ".hll": (AnsiEscapeCodeRenderer, { "background_colour": "#49483e" }),
diff --git a/gopher_render/code_themes/tomorrow.py b/gopher_render/code_themes/tomorrow.py
index da71889..a4b63f4 100644
--- a/gopher_render/code_themes/tomorrow.py
+++ b/gopher_render/code_themes/tomorrow.py
@@ -10,7 +10,7 @@ from ..rendering import AnsiEscapeCodeRenderer
 # To use them, an ANSI aware block renderer would be required that restores
 # these colour settings after every syntax span.
 background_colour = "#ffffff"
-foreground_colour: "#4d4d4c"
+foreground_colour = "#4d4d4c"
 
 renderers = {
     ".hll": (AnsiEscapeCodeRenderer, { "background_colour": "#d6d6d6" }),
diff --git a/gopher_render/code_themes/tomorrow_night.py b/gopher_render/code_themes/tomorrow_night.py
index bb18381..8ae3525 100644
--- a/gopher_render/code_themes/tomorrow_night.py
+++ b/gopher_render/code_themes/tomorrow_night.py
@@ -10,7 +10,7 @@ from ..rendering import AnsiEscapeCodeRenderer
 # To use them, an ANSI aware block renderer would be required that restores
 # these colour settings after every syntax span.
 background_colour = "#1d1f21"
-foreground_colour: "#c5c8c6"
+foreground_colour = "#c5c8c6"
 
 renderers = {
     ".hll": (AnsiEscapeCodeRenderer, { "background_colour": "#373b41" }),
-- 
2.43.0


From abd705f3b1c2bd90766c7967b81c5feb423022aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:02 +0000
Subject: [PATCH 53/55] fix: selectors with several descendant combinators took
 time exponential in their number

---
 gopher_render/_selectors.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index c4328ce..33e7a98 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -169,6 +169,17 @@ def _attribute_matches(tag, selector):
 
 
 def _combination_matches(tag, selector):
+    if isinstance(selector.selector, CombinedSelector):
+        # There may be a lot of ways to get to the same tag with the same part of
+        # the selector, so keep the result.
+        matches = vars(tag).setdefault('_combination_matches', {})
+        if selector not in matches:
+            matches[selector] = _uncached_combination_matches(tag, selector)
+        return matches[selector]
+    return _uncached_combination_matches(tag, selector)
+
+
+def _uncached_combination_matches(tag, selector):
     if selector.combinator == ' ':
         return _descendant_matches(tag, selector)
     elif selector.combinator == '>':
-- 
2.43.0


From eaff4344a61b1656fff6b346a1593fd574979415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:29 +0000
Subject: [PATCH 54/55] fix: the argument of :nth-child() and :nth-last-child()
 can be written in any case

---
 gopher_render/_selectors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index 33e7a98..1ece6ac 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -10,6 +10,7 @@ from cssselect.parser import (
     Attrib,
     Hash,
     CombinedSelector,
+    Token,
     parse_series,
 )
 
@@ -197,7 +198,8 @@ def _uncached_combination_matches(tag, selector):
 
 def _position_matches(position, arguments):
     # The arguments can be a number, 'odd', 'even', or a series like '2n+1'
-    a, b = parse_series(arguments)
+    # (in any case)
+    a, b = parse_series([Token(t.type, t.value.lower(), t.pos) for t in arguments])
     offset = position - b
     if a == 0:
         return offset == 0
-- 
2.43.0


From 8d96ca44c1b944b86dcccc83bb4536f05c090305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 55/55] fix: only line breaks end lines, not form feeds and
 separators in the text

---
 gopher_render/_parser.py   |  4 ++--
 gopher_render/rendering.py | 20 ++++++++++++++++----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 2b180fb..8585930 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -7,7 +7,7 @@ import cssselect
 
 from ._selectors import tag_matches, Specificity
 
-from .rendering import full_justify
+from .rendering import full_justify, split_lines
 
 from .rendering import Box, BoxSide
 from .rendering import Renderer, InlineRenderer, BlockRenderer
@@ -688,7 +688,7 @@ class GopherHTMLParser(HTMLParser):
     def _indent_body(self):
         box = self._box
         parsed = "".join(self._parsed)
-        lines = parsed.splitlines(keepends=True)
+        lines = split_lines(parsed, keepends=True)
         # Gophermap links (the only lines that contain tabs) must not be indented
         return "".join([
             l if self._output_format == 'gophermap' and '\t' in l
diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 6d631a4..ab85c05 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1,5 +1,6 @@
 from . import _textwrap as textwrap
 import inspect
+import re
 
 from ._namedict import namedict
 
@@ -10,6 +11,18 @@ def _noop(text, *args, **kwargs):
     return text
 
 
+_line_regex = re.compile('[^\r\n]*(?:\r\n|[\r\n])|[^\r\n]+')
+
+
+def split_lines(text, keepends=False):
+    """
+    Split text into lines as str.splitlines does, but only at line breaks, and
+    not at form feeds, separators and the like as well.
+    """
+    lines = _line_regex.findall(text)
+    return lines if keepends else [l.rstrip('\r\n') for l in lines]
+
+
 def full_justify(text, width, *args, **kwargs):
     lines = textwrap.wrap(text, width, *args, **kwargs)
     out_lines = []
@@ -421,8 +434,7 @@ class BlockRenderer(Renderer):
 
     def _outer_render(self, content):
         box = self.box
-        # Not sure if splitlines of split('\n') is best here
-        lines = content.splitlines(keepends=True)
+        lines = split_lines(content, keepends=True)
         indented = "".join([
             "{}{}".format(' ' * box.margin[BoxSide.LEFT], l)
             for l in lines
@@ -686,7 +698,7 @@ class PreRenderer(BlockRenderer):
     def _inner_render(self, content):
         settings = self.settings
 
-        lines = content.splitlines()
+        lines = split_lines(content)
         formatted = []
         for line in lines:
             formatted.append(
@@ -1017,7 +1029,7 @@ class BlockQuoteRenderer(BlockRenderer):
 
         width = self.box.inner_width
 
-        content_split = content.splitlines()
+        content_split = split_lines(content)
         template = self.settings.line_template
 
         return "\n".join(
-- 
2.43.0

