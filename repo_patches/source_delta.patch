From dcd6b777b669ba45581a0d5d45b4e2851035f026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:04 +0000
Subject: [PATCH 01/12] fix: allow style and intrinsic size changes on nodes
 without a layout box

A node hidden with display none has its box removed; changing its style
or intrinsic size then raised AttributeError.
---
 src/colosseum/declaration.py | 4 ++--
 src/colosseum/dimensions.py  | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/colosseum/declaration.py b/src/colosseum/declaration.py
index 3c3e13e..825a0be 100644
--- a/src/colosseum/declaration.py
+++ b/src/colosseum/declaration.py
@@ -668,12 +668,12 @@ class CSS:
     ######################################################################
     @property
     def dirty(self):
-        if self._node:
+        if self._node and self._node.layout is not None:
             return self._node.layout.dirty
 
     @dirty.setter
     def dirty(self, value):
-        if self._node:
+        if self._node and self._node.layout is not None:
             self._node.layout.dirty = value
 
     ######################################################################
diff --git a/src/colosseum/dimensions.py b/src/colosseum/dimensions.py
index 2a083d3..18ca332 100644
--- a/src/colosseum/dimensions.py
+++ b/src/colosseum/dimensions.py
@@ -25,11 +25,13 @@ class Size:
 
     @property
     def dirty(self):
-        return self._node.layout.dirty
+        if self._node.layout is not None:
+            return self._node.layout.dirty
 
     @dirty.setter
     def dirty(self, value):
-        self._node.layout.dirty = value
+        if self._node.layout is not None:
+            self._node.layout.dirty = value
 
     @property
     def width(self):
-- 
2.43.0


From 285f0fda5cb2018b513a8b3a9459fc4377df5b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:04 +0000
Subject: [PATCH 02/12] fix: mark layout dirty for nodes whose truth value is
 false

A host node class that defines __len__ or __bool__ can be falsy.
---
 src/colosseum/declaration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/colosseum/declaration.py b/src/colosseum/declaration.py
index 825a0be..3ad3a71 100644
--- a/src/colosseum/declaration.py
+++ b/src/colosseum/declaration.py
@@ -668,12 +668,12 @@ class CSS:
     ######################################################################
     @property
     def dirty(self):
-        if self._node and self._node.layout is not None:
+        if self._node is not None and self._node.layout is not None:
             return self._node.layout.dirty
 
     @dirty.setter
     def dirty(self, value):
-        if self._node and self._node.layout is not None:
+        if self._node is not None and self._node.layout is not None:
             self._node.layout.dirty = value
 
     ######################################################################
-- 
2.43.0


From 0490c7ad36a83523656b6c581327f0d95500b450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:17 +0000
Subject: [PATCH 03/12] fix: propagate dirtiness to descendants even if the box
 already has the value

A clean subtree below a box that was already dirty (moved there, or
cleared on its own) was not marked when the box changed again.
---
 src/colosseum/dimensions.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/colosseum/dimensions.py b/src/colosseum/dimensions.py
index 18ca332..4e5feda 100644
--- a/src/colosseum/dimensions.py
+++ b/src/colosseum/dimensions.py
@@ -548,8 +548,7 @@ class Box:
 
     @dirty.setter
     def dirty(self, value):
-        if value != self._dirty:
-            self._dirty = value
-            for child in self.node.children:
-                if child.layout:
-                    child.layout.dirty = value
+        self._dirty = value
+        for child in self.node.children:
+            if child.layout:
+                child.layout.dirty = value
-- 
2.43.0


From 66d1b75b7fbcacd5bc399363a588f7b70be0cddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:33 +0000
Subject: [PATCH 04/12] fix: forget old geometry when a hidden node is shown
 again

Resetting stopped at nodes without a box, so the descendants of a node
that had been hidden kept the geometry of an earlier layout. A hidden root
made this and every later layout fail.
---
 src/colosseum/dimensions.py | 7 +++++--
 src/colosseum/engine.py     | 6 ++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/colosseum/dimensions.py b/src/colosseum/dimensions.py
index 4e5feda..3325226 100644
--- a/src/colosseum/dimensions.py
+++ b/src/colosseum/dimensions.py
@@ -235,8 +235,11 @@ class Box:
     def reset(self):
         self._reset()
         for child in self.node.children:
-            if child.layout:
-                child.layout.reset()
+            # A node that was hidden has no box; give it a new one, so that
+            # its own descendants are reset as well.
+            if child.layout is None:
+                child.layout = Box(child)
+            child.layout.reset()
 
     ######################################################################
     # Origin handling
diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index e62cfb7..cd349ec 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -108,11 +108,17 @@ def layout(display, node, standard=HTML5):
     containing_block = Viewport(display, node)
     font = DummyFont(-1)  # FIXME: default font
 
+    if node.layout is None:
+        node.layout = Box(node)
     node.layout.reset()
 
     # 10.1 1
     layout_box(display, node, containing_block, containing_block, font)
 
+    # A root element that isn't displayed has no box to adjust.
+    if node.layout is None:
+        return
+
     # The full collapsed extent of the top margin on the root element
     # must be displayed, so move the default content position so that it is.
     node.layout.content_top += node.layout.collapse_top
-- 
2.43.0


From f00ad14f49358b358d2ab1ec1dbab4e25df9bdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:45 +0000
Subject: [PATCH 05/12] fix: leave hidden children out of block layout

A child with display none in a block container either became anonymous
content, which fails, or supplied the height of its parent without having
a box, which also fails.
---
 src/colosseum/engine.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index cd349ec..f5bc30a 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -66,6 +66,12 @@ def is_absolute_positioned_element(node):
     return node.style.position is ABSOLUTE or node.style.position is FIXED
 
 
+def displayed_children(node):
+    # 9.2.4 - an element with display none, and its descendants, have no
+    # effect on layout
+    return [child for child in node.children if child.style.display is not None]
+
+
 def establishes_inline_formatting_context(node):
     if is_block_container(node):
         for child in node.children:
@@ -238,7 +244,11 @@ def layout_box(display, node, containing_block, viewport, font):
             raise NotImplementedError("Section 17")  # pragma: no cover
         else:
             # Section 9.4.1 - Block formatting context
-            children = anonymize(node.children)
+            for child in node.children:
+                if child.style.display is None:
+                    child.layout = None
+
+            children = anonymize(displayed_children(node))
             offset_top = 0
             bottom_margin = None
 
@@ -677,8 +687,9 @@ def calculate_block_non_replaced_normal_flow_height(node, context):
         # if node.children and node.has_inline_formatting_content: # P4.1
         #     content_height = bottom edge of last line box
         # elif node.children and node.children[-1] non collapsing with bottom margin:
-        if node.children and node.children[-1]:
-            last_child = node.children[-1]
+        children = displayed_children(node)
+        if children and children[-1]:
+            last_child = children[-1]
             content_height = last_child.layout.border_box_bottom
 
             # Merge the margin of the last child with
-- 
2.43.0


From 6c017019a62bcce0e5fffe3072bcb633b87a9edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:11 +0000
Subject: [PATCH 06/12] fix: do not register every length ever created as a
 unit

Each unit value was appended to the list that parsing searches, so memory
and parse time grew without bound.
---
 src/colosseum/units.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/colosseum/units.py b/src/colosseum/units.py
index 6c392a5..fff2ca4 100644
--- a/src/colosseum/units.py
+++ b/src/colosseum/units.py
@@ -28,7 +28,9 @@ class BaseUnit:
     UNITS = []
 
     def __init__(self, suffix, val=None):
-        BaseUnit.UNITS.append((suffix, self))
+        if val is None:
+            # Only the unit itself is registered, not every value that uses it.
+            BaseUnit.UNITS.append((suffix, self))
         self.suffix = suffix
         self.val = val if val is not None else 1
 
-- 
2.43.0


From b8e6bef151271df77a3b07cc3cf7f588f9da24a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:31 +0000
Subject: [PATCH 07/12] fix: reject a directional assignment as a whole

margin = (1, 2, 'bogus', 4) raised an error after it had already changed
two of the four sides.
---
 src/colosseum/declaration.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/colosseum/declaration.py b/src/colosseum/declaration.py
index 3ad3a71..61a3c75 100644
--- a/src/colosseum/declaration.py
+++ b/src/colosseum/declaration.py
@@ -218,7 +218,7 @@ def validated_property(name, choices, initial):
     return property(getter, setter, deleter)
 
 
-def directional_property(name, initial):
+def directional_property(name, choices, initial):
     "Define a property attribute that proxies for top/right/bottom/left alternatives."
 
     def getter(self):
@@ -230,6 +230,15 @@ def directional_property(name, initial):
         )
 
     def setter(self, value):
+        # Don't change any side unless all of them are valid
+        for side in value if isinstance(value, tuple) else (value,):
+            try:
+                choices.validate(side)
+            except ValueError:
+                raise ValueError(
+                    f"Invalid value '{side}' for CSS property '{name % ''}'; Valid values are: {choices}"
+                )
+
         if isinstance(value, tuple):
             if len(value) == 4:
                 setattr(self, name % "_top", value[0])
@@ -293,7 +302,7 @@ class CSS:
         "margin_bottom", choices=MARGIN_CHOICES, initial=0
     )
     margin_left = validated_property("margin_left", choices=MARGIN_CHOICES, initial=0)
-    margin = directional_property("margin%s", initial=0)
+    margin = directional_property("margin%s", MARGIN_CHOICES, initial=0)
 
     # 8.4 Padding properties
     padding_top = validated_property("padding_top", choices=PADDING_CHOICES, initial=0)
@@ -306,7 +315,7 @@ class CSS:
     padding_left = validated_property(
         "padding_left", choices=PADDING_CHOICES, initial=0
     )
-    padding = directional_property("padding%s", initial=0)
+    padding = directional_property("padding%s", PADDING_CHOICES, initial=0)
 
     # 8.5 Border properties
     # 8.5.1 Border width
@@ -322,7 +331,7 @@ class CSS:
     border_left_width = validated_property(
         "border_left_width", choices=BORDER_WIDTH_CHOICES, initial=0
     )
-    border_width = directional_property("border%s_width", initial=0)
+    border_width = directional_property("border%s_width", BORDER_WIDTH_CHOICES, initial=0)
 
     # 8.5.2 Border color
     border_top_color = validated_property(
@@ -343,7 +352,7 @@ class CSS:
         choices=BORDER_COLOR_CHOICES,
         initial=OtherProperty("color"),
     )
-    border_color = directional_property("border%s_color", initial=0)
+    border_color = directional_property("border%s_color", BORDER_COLOR_CHOICES, initial=0)
 
     # 8.5.3 Border style
     border_top_style = validated_property(
@@ -358,7 +367,7 @@ class CSS:
     border_left_style = validated_property(
         "border_left_style", choices=BORDER_STYLE_CHOICES, initial=None
     )
-    border_style = directional_property("border%s_style", initial=None)
+    border_style = directional_property("border%s_style", BORDER_STYLE_CHOICES, initial=None)
 
     # 8.5.4 Border shorthand properties
     border_top = validated_shorthand_property(
-- 
2.43.0


From 1c2d89ef00cf708360d9056aa9bd7e1b7ee7420f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:58 +0000
Subject: [PATCH 08/12] fix: make ImmutableList reject every in-place change

css.cursor += [...] and del css.cursor[:] still worked, and changed the
initial value shared by every declaration.
---
 src/colosseum/wrappers.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/colosseum/wrappers.py b/src/colosseum/wrappers.py
index ee82a21..d57acea 100644
--- a/src/colosseum/wrappers.py
+++ b/src/colosseum/wrappers.py
@@ -194,6 +194,15 @@ class ImmutableList(list):
     def __setitem__(self, index, value):
         raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
 
+    def __delitem__(self, index):
+        raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
+
+    def __iadd__(self, iterable):
+        raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
+
+    def __imul__(self, value):
+        raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
+
     def __hash__(self):
         return hash((self.__class__.__name__, tuple(self)))
 
@@ -213,6 +222,9 @@ class ImmutableList(list):
         return self.__class__(self)
 
     # Disable mutating methods
+    def clear(self):
+        raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
+
     def append(self, object):
         raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
 
-- 
2.43.0


From 9c707db959119f4f9ccf3e770d8b1790718613c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:21 +0000
Subject: [PATCH 09/12] fix: accept already parsed quotes, spacing, shapes and
 urls

CSS.copy() assigns parsed values; it raised an error for quotes and url
cursors, and silently dropped border spacing and clip.
---
 src/colosseum/parser.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 574b6ae..8282d85 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -156,12 +156,15 @@ def border_spacing(value):
     Parse a border spacing value.
 
     Accepts:
+    * An already parsed border spacing.
     * A sequence object different that a string.
     * An integer (interpreted as pixels).
     * A float (interpreted as pixels).
     * A string with of 1 or 2 length items separated by spaces.
     """
-    if isinstance(value, Sequence) and not isinstance(value, str):
+    if isinstance(value, BorderSpacing):
+        return value
+    elif isinstance(value, Sequence) and not isinstance(value, str):
         values = value
     elif isinstance(value, (int, float)):
         values = (value,)
@@ -181,6 +184,9 @@ def border_spacing(value):
 
 def rect(value):
     """Parse a given rect shape."""
+    if isinstance(value, Rect):
+        return value
+
     value = " ".join(val.strip() for val in value.split())
     if (
         value.startswith("rect(")
@@ -208,11 +214,14 @@ def quotes(value):
     """Parse content quotes.
 
     Accepts:
+    * An already parsed set of quotes
     * A string: "'<' '>' '{' '}'"
     * A sequence: ('<', '>') or ['{', '}']
     * A list of 2 item tuples: [('<', '>'), ('{', '}')]
     """
-    if isinstance(value, str):
+    if isinstance(value, Quotes):
+        return value
+    elif isinstance(value, str):
         values = [val.strip() for val in value.split()]
     elif isinstance(value, Sequence):
         # Flatten list of tuples
@@ -407,6 +416,7 @@ def uri(value):
     """Parse a url from a value.
 
     Accepts:
+    * An already parsed url
     * url("<url>")
     * url(  "<url>"  )
     * url('<url>')
@@ -414,7 +424,9 @@ def uri(value):
     * url(<url>)
     * url(  <url>  )
     """
-    if isinstance(value, str):
+    if isinstance(value, Uri):
+        return value
+    elif isinstance(value, str):
         value = value.strip()
     else:
         raise ValueError("Value {value} must be a string")
-- 
2.43.0


From bd9d81e07538c27478442dcab5ac4890a2872cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:01 +0000
Subject: [PATCH 10/12] fix: use the last child for an automatic height even if
 it is falsy

A host node class that defines __len__ or __bool__ can be falsy, like an
empty container; its parent then ignored its height.
---
 src/colosseum/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index f5bc30a..8077bb3 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -688,7 +688,7 @@ def calculate_block_non_replaced_normal_flow_height(node, context):
         #     content_height = bottom edge of last line box
         # elif node.children and node.children[-1] non collapsing with bottom margin:
         children = displayed_children(node)
-        if children and children[-1]:
+        if children:
             last_child = children[-1]
             content_height = last_child.layout.border_box_bottom
 
-- 
2.43.0


From 770948fc6579eb599231c3ab1bb6bcf80cf2a8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:57 +0000
Subject: [PATCH 11/12] fix: errors raised by the host while marking are not
 swallowed by deletions and copies

AttributeError raised by a node or its layout while a deletion or a copy
marked boxes was taken for a missing style attribute and dropped, leaving
the marks half done.
---
 src/colosseum/declaration.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/colosseum/declaration.py b/src/colosseum/declaration.py
index 61a3c75..eaa723a 100644
--- a/src/colosseum/declaration.py
+++ b/src/colosseum/declaration.py
@@ -129,12 +129,8 @@ def validated_shorthand_property(name, parser, wrapper):
 
     def deleter(self):
         for property_name in wrapper.VALID_KEYS:
-            try:
-                delattr(self, property_name)
-                self.dirty = True
-            except AttributeError:
-                # Attribute doesn't exist
-                pass
+            delattr(self, property_name)
+            self.dirty = True
 
     _CSS_PROPERTIES.add(name)
     return property(getter, setter, deleter)
@@ -155,10 +151,11 @@ def unvalidated_property(name, choices, initial):
     def deleter(self):
         try:
             delattr(self, f"_{name}")
-            self.dirty = True
         except AttributeError:
             # Attribute doesn't exist
             pass
+        else:
+            self.dirty = True
 
     _CSS_PROPERTIES.add(name)
     return property(getter, setter, deleter)
@@ -209,10 +206,11 @@ def validated_property(name, choices, initial):
     def deleter(self):
         try:
             delattr(self, f"_{name}")
-            self.dirty = True
         except AttributeError:
             # Attribute doesn't exist
             pass
+        else:
+            self.dirty = True
 
     _CSS_PROPERTIES.add(name)
     return property(getter, setter, deleter)
@@ -712,9 +710,11 @@ class CSS:
         dup._node = node
         for style in _CSS_PROPERTIES:
             try:
-                setattr(dup, style, getattr(self, f"_{style}"))
+                value = getattr(self, f"_{style}")
             except AttributeError:
                 pass
+            else:
+                setattr(dup, style, value)
         return dup
 
     def __getitem__(self, name):
@@ -733,10 +733,7 @@ class CSS:
     def __delitem__(self, name):
         name = name.replace("-", "_")
         if name in _CSS_PROPERTIES:
-            try:
-                delattr(self, name)
-            except AttributeError:
-                pass
+            delattr(self, name)
         else:
             raise KeyError(name)
 
-- 
2.43.0


From 7d08963c8110c368eed324cc15313adf6446217d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:16 +0000
Subject: [PATCH 12/12] fix: only reword the errors of list indexing in
 ImmutableList, not interrupting ones

---
 src/colosseum/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/colosseum/wrappers.py b/src/colosseum/wrappers.py
index d57acea..f84fe48 100644
--- a/src/colosseum/wrappers.py
+++ b/src/colosseum/wrappers.py
@@ -187,7 +187,7 @@ class ImmutableList(list):
     def __getitem__(self, index):
         try:
             return super().__getitem__(index)
-        except Exception as err:
+        except (IndexError, TypeError) as err:
             error_msg = self._get_error_message(err)
             raise err.__class__(error_msg)
 
-- 
2.43.0

