From 194edeb0e13a69e3bfb6c84a4deb8b03a09feb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 01/66] fix: report a parser error when a line is not a
 paragraph

A variable definition without the closing colon or an include with a
colon and no arguments crashed with an IndexError.
---
 mau/parsers/document_processors/paragraph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/document_processors/paragraph.py b/mau/parsers/document_processors/paragraph.py
index d9a767f..e21fbae 100644
--- a/mau/parsers/document_processors/paragraph.py
+++ b/mau/parsers/document_processors/paragraph.py
@@ -22,7 +22,10 @@ def paragraph_processor(parser: DocumentParser):
     # is EOL we know that the paragraph is ended, otherwise
     # we continue to collect. If the token is EOF we
     # reached the end and we have to stop anyway.
-    line_tokens: list[Token] = []
+    #
+    # The first line is mandatory. Without it this
+    # is not a paragraph, so this function fails.
+    line_tokens: list[Token] = [parser.tm.get_token(TokenType.TEXT)]
     while parser.tm.peek_token().type == TokenType.TEXT:
         line_tokens.append(parser.tm.get_token(TokenType.TEXT))
 
-- 
2.43.0


From 69d4a84dd77a7f422a84f19c770cd02c5a315527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:24 +0000
Subject: [PATCH 02/66] fix: accept list items without content

A list item without text, or whose text produced no nodes, crashed
the parser with an IndexError.
---
 mau/parsers/document_processors/list.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mau/parsers/document_processors/list.py b/mau/parsers/document_processors/list.py
index 29f25b1..656ccee 100644
--- a/mau/parsers/document_processors/list.py
+++ b/mau/parsers/document_processors/list.py
@@ -30,7 +30,9 @@ def _process_list_nodes(parser: DocumentParser, parent: Node):
     level = len(header.value)
 
     # Find the final context.
-    context = Context.merge_contexts(header.context, content[-1].info.context)
+    # The content might be empty, in that case use the text.
+    last_context = content[-1].info.context if content else text.context
+    context = Context.merge_contexts(header.context, last_context)
 
     nodes: list[Node] = []
     nodes.append(
@@ -71,7 +73,9 @@ def _process_list_nodes(parser: DocumentParser, parent: Node):
             level = len(header.value)
 
             # Find the final context.
-            context = Context.merge_contexts(header.context, content[-1].info.context)
+            # The content might be empty, in that case use the text.
+            last_context = content[-1].info.context if content else text.context
+            context = Context.merge_contexts(header.context, last_context)
 
             nodes.append(
                 ListItemNode(
-- 
2.43.0


From c538afa0ebce00b7ea2ce6d9534f401658918ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 03/66] fix: accept headers whose text produces no nodes

A header whose text was removed by a control macro or by an empty
variable crashed the parser with an IndexError.
---
 mau/parsers/document_processors/header.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mau/parsers/document_processors/header.py b/mau/parsers/document_processors/header.py
index bada72f..6e33f36 100644
--- a/mau/parsers/document_processors/header.py
+++ b/mau/parsers/document_processors/header.py
@@ -64,9 +64,13 @@ def header_processor(parser: DocumentParser):
     node.name = arguments.named_args.pop("name", None)
 
     # Find the context of the text.
-    text_context = Context.merge_contexts(
-        text_nodes[0].info.context, text_nodes[-1].info.context
-    )
+    # The text might produce no nodes, in that
+    # case use the context of the source text.
+    text_context = text_token.context
+    if text_nodes:
+        text_context = Context.merge_contexts(
+            text_nodes[0].info.context, text_nodes[-1].info.context
+        )
 
     # Find the context of the whole node.
     node.info = NodeInfo(context=Context.merge_contexts(header.context, text_context))
-- 
2.43.0


From bcb4335b60fd79f6fcb6352cf9035a9bf0855c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 04/66] fix: report an error for a blockgroup without the group
 name

The missing argument crashed the parser with a KeyError.
---
 mau/parsers/document_processors/include.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index d839165..50caed9 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -351,7 +351,13 @@ def _parse_blockgroup(
 ):
     arguments.set_names(["group"])
 
-    group_name = arguments.named_args.pop("group")
+    group_name = arguments.named_args.pop("group", None)
+
+    if not group_name:
+        raise create_parser_exception(
+            "Syntax error. You need to specify a group.",
+            context,
+        )
 
     blockgroup_node = BlockGroupNode(group_name)
 
-- 
2.43.0


From 526277f775315eade57e23a07abe21312ee2ff60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 05/66] fix: report an error for a list start that is not a
 number

The wrong value crashed the parser with a ValueError.
---
 mau/parsers/document_processors/list.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/mau/parsers/document_processors/list.py b/mau/parsers/document_processors/list.py
index 656ccee..6cb7fe4 100644
--- a/mau/parsers/document_processors/list.py
+++ b/mau/parsers/document_processors/list.py
@@ -161,17 +161,23 @@ def list_processor(parser: DocumentParser):
     # only through the arguments manager.
     arguments = parser.arguments_buffer.pop_or_default()
 
+    # Find the final context.
+    context = Context.merge_contexts(nodes[0].info.context, nodes[-1].info.context)
+
     # Check if the list has a forced start.
     if (start := arguments.named_args.get("start", 1)) == "auto":
         start = parser.latest_ordered_list_index
         parser.latest_ordered_list_index += len(nodes)
     else:
-        start = int(start)
+        try:
+            start = int(start)
+        except ValueError as exc:
+            raise create_parser_exception(
+                f"The start of the list must be a number or 'auto', not '{start}'.",
+                context=context,
+            ) from exc
         parser.latest_ordered_list_index = len(nodes) + start
 
-    # Find the final context.
-    context = Context.merge_contexts(nodes[0].info.context, nodes[-1].info.context)
-
     node.start = start
     node.content = nodes
     node.info = NodeInfo(context=context)
-- 
2.43.0


From 476ef8c60dfdaaea3a61219c8a424decfd993acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 06/66] fix: continue the numbering of ordered lists correctly

A list with start=auto counted nested lists as items, was influenced by
unordered lists, and started from 0 when there was no previous list.
---
 mau/parsers/document_parser.py          |  8 ++++----
 mau/parsers/document_processors/list.py | 12 ++++++++++--
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/mau/parsers/document_parser.py b/mau/parsers/document_parser.py
index 91882f0..eddb76c 100644
--- a/mau/parsers/document_parser.py
+++ b/mau/parsers/document_parser.py
@@ -109,10 +109,10 @@ class DocumentParser(BaseParser):
         self.label_buffer: LabelBuffer = LabelBuffer()
         self.control_buffer: ControlBuffer = ControlBuffer()
 
-        # The last index in the latest ordered list,
-        # used to calculate the beginning value of them
-        # next one when start=auto
-        self.latest_ordered_list_index = 0
+        # The index that follows the latest ordered list,
+        # used as the beginning value of the next one
+        # when start=auto
+        self.latest_ordered_list_index = 1
 
         # This is a list of files that cannot
         # be included by this file. This is a
diff --git a/mau/parsers/document_processors/list.py b/mau/parsers/document_processors/list.py
index 6cb7fe4..261cb52 100644
--- a/mau/parsers/document_processors/list.py
+++ b/mau/parsers/document_processors/list.py
@@ -164,10 +164,14 @@ def list_processor(parser: DocumentParser):
     # Find the final context.
     context = Context.merge_contexts(nodes[0].info.context, nodes[-1].info.context)
 
+    # Only the items of this list are numbered,
+    # nested lists have their own numbering.
+    items_number = len([i for i in nodes if isinstance(i, ListItemNode)])
+
     # Check if the list has a forced start.
     if (start := arguments.named_args.get("start", 1)) == "auto":
         start = parser.latest_ordered_list_index
-        parser.latest_ordered_list_index += len(nodes)
+        next_index = start + items_number
     else:
         try:
             start = int(start)
@@ -176,7 +180,11 @@ def list_processor(parser: DocumentParser):
                 f"The start of the list must be a number or 'auto', not '{start}'.",
                 context=context,
             ) from exc
-        parser.latest_ordered_list_index = len(nodes) + start
+        next_index = start + items_number
+
+    # Unordered lists do not take part in the numbering.
+    if ordered:
+        parser.latest_ordered_list_index = next_index
 
     node.start = start
     node.content = nodes
-- 
2.43.0


From 89130547cc3b4fb127b7d3263fcaf99016c3080d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:59 +0000
Subject: [PATCH 07/66] fix: excluded nodes leave no traces in the document

The control was checked after the node had been processed, and it was
not checked at all for footnotes and blocks in groups, where it was
applied to the following node. So, excluded nodes could still define
footnotes, groups, variables, and headers, or include files.
---
 mau/parsers/document_parser.py                 | 15 +++++++++++++++
 mau/parsers/document_processors/block.py       | 14 ++++++--------
 mau/parsers/document_processors/header.py      | 14 ++++++--------
 .../document_processors/horizontal_rule.py     | 14 ++++++--------
 mau/parsers/document_processors/include.py     | 18 ++++++++++--------
 mau/parsers/document_processors/list.py        | 18 ++++++++++--------
 mau/parsers/document_processors/paragraph.py   | 14 ++++++--------
 7 files changed, 59 insertions(+), 48 deletions(-)

diff --git a/mau/parsers/document_parser.py b/mau/parsers/document_parser.py
index eddb76c..2c97835 100644
--- a/mau/parsers/document_parser.py
+++ b/mau/parsers/document_parser.py
@@ -203,6 +203,21 @@ class DocumentParser(BaseParser):
 
         return text_parser.nodes
 
+    def next_node_is_excluded(self) -> bool:
+        # Check the stored control. If it is False
+        # the next node must leave no traces in the
+        # document, so its content shouldn't be parsed,
+        # and its arguments and labels are discarded.
+        control = self.control_buffer.pop()
+
+        if control is None or control.process(self.environment):
+            return False
+
+        self.arguments_buffer.pop()
+        self.label_buffer.pop()
+
+        return True
+
     def pop_labels(self, node: Node):
         # Extract labels from the buffer and
         # store them in the given node.
diff --git a/mau/parsers/document_processors/block.py b/mau/parsers/document_processors/block.py
index 969636b..0e299ad 100644
--- a/mau/parsers/document_processors/block.py
+++ b/mau/parsers/document_processors/block.py
@@ -50,6 +50,12 @@ def block_processor(parser: DocumentParser):
         opening_delimiter.context, closing_delimiter.context
     )
 
+    # If the node is excluded we need to stop
+    # processing here and return without
+    # saving any node.
+    if parser.next_node_is_excluded():
+        return True
+
     # Get the stored arguments.
     # Paragraphs can receive arguments
     # only through the arguments manager.
@@ -104,14 +110,6 @@ def block_processor(parser: DocumentParser):
 
         return True
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     parser._save(node)
 
     return True
diff --git a/mau/parsers/document_processors/header.py b/mau/parsers/document_processors/header.py
index 6e33f36..9840044 100644
--- a/mau/parsers/document_processors/header.py
+++ b/mau/parsers/document_processors/header.py
@@ -30,6 +30,12 @@ def header_processor(parser: DocumentParser):
     # Get the text of the header.
     text_token = parser.tm.get_token(TokenType.TEXT)
 
+    # If the node is excluded we need to stop
+    # processing here and return without
+    # saving any node.
+    if parser.next_node_is_excluded():
+        return True
+
     # Calculate the level of the header.
     level = len(header.value)
 
@@ -82,14 +88,6 @@ def header_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     # If there is an id store the header node
     # to be matched with potential header links.
     if node.name:
diff --git a/mau/parsers/document_processors/horizontal_rule.py b/mau/parsers/document_processors/horizontal_rule.py
index d6b98fa..8307d8b 100644
--- a/mau/parsers/document_processors/horizontal_rule.py
+++ b/mau/parsers/document_processors/horizontal_rule.py
@@ -18,6 +18,12 @@ def horizontal_rule_processor(parser: DocumentParser):
     # Get the horizontal rule token.
     rule = parser.tm.get_token(TokenType.HORIZONTAL_RULE)
 
+    # If the node is excluded we need to stop
+    # processing here and return without
+    # saving any node.
+    if parser.next_node_is_excluded():
+        return True
+
     # Get the stored arguments.
     # Horizontal rules can receive arguments
     # only through the arguments manager.
@@ -37,14 +43,6 @@ def horizontal_rule_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     parser._save(node)
 
     return True
diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index 50caed9..d19fcc1 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -67,6 +67,16 @@ def include_processor(parser: DocumentParser):
     # Find the final context.
     context = Context.merge_contexts(prefix.context, content_type.context)
 
+    # If the include is excluded we need to skip
+    # the inline arguments and return without
+    # processing the included content.
+    if parser.next_node_is_excluded():
+        if parser.tm.peek_token_is(TokenType.LITERAL, ":"):
+            parser.tm.get_token(TokenType.LITERAL, ":")
+            parser.tm.get_token(TokenType.TEXT)
+
+        return True
+
     arguments: NodeArguments | None = parser.arguments_buffer.pop()
 
     if parser.tm.peek_token_is(TokenType.LITERAL, ":"):
@@ -119,14 +129,6 @@ def include_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     parser._save(node)
 
     return True
diff --git a/mau/parsers/document_processors/list.py b/mau/parsers/document_processors/list.py
index 261cb52..81788d7 100644
--- a/mau/parsers/document_processors/list.py
+++ b/mau/parsers/document_processors/list.py
@@ -148,6 +148,16 @@ def list_processor(parser: DocumentParser):
     header = parser.tm.peek_token(TokenType.LIST)
     ordered = header.value[0] == "#"
 
+    # If the list is excluded we need to skip
+    # all its items and return without
+    # saving any node.
+    if parser.next_node_is_excluded():
+        while parser.tm.peek_token_is(TokenType.LIST):
+            parser.tm.get_token(TokenType.LIST)
+            parser.tm.get_token(TokenType.TEXT)
+
+        return True
+
     node = ListNode(
         ordered=ordered,
         main_node=True,
@@ -195,14 +205,6 @@ def list_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     parser._save(node)
 
     return True
diff --git a/mau/parsers/document_processors/paragraph.py b/mau/parsers/document_processors/paragraph.py
index e21fbae..ea4c126 100644
--- a/mau/parsers/document_processors/paragraph.py
+++ b/mau/parsers/document_processors/paragraph.py
@@ -29,6 +29,12 @@ def paragraph_processor(parser: DocumentParser):
     while parser.tm.peek_token().type == TokenType.TEXT:
         line_tokens.append(parser.tm.get_token(TokenType.TEXT))
 
+    # If the node is excluded we need to stop
+    # processing here and return without
+    # saving any node.
+    if parser.next_node_is_excluded():
+        return True
+
     node = ParagraphNode()
 
     for line_token in line_tokens:
@@ -69,14 +75,6 @@ def paragraph_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     parser._save(node)
 
     return True
-- 
2.43.0


From 8ec89ec5f51e427fcf1a29b4519487fcbf8e6f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 08/66] fix: allow a file to be included multiple times

Every included file was added permanently to the forbidden inclusions,
so including it again was reported as a recursion.
---
 mau/parsers/document_processors/include.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index d19fcc1..80b9177 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -185,15 +185,19 @@ def _parse_mau(
     # We check if the element is already there to
     # prevent double inclusion but still preserve
     # the order.
-    if context.source not in parser.forbidden_includes:
-        parser.forbidden_includes.append(context.source)
+    # This works on a copy of the list, as only the
+    # files that are being parsed are forbidden. A file
+    # can be included multiple times.
+    forbidden_includes = list(parser.forbidden_includes)
+    if context.source not in forbidden_includes:
+        forbidden_includes.append(context.source)
 
     # Make sure we are not trying to include a file that
     # included this file. It's called infinite recursion,
     # sweetheart.
-    if uri in parser.forbidden_includes:
+    if uri in forbidden_includes:
         raise create_parser_exception(
-            f"To avoid recursion, you cannot include the following files: {parser.forbidden_includes}.",
+            f"To avoid recursion, you cannot include the following files: {forbidden_includes}.",
             context,
         )
 
@@ -212,11 +216,7 @@ def _parse_mau(
 
     # Add the included URI to the list of forbidden
     # inclusions. More censorship!
-    # We check if the element is already there to
-    # prevent double inclusion but still preserve
-    # the order.
-    if uri not in parser.forbidden_includes:
-        parser.forbidden_includes.append(uri)
+    forbidden_includes.append(uri)
 
     # Open the given URI and read the text.
     try:
@@ -253,7 +253,7 @@ def _parse_mau(
         start_line=0,
         start_column=0,
         source_filename=source_filename,
-        forbidden_includes=parser.forbidden_includes,
+        forbidden_includes=forbidden_includes,
     )
 
     # Add the include call to the parser output.
-- 
2.43.0


From a5481e638745596ad0e50359ec8304b6d8192cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 09/66] fix: consider the inclusions made inside blocks

The content of blocks was parsed without the list of forbidden
inclusions, so files could include each other endlessly, and the
inclusions were missing from the list of include calls.
---
 mau/parsers/document_processors/block_engines/default.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mau/parsers/document_processors/block_engines/default.py b/mau/parsers/document_processors/block_engines/default.py
index 3822423..2783f20 100644
--- a/mau/parsers/document_processors/block_engines/default.py
+++ b/mau/parsers/document_processors/block_engines/default.py
@@ -34,8 +34,13 @@ def parse_block_content(
         start_line=start_line,
         start_column=start_column,
         source_filename=source_filename,
+        forbidden_includes=parser.forbidden_includes,
     )
 
+    # Inherit all the calls made by the recursive
+    # parser that processed the content of the block.
+    parser.output.include_calls.extend(content_parser.output.include_calls)
+
     if update:
         # The footnote mentions and definitions
         # found in this block are part of the
-- 
2.43.0


From 3d49c45ee7941446eaef50b595f981b411c5dc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 10/66] fix: report a parser error when an included file cannot
 be read

Only missing files were managed. Directories, files that cannot be
opened, and files that are not valid UTF-8 text crashed the parser.
---
 mau/parsers/document_processors/include.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index 80b9177..24db36c 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -222,7 +222,7 @@ def _parse_mau(
     try:
         with open(uri, "r", encoding="utf-8") as f:
             text = f.read()
-    except FileNotFoundError as exc:
+    except (OSError, ValueError) as exc:
         raise create_parser_exception(
             f"File '{uri}' cannot be read.",
             context,
@@ -295,7 +295,7 @@ def _parse_raw(
     try:
         with open(uri, "r", encoding="utf-8") as f:
             content = f.read()
-    except FileNotFoundError as exc:
+    except (OSError, ValueError) as exc:
         raise create_parser_exception(
             f"File '{uri}' cannot be read.",
             context,
-- 
2.43.0


From 3addc16d8140f174a54165bedfc2682b41f4ab67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:44 +0000
Subject: [PATCH 11/66] fix: import header links from blocks that are not
 isolated

Named headers defined inside a block with isolate=false could not be
linked from the document, and duplicate names were not detected.
---
 mau/parsers/document_processors/block_engines/default.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mau/parsers/document_processors/block_engines/default.py b/mau/parsers/document_processors/block_engines/default.py
index 2783f20..ee6a3c4 100644
--- a/mau/parsers/document_processors/block_engines/default.py
+++ b/mau/parsers/document_processors/block_engines/default.py
@@ -51,6 +51,7 @@ def parse_block_content(
         # found in this block are part of the
         # main document. Import them.
         parser.toc_manager.update(content_parser.toc_manager)
+        parser.header_links_manager.update(content_parser.header_links_manager)
 
     return content_parser.nodes
 
-- 
2.43.0


From ac1561e85d91308d88d8f31a6164c6de01d06594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 12/66] fix: detect duplicate footnotes in blocks that are not
 isolated

The definition of a footnote was silently replaced when a block with
isolate=false contained a footnote with the same name.
---
 mau/parsers/managers/footnotes_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/managers/footnotes_manager.py b/mau/parsers/managers/footnotes_manager.py
index 2e072ab..f987fab 100644
--- a/mau/parsers/managers/footnotes_manager.py
+++ b/mau/parsers/managers/footnotes_manager.py
@@ -75,7 +75,9 @@ class FootnotesManager:
         with those contained in another
         Footnotes Manager."""
         self.footnote_macros.extend(other.footnote_macros)
-        self.bodies.update(other.bodies)
+        for name, body in other.bodies.items():
+            self.add_body(name, body)
+
         self.footnotes_list_nodes.extend(other.footnotes_list_nodes)
 
     def process(self):
-- 
2.43.0


From c8372102089b7054d68ae27a40a908417765eccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 13/66] fix: resolve mentions made inside blocks that are not
 isolated

The content of a block with isolate=false is part of the document, but
footnotes and headers defined outside of the block were reported as
missing when they were mentioned inside it.
---
 mau/parsers/document_parser.py                | 41 +++++++++++--------
 .../block_engines/default.py                  |  7 ++++
 2 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/mau/parsers/document_parser.py b/mau/parsers/document_parser.py
index 2c97835..13bde2e 100644
--- a/mau/parsers/document_parser.py
+++ b/mau/parsers/document_parser.py
@@ -74,6 +74,7 @@ class DocumentParser(BaseParser):
         environment: Environment | None = None,
         parent_node=None,
         forbidden_includes: list[str] | None = None,
+        isolated: bool = True,
     ):
         super().__init__(tokens, message_handler, environment, parent_node)
 
@@ -122,6 +123,11 @@ class DocumentParser(BaseParser):
         # order of calls.
         self.forbidden_includes = forbidden_includes or []
 
+        # If the content is not isolated its footnotes,
+        # headers, and header links are processed by the
+        # parser of the document that contains it.
+        self.isolated = isolated
+
         # This is the final output of the parser
         self.output = DocumentParserOutput()
 
@@ -246,23 +252,24 @@ class DocumentParser(BaseParser):
     def finalise(self):
         super().finalise()
 
-        # This processes all footnotes stored in
-        # the manager merging mentions and data
-        # and updating the nodes that contain
-        # a list of footnotes.
-        self.footnotes_manager.process()
-
-        # Process ToC nodes.
-        # This operation needs to be done before
-        # we process header links, as it creates
-        # the internal IDs for headers that are
-        # used by the header links.
-        self.toc_manager.process()
-
-        # This processes all links stored in
-        # the manager linking them to the
-        # correct headers.
-        self.header_links_manager.process()
+        if self.isolated:
+            # This processes all footnotes stored in
+            # the manager merging mentions and data
+            # and updating the nodes that contain
+            # a list of footnotes.
+            self.footnotes_manager.process()
+
+            # Process ToC nodes.
+            # This operation needs to be done before
+            # we process header links, as it creates
+            # the internal IDs for headers that are
+            # used by the header links.
+            self.toc_manager.process()
+
+            # This processes all links stored in
+            # the manager linking them to the
+            # correct headers.
+            self.header_links_manager.process()
 
         # Process block groups.
         self.blockgroup_manager.process()
diff --git a/mau/parsers/document_processors/block_engines/default.py b/mau/parsers/document_processors/block_engines/default.py
index ee6a3c4..97c1ebe 100644
--- a/mau/parsers/document_processors/block_engines/default.py
+++ b/mau/parsers/document_processors/block_engines/default.py
@@ -17,6 +17,12 @@ def parse_block_content(
 ) -> list[Node]:
     update = arguments.named_args.get("isolate", "true") == "false"
 
+    # The footnotes and the links of a block that is not
+    # isolated are resolved by the external parser.
+    # The body of a footnote is copied, so in that case
+    # they have to be resolved immediately.
+    isolated = not update or "footnote" in arguments.named_args
+
     # The parsing environment is
     # that of the external parser.
     environment = parser.environment
@@ -35,6 +41,7 @@ def parse_block_content(
         start_column=start_column,
         source_filename=source_filename,
         forbidden_includes=parser.forbidden_includes,
+        isolated=isolated,
     )
 
     # Inherit all the calls made by the recursive
-- 
2.43.0


From c05075bb6679367f46b6550a24c9a4a41254803a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 14/66] fix: copy environments without nesting their variables

Variables like a and a.b can coexist in an environment but cannot be
nested. Copying the environment lost one of them or crashed, for example
when including a file.
---
 mau/environment/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mau/environment/environment.py b/mau/environment/environment.py
index 9583e64..d64e222 100644
--- a/mau/environment/environment.py
+++ b/mau/environment/environment.py
@@ -25,7 +25,7 @@ class Environment:
 
     @classmethod
     def from_environment(cls, other: Environment, namespace: str | None = None):
-        return cls().from_dict(other.asdict(), namespace)
+        return cls().from_dict(other.asflatdict(), namespace)
 
     def update(self, other: Environment, namespace: str | None = None, overwrite=True):
         # Create an environment, to get all
-- 
2.43.0


From d286c993d561eaaef0b75935cd3feec939e36b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 15/66] fix: keep the order of the named arguments of an alias

The arguments were added in a random order that changed between runs.
---
 mau/parsers/arguments_parser.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mau/parsers/arguments_parser.py b/mau/parsers/arguments_parser.py
index 6b19374..0fa5906 100644
--- a/mau/parsers/arguments_parser.py
+++ b/mau/parsers/arguments_parser.py
@@ -235,9 +235,12 @@ class ArgumentsParser(BaseParser):
 
             # These are the keys added by the alias
             # that are not already in the processed arguments.
-            missing_keys = set(replacement_args.keys()) - set(
-                self.named_argument_nodes.keys()
-            )
+            # The order of the keys in the alias is preserved.
+            missing_keys = [
+                key
+                for key in replacement_args.keys()
+                if key not in self.named_argument_nodes
+            ]
 
             for key in missing_keys:
                 context = self.alias.info.context
-- 
2.43.0


From c69a250e622e26bc88933e8c66dc1caeb63272cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 16/66] fix: report the position of duplicate footnotes

The block of a footnote has no context of its own, so the error
pointed always at the beginning of the document.
---
 mau/parsers/document_processors/block.py  |  2 +-
 mau/parsers/managers/footnotes_manager.py | 11 ++++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/mau/parsers/document_processors/block.py b/mau/parsers/document_processors/block.py
index 0e299ad..c40ccd4 100644
--- a/mau/parsers/document_processors/block.py
+++ b/mau/parsers/document_processors/block.py
@@ -95,7 +95,7 @@ def block_processor(parser: DocumentParser):
     footnote_name = arguments.named_args.get("footnote")
 
     if footnote_name:
-        parser.footnotes_manager.add_body(footnote_name, node)
+        parser.footnotes_manager.add_body(footnote_name, node, context)
 
         return True
 
diff --git a/mau/parsers/managers/footnotes_manager.py b/mau/parsers/managers/footnotes_manager.py
index f987fab..b9e3b6e 100644
--- a/mau/parsers/managers/footnotes_manager.py
+++ b/mau/parsers/managers/footnotes_manager.py
@@ -7,6 +7,7 @@ from mau.nodes.macro import (
     MacroFootnoteNode,
 )
 from mau.parsers.base_parser import create_parser_exception
+from mau.text_buffer import Context
 
 
 def default_footnote_unique_id(
@@ -42,6 +43,9 @@ class FootnotesManager:
         # created through blocks.
         self.bodies: dict[str, BlockNode] = {}
 
+        # The position of each body in the source, when known.
+        self.body_contexts: dict[str, Context | None] = {}
+
         # The list of footnote lists created through includes.
         self.footnotes_list_nodes: list[FootnotesNode] = []
 
@@ -54,16 +58,17 @@ class FootnotesManager:
         of managed footnote macros."""
         self.footnote_macros.extend(footnote_macros)
 
-    def add_body(self, name: str, data: BlockNode):
+    def add_body(self, name: str, data: BlockNode, context: Context | None = None):
         """Add the content of a footnote to
         the list of contents."""
         if name in self.bodies:
             raise create_parser_exception(
                 text=f"Footnote '{name}' has been already defined.",
-                context=data.info.context,
+                context=context or data.info.context,
             )
 
         self.bodies[name] = data
+        self.body_contexts[name] = context
 
     def add_footnotes_list(self, data: FootnotesNode):
         """Add a footnotes list node to
@@ -76,7 +81,7 @@ class FootnotesManager:
         Footnotes Manager."""
         self.footnote_macros.extend(other.footnote_macros)
         for name, body in other.bodies.items():
-            self.add_body(name, body)
+            self.add_body(name, body, other.body_contexts.get(name))
 
         self.footnotes_list_nodes.extend(other.footnotes_list_nodes)
 
-- 
2.43.0


From a1c4a0c50b589b19a1931b41983afeb39e050a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 17/66] fix: accept environment variables that contain an equal
 sign

The value of variables and the path of files given on the command line
could not contain the character = that separates them from the key.
---
 mau/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mau/__init__.py b/mau/__init__.py
index f4ddacd..861c010 100644
--- a/mau/__init__.py
+++ b/mau/__init__.py
@@ -99,7 +99,7 @@ def load_environment_files(
 
         try:
             # Assume the filename is in the form "key=path".
-            key, value = filename.split("=")
+            key, value = filename.split("=", 1)
 
             # Create a Path from the file path.
             filepath = Path(value)
@@ -146,7 +146,7 @@ def load_environment_variables(
         # ENVIRONMENT_VARIABLES_NAMESPACE.KEY
 
         # Parse the environment variable syntax.
-        key, value = variable.split("=")
+        key, value = variable.split("=", 1)
 
         # Store the value.
         flat_environment_variables[key] = value
-- 
2.43.0


From e2097c38265e0c7f7a644742741442a14943db6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 18/66] fix: accept empty configuration files

An empty YAML file crashed the command line tool.
---
 mau/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mau/cli.py b/mau/cli.py
index 01ec5f4..56a1e33 100644
--- a/mau/cli.py
+++ b/mau/cli.py
@@ -190,7 +190,8 @@ def main():
     config = {}
     if args.config_file:
         with open(args.config_file, "r", encoding="utf-8") as config_file:
-            config = yaml.safe_load(config_file)
+            # An empty file is loaded as None.
+            config = yaml.safe_load(config_file) or {}
 
     # Build the initial environment.
     environment = Environment.from_dict(config, BASE_NAMESPACE)
-- 
2.43.0


From a727731e37ace4124a489b5fec113cc37056581a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 19/66] fix: do not overwrite the input file

The name of the output file was created replacing .mau anywhere in the
path of the input file. Without it the output replaced the input file.
---
 mau/cli.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mau/cli.py b/mau/cli.py
index 56a1e33..a695d01 100644
--- a/mau/cli.py
+++ b/mau/cli.py
@@ -285,8 +285,11 @@ def main():
         sys.exit(1)
 
     # Find out the name of the output file
-    output_file = args.output_file or args.input_file.replace(
-        ".mau", f".{visitor_class.extension}"
+    # Only the extension of the input file is replaced,
+    # as the input file must never be overwritten.
+    output_file = (
+        args.output_file
+        or f"{args.input_file.removesuffix('.mau')}.{visitor_class.extension}"
     )
 
     # Write the rendered text to
-- 
2.43.0


From 2d6fba2700b696d1672dfe82b7f1bc119c162b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 20/66] fix: honour double quotes in all macro arguments

---
 mau/parsers/text_parser.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index b9b3ac2..2d02ecb 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -77,20 +77,29 @@ class TextParser(BaseParser):
             self.tm.peek_token_is(TokenType.LITERAL, ")")
             or self.tm.peek_token_is(TokenType.EOF)
         ):
-            # If we find double quotes we need to blindly
-            # collect everything until we meet the closing
+            # If a value begins with double quotes we need to
+            # blindly collect everything until we meet the closing
             # double quotes or EOL.
-            if self.tm.peek_token_is(TokenType.LITERAL, '"'):
+            # A value begins at the beginning of the arguments,
+            # after a comma, or after an equal sign.
+            collected = "".join([token.value for token in all_args])
+            value_begins = collected == "" or collected.rstrip(" ").endswith(",")
+            value_begins = value_begins or collected.endswith("=")
+
+            if value_begins and self.tm.peek_token_is(TokenType.LITERAL, '"'):
                 # Consume the double quotes.
                 opening_quotes = self.tm.get_token(TokenType.LITERAL, '"')
 
                 # Collect and join everything.
                 # Stop at quotes or EOL.
+                # Escaped quotes are managed by the arguments
+                # parser, so the escape has to be preserved.
                 text_token = self.tm.collect_join(
                     stop_tokens=[
                         Token.generate(TokenType.LITERAL, '"'),
                         EOF,
                     ],
+                    preserve_escaped_stop_tokens=True,
                 )
 
                 # As we stopped, the next token should be
@@ -106,16 +115,16 @@ class TextParser(BaseParser):
                     TokenType.TEXT, value=f'"{text_token.value}"', context=context
                 )
             else:
-                # No double quotes, we can proceed,
-                # until we find the closing round bracket
-                # or a comma, which is the arguments separator.
-                token = self.tm.collect_join(
-                    stop_tokens=[
-                        Token.generate(TokenType.LITERAL, ","),
-                        Token.generate(TokenType.LITERAL, ")"),
-                        EOF,
-                    ],
-                )
+                # No double quotes, we can proceed token
+                # by token, keeping escapes unless they
+                # escape the closing round bracket.
+                token = self.tm.get_token()
+
+                if token == Token.generate(TokenType.LITERAL, "\\"):
+                    if not self.tm.peek_token_is(TokenType.LITERAL, ")"):
+                        all_args.append(token)
+
+                    token = self.tm.get_token()
 
             # We can add the arguments we found to the
             # global list.
-- 
2.43.0


From c8b856472ce1743b2919890a3cc839f11bbdbf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 21/66] fix: accept variables that are not strings in ifeval
 macros

---
 mau/parsers/text_parser.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index 2d02ecb..c5a579b 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -914,18 +914,18 @@ class TextParser(BaseParser):
                 )
 
             # Find the value of the variable.
-            variable_value = self.environment.get(
-                result.value,
-            )
-
             # If the variable wasn't defined yell at the user.
-            if variable_value is None:
+            try:
+                variable_value = self.environment[result.value]
+            except KeyError as exc:
                 raise create_parser_exception(
                     f"Variable '{result.value}' has not been defined.",
                     context=context,
-                )
+                ) from exc
 
-            result.value = variable_value
+            # When the environment is created externally,
+            # the value might not be a string.
+            result.value = str(variable_value)
 
         nodes = []
         if result is not None:
-- 
2.43.0


From af748df8d14f1315915ce9deea404008043d1513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 22/66] fix: compare the text of variables in control
 conditions

---
 mau/parsers/buffers/control_buffer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mau/parsers/buffers/control_buffer.py b/mau/parsers/buffers/control_buffer.py
index 9217ef5..8d3db89 100644
--- a/mau/parsers/buffers/control_buffer.py
+++ b/mau/parsers/buffers/control_buffer.py
@@ -49,6 +49,10 @@ class Control:
                 self.context,
             )
 
+        # When the environment is created externally,
+        # the value might not be a string.
+        variable_value = str(variable_value)
+
         # Perform the requested comparison.
         match self.comparison:
             case ControlComparisons.EQUAL_EQUAL:
-- 
2.43.0


From 16aa22cc687f8cc532bf5f74d98660b4bcc3118c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 23/66] fix: report an error for a missing condition

---
 mau/parsers/condition_parser.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/condition_parser.py b/mau/parsers/condition_parser.py
index 49dc6c2..24b7b63 100644
--- a/mau/parsers/condition_parser.py
+++ b/mau/parsers/condition_parser.py
@@ -5,7 +5,7 @@ from mau.lexers.condition_lexer import ConditionLexer
 from mau.message import BaseMessageHandler
 from mau.nodes.condition import ConditionNode
 from mau.nodes.node import NodeInfo
-from mau.parsers.base_parser import BaseParser
+from mau.parsers.base_parser import BaseParser, create_parser_exception
 from mau.parsers.preprocess_variables_parser import PreprocessVariablesParser
 from mau.text_buffer import Context
 from mau.token import Token, TokenType
@@ -61,6 +61,17 @@ class ConditionParser(BaseParser):
 
         return True
 
+    def finalise(self):
+        super().finalise()
+
+        # An empty text contains no tokens
+        # and thus no condition.
+        if self.condition_node is None:
+            raise create_parser_exception(
+                "The condition is missing.",
+                context=self.tm.peek_token().context,
+            )
+
 
 def process_condition_with_variables(
     condition_token: Token,
-- 
2.43.0


From 515ea9e4bccbda4e9942a3d9891ba00376e7b4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 24/66] fix: false inline conditions do not end the surrounding
 style

---
 mau/parsers/text_parser.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index c5a579b..b32f5c6 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -172,14 +172,10 @@ class TextParser(BaseParser):
         # EOF and EOL always act as stoppers.
         stop_tokens = stop_tokens.union({EOF, EOL})
 
-        # Try to parse some text.
-        nodes = self._parse_text(stop_tokens)
-
-        # Continue parsing text until it
-        # stops returning nodes.
-        while nodes:
-            content.extend(nodes)
-            nodes = self._parse_text(stop_tokens)
+        # Parse text until we meet a stop token. Some
+        # pieces of text do not produce any node.
+        while self.tm.peek_token() not in stop_tokens:
+            content.extend(self._parse_text(stop_tokens))
 
         # Group consecutive WordNode nodes into a single TextNode.
         # This scans the nodes we found and tries to collect consecutive
-- 
2.43.0


From 7f1b548d9f36bfd723fe8e71168ba893afa10f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 25/66] fix: report the correct position of wrong conditions in
 macros

---
 mau/parsers/text_parser.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index b32f5c6..2d6e259 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -835,16 +835,17 @@ class TextParser(BaseParser):
                 context=context,
             )
 
+        # We need to find the context of the condition.
+        # It is the macro name token context shifted
+        # by the legth of the operator plus the colon.
+        shift = len(f"{operator}:")
+
         # Remember if we need to evaluate the result.
         evaluate = operator == "ifeval"
 
         # Both ifeval and if are checking the same logic.
         operator = "if"
 
-        # We need to find the context of the condition.
-        # It is the macro name token context shifted
-        # by the legth of the operator plus the colon.
-        shift = len(f"@{operator}:")
         condition_context = macro_name_token.context.clone()
         condition_context.start_column += shift
 
-- 
2.43.0


From d8f7113c83ae8ff5badbd80afb0a8da38f11e427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 26/66] fix: a list can be followed by an empty line that
 contains spaces

---
 mau/parsers/document_processors/list.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/mau/parsers/document_processors/list.py b/mau/parsers/document_processors/list.py
index 81788d7..285c414 100644
--- a/mau/parsers/document_processors/list.py
+++ b/mau/parsers/document_processors/list.py
@@ -11,7 +11,7 @@ from mau.nodes.node import Node, NodeInfo
 from mau.nodes.node_arguments import NodeArguments
 from mau.parsers.base_parser import create_parser_exception
 from mau.text_buffer import Context
-from mau.token import Token, TokenType
+from mau.token import TokenType
 
 
 def _process_list_nodes(parser: DocumentParser, parent: Node):
@@ -41,10 +41,8 @@ def _process_list_nodes(parser: DocumentParser, parent: Node):
         )
     )
 
-    while parser.tm.peek_token() not in [
-        Token.generate(TokenType.EOF),
-        Token.generate(TokenType.EOL),
-    ]:
+    # Empty lines might contain spaces.
+    while parser.tm.peek_token().type not in [TokenType.EOF, TokenType.EOL]:
         if not parser.tm.peek_token_is(TokenType.LIST):
             # Something fishy happened in the source text.
             # The next token is not the EOL or EOF,
-- 
2.43.0


From b8fa69f97cee297874e3bb0a097fc26cf0a5d724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 27/66] fix: variable definitions do not consume the following
 line

---
 mau/parsers/document_processors/variable_definition.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mau/parsers/document_processors/variable_definition.py b/mau/parsers/document_processors/variable_definition.py
index 513638f..e3afa1d 100644
--- a/mau/parsers/document_processors/variable_definition.py
+++ b/mau/parsers/document_processors/variable_definition.py
@@ -37,9 +37,14 @@ def variable_definition_processor(parser: DocumentParser):
     # Find the final context.
     context = Context.merge_contexts(opening_colon.context, closing_colon.context)
 
-    # Get the optional variable value.
+    # Get the optional variable value. The value
+    # is on the same line of the variable name,
+    # text on the following lines is not part of it.
     value: str = ""
-    if parser.tm.peek_token().type == TokenType.TEXT:
+    if (
+        parser.tm.peek_token().type == TokenType.TEXT
+        and parser.tm.peek_token().context.start_line == closing_colon.context.end_line
+    ):
         value_token = parser.tm.get_token()
         value = value_token.value
         context = Context.merge_contexts(context, value_token.context)
-- 
2.43.0


From 0c44f8fbdd3bdd948700a218c0f8e954a1b22e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 28/66] fix: includes do not consume the following line

---
 mau/parsers/document_processors/include.py | 32 +++++++++++++++++-----
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index 24db36c..3828213 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -30,7 +30,7 @@ from mau.parsers.arguments_parser import (
 )
 from mau.parsers.base_parser import create_parser_exception
 from mau.text_buffer import Context
-from mau.token import TokenType
+from mau.token import Token, TokenType
 
 
 @dataclass
@@ -53,6 +53,28 @@ class IncludeCall:
     info: NodeInfo | None = None
 
 
+def _get_inline_arguments_token(parser: DocumentParser, context: Context) -> Token:
+    # Get the colon.
+    parser.tm.get_token(TokenType.LITERAL, ":")
+
+    arguments_token = parser.tm.peek_token()
+
+    # The inline arguments are on the same line of the
+    # include operator, text on the following lines
+    # is not part of them.
+    if (
+        arguments_token.type != TokenType.TEXT
+        or arguments_token.context.start_line != context.start_line
+    ):
+        raise create_parser_exception(
+            "Syntax error. The inline arguments are missing.",
+            context,
+            help_text=INCLUDE_HELP,
+        )
+
+    return parser.tm.get_token(TokenType.TEXT)
+
+
 def include_processor(parser: DocumentParser):
     # Parse content in the form
     #
@@ -72,8 +94,7 @@ def include_processor(parser: DocumentParser):
     # processing the included content.
     if parser.next_node_is_excluded():
         if parser.tm.peek_token_is(TokenType.LITERAL, ":"):
-            parser.tm.get_token(TokenType.LITERAL, ":")
-            parser.tm.get_token(TokenType.TEXT)
+            _get_inline_arguments_token(parser, context)
 
         return True
 
@@ -91,11 +112,8 @@ def include_processor(parser: DocumentParser):
                 help_text=INCLUDE_HELP,
             )
 
-        # Get the colon.
-        parser.tm.get_token(TokenType.LITERAL, ":")
-
         # Get the inline arguments.
-        arguments_token = parser.tm.get_token(TokenType.TEXT)
+        arguments_token = _get_inline_arguments_token(parser, context)
 
         arguments = process_arguments_with_variables(
             arguments_token, parser.message_handler, parser.environment
-- 
2.43.0


From c54ee5a15dd118cac48bcade36640916b929a289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 29/66] fix: report the correct position of errors in variable
 values

---
 mau/parsers/document_processors/variable_definition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mau/parsers/document_processors/variable_definition.py b/mau/parsers/document_processors/variable_definition.py
index e3afa1d..8401f8c 100644
--- a/mau/parsers/document_processors/variable_definition.py
+++ b/mau/parsers/document_processors/variable_definition.py
@@ -64,7 +64,7 @@ def variable_definition_processor(parser: DocumentParser):
         # replace them.
 
         # Unpack the text initial position.
-        start_line, start_column = context.start_position
+        start_line, start_column = value_token.context.start_position
 
         # Get the text source.
         source_filename = context.source
-- 
2.43.0


From 1d02d2436e473f61b13309a515a1d6d5960891b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:53 +0000
Subject: [PATCH 30/66] fix: keep the empty line of raw and source blocks

---
 mau/parsers/document_processors/block_engines/default.py | 2 +-
 mau/parsers/document_processors/block_engines/raw.py     | 2 +-
 mau/parsers/document_processors/block_engines/source.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mau/parsers/document_processors/block_engines/default.py b/mau/parsers/document_processors/block_engines/default.py
index 97c1ebe..7690739 100644
--- a/mau/parsers/document_processors/block_engines/default.py
+++ b/mau/parsers/document_processors/block_engines/default.py
@@ -68,7 +68,7 @@ def parse_default_engine(
 ) -> BlockNode:
     node = BlockNode()
 
-    if not content:
+    if content is None:
         return node
 
     # Parse the content of the block.
diff --git a/mau/parsers/document_processors/block_engines/raw.py b/mau/parsers/document_processors/block_engines/raw.py
index 9c06d76..d29b24f 100644
--- a/mau/parsers/document_processors/block_engines/raw.py
+++ b/mau/parsers/document_processors/block_engines/raw.py
@@ -19,7 +19,7 @@ def parse_raw_engine(
     # so we just pass it untouched in the form of
     # a RawNode per line.
 
-    if not content:
+    if content is None:
         return RawNode()
 
     # A list of content lines (raw).
diff --git a/mau/parsers/document_processors/block_engines/source.py b/mau/parsers/document_processors/block_engines/source.py
index 9369a95..8cd376c 100644
--- a/mau/parsers/document_processors/block_engines/source.py
+++ b/mau/parsers/document_processors/block_engines/source.py
@@ -61,7 +61,7 @@ def parse_source_engine(
     # Since Mau uses Pygments, the attribute language
     # is one of the languages supported by that tool.
 
-    if not content:
+    if content is None:
         return SourceNode()
 
     # Get the delimiter for markers
-- 
2.43.0


From 84a2c788e2374029dcb9d6b8dd41c7f7910e032e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:20 +0000
Subject: [PATCH 31/66] fix: support source marker delimiters longer than one
 character

---
 .../document_processors/block_engines/source.py        | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mau/parsers/document_processors/block_engines/source.py b/mau/parsers/document_processors/block_engines/source.py
index 8cd376c..4376532 100644
--- a/mau/parsers/document_processors/block_engines/source.py
+++ b/mau/parsers/document_processors/block_engines/source.py
@@ -113,7 +113,7 @@ def parse_source_engine(
             continue
 
         # Split without the final delimiter
-        splits = line_content[:-1].split(marker_delimiter)
+        splits = line_content.removesuffix(marker_delimiter).split(marker_delimiter)
 
         if len(splits) < 2:
             # It's a trap! There are no separators left.
@@ -132,7 +132,9 @@ def parse_source_engine(
         line_content = marker_delimiter.join(splits[:-1])
 
         if marker.startswith(highlight_prefix):
-            highlight_style = marker[1:] or highlight_default_style
+            highlight_style = (
+                marker.removeprefix(highlight_prefix) or highlight_default_style
+            )
 
             # Replace the highlight style
             # if it is an alias.
@@ -145,8 +147,8 @@ def parse_source_engine(
         # If there is a marker, change the line
         # context to remove the marker.
         if marker:
-            # Take into account the two colons.
-            marker_length = len(marker) + 2
+            # Take into account the two delimiters.
+            marker_length = len(marker) + 2 * len(marker_delimiter)
 
             # Calculate the line length.
             line_length = len(line_content)
-- 
2.43.0


From 7069be55736db01c6834e4c778a5164710334f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 32/66] fix: report an error for an empty source marker
 delimiter

---
 mau/parsers/document_processors/block_engines/source.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mau/parsers/document_processors/block_engines/source.py b/mau/parsers/document_processors/block_engines/source.py
index 4376532..fa81f11 100644
--- a/mau/parsers/document_processors/block_engines/source.py
+++ b/mau/parsers/document_processors/block_engines/source.py
@@ -14,6 +14,7 @@ from mau.nodes.source import (
     SourceMarkerNode,
     SourceNode,
 )
+from mau.parsers.base_parser import create_parser_exception
 from mau.text_buffer import Context
 from mau.token import Token
 
@@ -67,6 +68,12 @@ def parse_source_engine(
     # Get the delimiter for markers
     marker_delimiter = arguments.named_args.pop("marker_delimiter", ":")
 
+    if marker_delimiter == "":
+        raise create_parser_exception(
+            "The marker delimiter cannot be empty.",
+            context=content.context,
+        )
+
     # Get the highlight prefix
     highlight_prefix = arguments.named_args.pop("highlight_marker", "@")
 
-- 
2.43.0


From b97d810c82b1a0336edc065b556838bfd9fd582d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:13 +0000
Subject: [PATCH 33/66] fix: parse texts with many unclosed styles in a
 reasonable time

---
 mau/parsers/text_parser.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index 2d6e259..1131cc5 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -28,6 +28,7 @@ from mau.parsers.arguments_parser import (
 from mau.parsers.base_parser import BaseParser, create_parser_exception
 from mau.parsers.buffers.control_buffer import Control
 from mau.parsers.condition_parser import ConditionParser
+from mau.parsers.managers.tokens_manager import TokenError
 from mau.text_buffer import Context
 from mau.token import EOF, EOL, Token, TokenType
 
@@ -60,6 +61,13 @@ class TextParser(BaseParser):
         # in this piece of text.
         self.header_links: list[Node] = []
 
+        # The position of the style markers that are
+        # not closed. An unclosed marker is processed
+        # multiple times if it is contained in other
+        # unclosed styles, but the result is always the
+        # same.
+        self._unclosed_styles: set[int] = set()
+
     def _collect_macro_args(self) -> Token:
         # A helper that reads macro arguments.
         # We already consumed the opening
@@ -435,10 +443,19 @@ class TextParser(BaseParser):
         )
 
         # Get everything before the next marker
+        # Do not parse the content of the style
+        # again if we know it is not closed.
+        opening_index = self.tm.index
+        if opening_index in self._unclosed_styles:
+            raise TokenError
+
         content = self._parse_sentence(
             stop_tokens={Token.generate(TokenType.LITERAL, opening_marker.value)}
         )
 
+        if not self.tm.peek_token_is(TokenType.LITERAL, opening_marker.value):
+            self._unclosed_styles.add(opening_index)
+
         # Get the closing marker
         closing_marker = self.tm.get_token(TokenType.LITERAL, opening_marker.value)
 
-- 
2.43.0


From cb117a7b9e10a84c7e34eba5580ccddebc615320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 34/66] fix: resolve the mentions made in the text of macros

---
 mau/parsers/text_parser.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index 1131cc5..de7d858 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -1,3 +1,5 @@
+from __future__ import annotations
+
 import itertools
 import logging
 
@@ -68,6 +70,13 @@ class TextParser(BaseParser):
         # same.
         self._unclosed_styles: set[int] = set()
 
+    def _collect_mentions(self, parser: TextParser):
+        # The text contained in a macro can mention
+        # footnotes and headers. Those mentions need
+        # to be connected as the ones in this text.
+        self.footnote_macros.extend(parser.footnote_macros)
+        self.header_links.extend(parser.header_links)
+
     def _collect_macro_args(self) -> Token:
         # A helper that reads macro arguments.
         # We already consumed the opening
@@ -531,6 +540,7 @@ class TextParser(BaseParser):
                 start_column=start_column,
                 source_filename=source_filename,
             )
+            self._collect_mentions(parser)
             nodes = parser.nodes
         else:
             nodes = [
@@ -597,6 +607,7 @@ class TextParser(BaseParser):
                 start_column=start_column,
                 source_filename=source_filename,
             )
+            self._collect_mentions(parser)
             node.content = parser.nodes
 
         self.header_links.append(node)
@@ -644,6 +655,7 @@ class TextParser(BaseParser):
                 start_column=start_column,
                 source_filename=source_filename,
             )
+            self._collect_mentions(parser)
             nodes = parser.nodes
         else:
             nodes = [
@@ -697,6 +709,7 @@ class TextParser(BaseParser):
             start_column=start_column,
             source_filename=source_filename,
         )
+        self._collect_mentions(parser)
 
         node = MacroClassNode(
             classes,
@@ -950,6 +963,7 @@ class TextParser(BaseParser):
                 *result.info.context.start_position,
                 result.info.context.source,
             )
+            self._collect_mentions(parser)
             nodes = parser.nodes
 
         return nodes
-- 
2.43.0


From a0293b962ec4494d2bf6545696774baab4e9818a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:56 +0000
Subject: [PATCH 35/66] fix: do not share empty dictionaries between
 environments

---
 mau/environment/helpers.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mau/environment/helpers.py b/mau/environment/helpers.py
index d06c48f..3576688 100644
--- a/mau/environment/helpers.py
+++ b/mau/environment/helpers.py
@@ -29,6 +29,10 @@ def flatten_nested_dict(
             # Update the dictionary with the result of the recursive call.
             # The parent key here is the current hierarchical key.
             flat.update(flatten_nested_dict(value, key, separator=separator))
+        elif isinstance(value, MutableMapping):
+            # An empty dictionary is copied, as the
+            # original might be changed later.
+            flat[key] = {}
         else:
             flat[key] = value
 
@@ -64,6 +68,10 @@ def nest_flattened_dict(flat: dict, separator: str = ".") -> dict:
                 separator,
                 output.setdefault(key, {}),
             )
+        elif isinstance(value, MutableMapping):
+            # A dictionary is copied, as other
+            # keys might be added to it.
+            output[key] = dict(value)
         else:
             output[key] = value
 
-- 
2.43.0


From c85ae7910bf802b993d4af775f425d7831dbbc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:25 +0000
Subject: [PATCH 36/66] fix: the Jinja visitor can be created without an
 environment

---
 mau/visitors/jinja_visitor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mau/visitors/jinja_visitor.py b/mau/visitors/jinja_visitor.py
index 8630bab..93fd7dd 100644
--- a/mau/visitors/jinja_visitor.py
+++ b/mau/visitors/jinja_visitor.py
@@ -348,7 +348,9 @@ class JinjaVisitor(BaseVisitor):
         super().__init__(message_handler, environment)
 
         # Load the template prefixes from the configuration.
-        self.template_prefixes = environment.get("mau.visitor.templates.prefixes", [])
+        self.template_prefixes = self.environment.get(
+            "mau.visitor.templates.prefixes", []
+        )
 
         # Load default templates.
         # A custom implementation of this visitor might
@@ -369,7 +371,7 @@ class JinjaVisitor(BaseVisitor):
 
         # Load custom templates provided as a dictionary.
         templates_env.update(
-            environment.get(
+            self.environment.get(
                 "mau.visitor.templates.custom",
                 Environment(),
             )
-- 
2.43.0


From bb2be1bc1b7c7e61d564782a494e50adf5dc14f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:48 +0000
Subject: [PATCH 37/66] fix: read templates as UTF-8 whatever the locale

---
 mau/visitors/jinja_visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mau/visitors/jinja_visitor.py b/mau/visitors/jinja_visitor.py
index 93fd7dd..fa72025 100644
--- a/mau/visitors/jinja_visitor.py
+++ b/mau/visitors/jinja_visitor.py
@@ -279,7 +279,7 @@ def _load_templates_from_path(
         # If we found a file with the proper
         # extension, read the content,
         # preprocess and store it.
-        result[obj.name] = preprocess(obj.read_text())
+        result[obj.name] = preprocess(obj.read_text(encoding="utf-8"))
 
     return result
 
-- 
2.43.0


From bc16031a8e5c962ee5c5470e40cb13dc02730a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:34 +0000
Subject: [PATCH 38/66] fix: a group included twice has its own items for each
 inclusion

---
 mau/parsers/managers/blockgroup_manager.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/mau/parsers/managers/blockgroup_manager.py b/mau/parsers/managers/blockgroup_manager.py
index 8c45440..9825d4a 100644
--- a/mau/parsers/managers/blockgroup_manager.py
+++ b/mau/parsers/managers/blockgroup_manager.py
@@ -64,13 +64,18 @@ class BlockGroupManager:
                     group_node.info.context,
                 )
 
-            # Add all blocks that mention this
-            # group to the group node.
-            group_node.items.update(self.items[group_name])
-
             # Add each block that mention this
             # group to the group node and add
             # the group as the parent node.
+            # The same group can be included multiple
+            # times, so each group node needs its own
+            # items.
             for position, block_item in self.items[group_name].items():
-                block_item.parent = group_node
-                group_node.items[position] = block_item
+                item = BlockGroupItemNode(
+                    block_item.group,
+                    block_item.position,
+                    block_item.block,
+                    parent=group_node,
+                )
+                block_item.block.parent = item
+                group_node.items[position] = item
-- 
2.43.0


From 6b7576c6ae5808b4623a4de9407e74364d52950c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:32 +0000
Subject: [PATCH 39/66] fix: detect the recursion of files included through
 different paths

---
 mau/parsers/document_processors/include.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index 3828213..64e8dd9 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -6,6 +6,7 @@ if TYPE_CHECKING:
     from mau.parsers.document_parser import DocumentParser
 
 
+import os
 from dataclasses import dataclass, field
 
 from mau.environment.environment import Environment
@@ -182,6 +183,15 @@ def _parse_image(
     return content
 
 
+def _real_path(uri: str | None) -> str | None:
+    # The source of a text might be unknown, and
+    # not all strings are valid paths.
+    try:
+        return os.path.realpath(uri) if uri else uri
+    except (OSError, ValueError):
+        return uri
+
+
 def _parse_mau(
     parser: DocumentParser, arguments: NodeArguments, context: Context
 ) -> IncludeMauNode:
@@ -213,7 +223,9 @@ def _parse_mau(
     # Make sure we are not trying to include a file that
     # included this file. It's called infinite recursion,
     # sweetheart.
-    if uri in forbidden_includes:
+    # The same file can be reached through different
+    # paths, so the real ones have to be compared.
+    if _real_path(uri) in [_real_path(i) for i in forbidden_includes]:
         raise create_parser_exception(
             f"To avoid recursion, you cannot include the following files: {forbidden_includes}.",
             context,
-- 
2.43.0


From 44bca100d6469602f6e1524f9c1a59a9822f5592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:29 +0000
Subject: [PATCH 40/66] fix: an empty dictionary does not hide the variables
 added to its namespace

---
 mau/environment/environment.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mau/environment/environment.py b/mau/environment/environment.py
index d64e222..7996be0 100644
--- a/mau/environment/environment.py
+++ b/mau/environment/environment.py
@@ -68,6 +68,12 @@ class Environment:
             # If the key is present in the flat
             # index we can just return the
             # corresponding value.
+            # An empty dictionary is a namespace, and
+            # variables might have been added to it.
+            if self._variables[key] == {}:
+                default = self._variables[key]
+                raise KeyError(key)
+
             return self._variables[key]
         except KeyError:
             # The key is not there, let's
-- 
2.43.0


From ca16303e64f5c46c57c7fb558cee6a51880245a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:06 +0000
Subject: [PATCH 41/66] fix: an empty dictionary does not remove the variables
 of its namespace

---
 mau/environment/helpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mau/environment/helpers.py b/mau/environment/helpers.py
index 3576688..894ec56 100644
--- a/mau/environment/helpers.py
+++ b/mau/environment/helpers.py
@@ -70,8 +70,9 @@ def nest_flattened_dict(flat: dict, separator: str = ".") -> dict:
             )
         elif isinstance(value, MutableMapping):
             # A dictionary is copied, as other
-            # keys might be added to it.
-            output[key] = dict(value)
+            # keys might be added to it, and must
+            # not replace keys that are already there.
+            output[key] = {**output.get(key, {}), **value}
         else:
             output[key] = value
 
-- 
2.43.0


From 99f6fc7fcdbf5eae54d00f0a6e8ae473b1c91f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:30 +0000
Subject: [PATCH 42/66] fix: report an error for aliases that are not
 dictionaries

---
 mau/parsers/arguments_parser.py | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/mau/parsers/arguments_parser.py b/mau/parsers/arguments_parser.py
index 0fa5906..3f26687 100644
--- a/mau/parsers/arguments_parser.py
+++ b/mau/parsers/arguments_parser.py
@@ -206,9 +206,16 @@ class ArgumentsParser(BaseParser):
 
         if self.alias:
             # Get all aliases.
-            replacements = self.environment.get(
-                "mau.parser.aliases", Environment()
-            ).asdict()
+            replacements = self.environment.get("mau.parser.aliases", Environment())
+
+            if isinstance(replacements, Environment):
+                replacements = replacements.asdict()
+
+            if not isinstance(replacements, dict):
+                raise create_parser_exception(
+                    text="The aliases in 'mau.parser.aliases' must be a dictionary.",
+                    context=self.context,
+                )
 
             # Get the current alias if present.
             replacement = replacements.get(self.alias.value)
@@ -219,11 +226,27 @@ class ArgumentsParser(BaseParser):
                     context=self.context,
                 )
 
+            # Aliases come from the configuration, so
+            # we need to check they have the correct form.
+            if not isinstance(replacement, dict):
+                raise create_parser_exception(
+                    text=f"Alias '{self.alias.value}' in 'mau.parser.aliases' must be a dictionary.",
+                    context=self.context,
+                )
+
             # Get the replacement named arguments.
-            replacement_args = replacement.get("args", {})
+            replacement_args = replacement.get("args") or {}
 
             # Get the replacement names.
-            replacement_names = replacement.get("names", [])
+            replacement_names = replacement.get("names") or []
+
+            if not isinstance(replacement_args, dict) or not isinstance(
+                replacement_names, list
+            ):
+                raise create_parser_exception(
+                    text=f"Alias '{self.alias.value}' in 'mau.parser.aliases' must have a dictionary of arguments and a list of names.",
+                    context=self.context,
+                )
 
             # Get the replacement subtype.
             replacement_subtype = replacement.get("subtype", None)
-- 
2.43.0


From 2f5b40eea137c9d2081cc45c773b18e8bc855d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:50 +0000
Subject: [PATCH 43/66] fix: report an error for configured functions that are
 not functions

---
 mau/parsers/document_parser.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/mau/parsers/document_parser.py b/mau/parsers/document_parser.py
index 13bde2e..08e30d7 100644
--- a/mau/parsers/document_parser.py
+++ b/mau/parsers/document_parser.py
@@ -11,7 +11,7 @@ from mau.message import BaseMessageHandler
 from mau.nodes.document import DocumentNode
 from mau.nodes.include import TocNode
 from mau.nodes.node import Node, NodeInfo
-from mau.parsers.base_parser import BaseParser
+from mau.parsers.base_parser import BaseParser, create_parser_exception
 from mau.parsers.buffers.arguments_buffer import ArgumentsBuffer
 from mau.parsers.buffers.control_buffer import ControlBuffer
 from mau.parsers.buffers.label_buffer import LabelBuffer
@@ -92,12 +92,12 @@ class DocumentParser(BaseParser):
         self.environment.update(base_environment, overwrite=False)
 
         # This is the function used to create internal IDs for headers.
-        self.header_internal_id_function = self.environment.get(
+        self.header_internal_id_function = self._get_function(
             "mau.parser.header_internal_id_function", None
         )
 
         # This is the function used to create unique IDs for footnotes.
-        self.footnote_unique_id_function = self.environment.get(
+        self.footnote_unique_id_function = self._get_function(
             "mau.parser.footnote_unique_id_function", None
         )
 
@@ -132,12 +132,22 @@ class DocumentParser(BaseParser):
         self.output = DocumentParserOutput()
 
         # Initialise the container node.
-        document_node_class = self.environment.get(
+        document_node_class = self._get_function(
             "mau.parser.document_wrapper", DocumentNode
         )
 
         self.parent_node = document_node_class()
 
+    def _get_function(self, name: str, default):
+        # Get a function from the environment. The
+        # environment might contain any type of value.
+        function = self.environment.get(name, default)
+
+        if function is not None and not callable(function):
+            raise create_parser_exception(f"The value of '{name}' is not a function.")
+
+        return function
+
     def _process_functions(self):
         # All the functions that this parser provides.
 
-- 
2.43.0


From df9a88fd648fd693609bce3e3ec4961bb75c2718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:15 +0000
Subject: [PATCH 44/66] fix: report an error for highlight aliases that are not
 a dictionary

---
 .../document_processors/block_engines/source.py        | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/document_processors/block_engines/source.py b/mau/parsers/document_processors/block_engines/source.py
index fa81f11..2668c77 100644
--- a/mau/parsers/document_processors/block_engines/source.py
+++ b/mau/parsers/document_processors/block_engines/source.py
@@ -84,7 +84,15 @@ def parse_source_engine(
 
     style_aliases = parser.environment.get(
         "mau.parser.source_highlight_style_aliases", Environment()
-    ).asdict()
+    )
+
+    if not isinstance(style_aliases, Environment):
+        raise create_parser_exception(
+            "The aliases in 'mau.parser.source_highlight_style_aliases' must be a dictionary.",
+            context=content.context,
+        )
+
+    style_aliases = style_aliases.asdict()
 
     # Get the language
     arguments.set_names(["language"])
-- 
2.43.0


From 47edefe8c4a4b7f2bcb8bd46da274a96a9873bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:42 +0000
Subject: [PATCH 45/66] fix: report an error for a wrong configuration of the
 templates

---
 mau/visitors/jinja_visitor.py | 53 ++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/mau/visitors/jinja_visitor.py b/mau/visitors/jinja_visitor.py
index fa72025..1ff187a 100644
--- a/mau/visitors/jinja_visitor.py
+++ b/mau/visitors/jinja_visitor.py
@@ -195,10 +195,21 @@ def _load_available_template_providers():  # pragma: no cover
     return {i.name: i.load() for i in discovered_plugins}
 
 
+def _get_list(environment: Environment, name: str) -> list[str]:
+    # Get a list from the environment. The
+    # environment might contain any type of value.
+    value = environment.get(name) or []
+
+    if not isinstance(value, (list, tuple)):
+        raise create_visitor_exception(text=f"The value of '{name}' must be a list.")
+
+    return list(value)
+
+
 def load_templates_from_providers(environment: Environment) -> Environment:
     # Find all the template providers that
     # have been configured for this execution.
-    requested_providers = environment.get("mau.visitor.templates.providers", [])
+    requested_providers = _get_list(environment, "mau.visitor.templates.providers")
 
     # If we didn't request any template provider we can skip this.
     if not requested_providers:
@@ -297,8 +308,8 @@ def load_templates_from_filesystem(
 
     # Get the templates path from
     # the configuration environment.
-    templates_path_str_list: list[str] = environment.get(
-        "mau.visitor.templates.paths", []
+    templates_path_str_list: list[str] = _get_list(
+        environment, "mau.visitor.templates.paths"
     )
 
     # If no paths have been specified,
@@ -313,13 +324,18 @@ def load_templates_from_filesystem(
     # Loop through all paths and try
     # to load templates from there.
     for templates_path_str in templates_path_str_list:
-        templates.dupdate(
-            _load_templates_from_path(
-                templates_path_str,
-                extension=extension,
-                preprocess=preprocess,
+        try:
+            templates.dupdate(
+                _load_templates_from_path(
+                    templates_path_str,
+                    extension=extension,
+                    preprocess=preprocess,
+                )
             )
-        )
+        except (OSError, UnicodeError) as exc:
+            raise create_visitor_exception(
+                text=f"Templates cannot be read from '{templates_path_str}': {exc}."
+            ) from exc
 
     return templates
 
@@ -348,8 +364,8 @@ class JinjaVisitor(BaseVisitor):
         super().__init__(message_handler, environment)
 
         # Load the template prefixes from the configuration.
-        self.template_prefixes = self.environment.get(
-            "mau.visitor.templates.prefixes", []
+        self.template_prefixes = _get_list(
+            self.environment, "mau.visitor.templates.prefixes"
         )
 
         # Load default templates.
@@ -370,13 +386,18 @@ class JinjaVisitor(BaseVisitor):
         templates_env.update(templates_from_filesystem)
 
         # Load custom templates provided as a dictionary.
-        templates_env.update(
-            self.environment.get(
-                "mau.visitor.templates.custom",
-                Environment(),
-            )
+        custom_templates = self.environment.get(
+            "mau.visitor.templates.custom",
+            Environment(),
         )
 
+        if isinstance(custom_templates, Environment):
+            templates_env.update(custom_templates)
+        elif custom_templates:
+            raise create_visitor_exception(
+                text="The value of 'mau.visitor.templates.custom' must be a dictionary."
+            )
+
         # Here, the environment as a flat dict
         # contains all the templates we defined.
         # We also took care of the hierarchy
-- 
2.43.0


From 311c8ff4f33a5f879141503a2880bacc8658b2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:01 +0000
Subject: [PATCH 46/66] fix: report an error for templates that are not valid

---
 mau/visitors/jinja_visitor.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mau/visitors/jinja_visitor.py b/mau/visitors/jinja_visitor.py
index 1ff187a..d061da7 100644
--- a/mau/visitors/jinja_visitor.py
+++ b/mau/visitors/jinja_visitor.py
@@ -463,6 +463,13 @@ class JinjaVisitor(BaseVisitor):
             template = self._dict_env.get_template(template_full_name)
         except jinja2.exceptions.TemplateNotFound as exception:
             raise TemplateNotFound(exception) from exception
+        except jinja2.exceptions.TemplateError as exception:
+            raise create_visitor_exception(
+                text=f"Error in template {template_full_name}: {str(exception)}",
+                node=node,
+                data=kwargs,
+                environment=environment,
+            ) from exception
 
         # Render the template using the values
         # retrieved visiting the node.
@@ -470,7 +477,7 @@ class JinjaVisitor(BaseVisitor):
             rendered_template = template.render(
                 config=self.environment.asdict(), **kwargs
             )
-        except jinja2.exceptions.UndefinedError as exception:  # pragma: no cover
+        except jinja2.exceptions.TemplateError as exception:  # pragma: no cover
             raise create_visitor_exception(
                 text=f"Error rendering node with template {template_full_name}: {str(exception)}",
                 node=node,
-- 
2.43.0


From f7bcacbd50ea94f395e49a1723096987455205a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:06 +0000
Subject: [PATCH 47/66] fix: accept templates that are not text, report an
 error for names without type

---
 mau/visitors/jinja_visitor.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/mau/visitors/jinja_visitor.py b/mau/visitors/jinja_visitor.py
index d061da7..758d2ae 100644
--- a/mau/visitors/jinja_visitor.py
+++ b/mau/visitors/jinja_visitor.py
@@ -428,7 +428,19 @@ class JinjaVisitor(BaseVisitor):
 
             # Create a template object and
             # add it to the list of templates.
-            templates.append(Template.from_name(name, content))
+            try:
+                template = Template.from_name(name, content)
+            except ValueError as exc:
+                raise create_visitor_exception(
+                    text=f"The name of the template '{name}' is not valid."
+                ) from exc
+
+            # The content of a template is text, but the
+            # configuration might contain other types.
+            if not isinstance(content, str):
+                template.content = "" if content is None else str(content)
+
+            templates.append(template)
 
         # Order templates by specificity
         templates.sort(key=lambda t: t.specificity, reverse=True)
-- 
2.43.0


From b2b8087da418b64a08c2a5572be9c2b88864aa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:46 +0000
Subject: [PATCH 48/66] fix: the values that come from aliases are text

---
 mau/parsers/arguments_parser.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mau/parsers/arguments_parser.py b/mau/parsers/arguments_parser.py
index 3f26687..2340d40 100644
--- a/mau/parsers/arguments_parser.py
+++ b/mau/parsers/arguments_parser.py
@@ -267,7 +267,10 @@ class ArgumentsParser(BaseParser):
 
             for key in missing_keys:
                 context = self.alias.info.context
-                value = replacement_args[key]
+
+                # All arguments are text, but the
+                # configuration might contain other types.
+                value = str(replacement_args[key])
 
                 self.named_argument_nodes[key] = ValueNode(
                     value,
@@ -275,11 +278,11 @@ class ArgumentsParser(BaseParser):
                     parent=self.parent_node,
                 )
 
-            self.set_names(replacement_names)
+            self.set_names([str(name) for name in replacement_names])
 
             if not self.subtype and replacement_subtype:
                 self.subtype = ValueNode(
-                    replacement_subtype,
+                    str(replacement_subtype),
                     info=NodeInfo(context=self.alias.info.context),
                     parent=self.parent_node,
                 )
-- 
2.43.0


From 05f3ef38ab51f493916916c1d402b80a2f9d619f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:46 +0000
Subject: [PATCH 49/66] fix: report an error for paths of templates that are
 not text

---
 mau/visitors/jinja_visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mau/visitors/jinja_visitor.py b/mau/visitors/jinja_visitor.py
index 758d2ae..1418041 100644
--- a/mau/visitors/jinja_visitor.py
+++ b/mau/visitors/jinja_visitor.py
@@ -332,7 +332,7 @@ def load_templates_from_filesystem(
                     preprocess=preprocess,
                 )
             )
-        except (OSError, UnicodeError) as exc:
+        except (OSError, TypeError, UnicodeError) as exc:
             raise create_visitor_exception(
                 text=f"Templates cannot be read from '{templates_path_str}': {exc}."
             ) from exc
-- 
2.43.0


From 9ca98021458d9c0a3b3a9c25aa71f14fce4f8191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:56 +0000
Subject: [PATCH 50/66] fix: the nested view accepts names that are both
 variables and namespaces

---
 mau/environment/helpers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mau/environment/helpers.py b/mau/environment/helpers.py
index 894ec56..8498d53 100644
--- a/mau/environment/helpers.py
+++ b/mau/environment/helpers.py
@@ -62,6 +62,11 @@ def nest_flattened_dict(flat: dict, separator: str = ".") -> dict:
         # If the key still has hierarchical
         # parts, call the function recursively.
         if rest:
+            # A name can be both a variable and a namespace.
+            # The nested dictionary contains the latest.
+            if not isinstance(output.get(key, {}), MutableMapping):
+                del output[key]
+
             _split(
                 rest[0],
                 value,
-- 
2.43.0


From bcb0bb51fd7b0e5ffc0a03ef46e6b51f5c03220b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:58 +0000
Subject: [PATCH 51/66] fix: report an error for headers that contain links to
 themselves

---
 mau/parsers/managers/header_links_manager.py | 54 ++++++++++++++++++--
 1 file changed, 49 insertions(+), 5 deletions(-)

diff --git a/mau/parsers/managers/header_links_manager.py b/mau/parsers/managers/header_links_manager.py
index ebd94b4..2417089 100644
--- a/mau/parsers/managers/header_links_manager.py
+++ b/mau/parsers/managers/header_links_manager.py
@@ -2,9 +2,26 @@ from __future__ import annotations
 
 from mau.nodes.header import HeaderNode
 from mau.nodes.macro import MacroHeaderNode
+from mau.nodes.node import Node
 from mau.parsers.base_parser import create_parser_exception
 
 
+def find_header_links(node: Node) -> list[MacroHeaderNode]:
+    """Find all the header links contained in a node."""
+    links = []
+
+    children = list(getattr(node, "content", []))
+    children.extend(getattr(node, "labels", {}).values())
+
+    for child in children:
+        if isinstance(child, MacroHeaderNode):
+            links.append(child)
+
+        links.extend(find_header_links(child))
+
+    return links
+
+
 class HeaderLinksManager:
     """This manager collects headers and link macros.
     When the manager process is run, all macros
@@ -53,13 +70,40 @@ class HeaderLinksManager:
         for macro in self.macros:
             try:
                 macro.header = self.headers[macro.target_name]
-
-                if not macro.content:
-                    macro.content = [
-                        node.deepcopy(parent=macro) for node in macro.header.content
-                    ]
             except KeyError as exc:
                 raise create_parser_exception(
                     f"Cannot find header with id {macro.target_name}",
                     context=macro.info.context,
                 ) from exc
+
+        # Give the text of the header to the macros
+        # that do not have one.
+        completed: list[HeaderNode] = []
+
+        for macro in self.macros:
+            self._add_content(macro, [], completed)
+
+    def _add_content(
+        self,
+        macro: MacroHeaderNode,
+        path: list[HeaderNode],
+        completed: list[HeaderNode],
+    ):
+        header = macro.header
+
+        if any(node is header for node in path):
+            raise create_parser_exception(
+                f"The header with id {macro.target_name} contains a link to itself",
+                context=macro.info.context,
+            )
+
+        # The header might contain other links, that
+        # need to be processed before it is copied.
+        if not any(node is header for node in completed):
+            for link in find_header_links(header):
+                self._add_content(link, path + [header], completed)
+
+            completed.append(header)
+
+        if not macro.content:
+            macro.content = [node.deepcopy(parent=macro) for node in header.content]
-- 
2.43.0


From 4799063ec4edc3f901e515d3f5f6bcfac420c42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:48 +0000
Subject: [PATCH 52/66] fix: the links in headers are resolved in tables of
 contents

---
 mau/parsers/document_parser.py      | 13 +++++++++----
 mau/parsers/managers/toc_manager.py | 15 +++++++++------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/mau/parsers/document_parser.py b/mau/parsers/document_parser.py
index 08e30d7..256f834 100644
--- a/mau/parsers/document_parser.py
+++ b/mau/parsers/document_parser.py
@@ -269,18 +269,23 @@ class DocumentParser(BaseParser):
             # a list of footnotes.
             self.footnotes_manager.process()
 
-            # Process ToC nodes.
+            # Create the internal IDs of headers.
             # This operation needs to be done before
-            # we process header links, as it creates
-            # the internal IDs for headers that are
+            # we process header links, as the IDs are
             # used by the header links.
-            self.toc_manager.process()
+            self.toc_manager.create_internal_ids()
 
             # This processes all links stored in
             # the manager linking them to the
             # correct headers.
             self.header_links_manager.process()
 
+            # Process ToC nodes.
+            # This operation copies the headers, so
+            # it needs to be done after the links they
+            # contain have been processed.
+            self.toc_manager.process()
+
         # Process block groups.
         self.blockgroup_manager.process()
 
diff --git a/mau/parsers/managers/toc_manager.py b/mau/parsers/managers/toc_manager.py
index 8652f2b..f2469a1 100644
--- a/mau/parsers/managers/toc_manager.py
+++ b/mau/parsers/managers/toc_manager.py
@@ -144,12 +144,7 @@ class TocManager:
         self.headers.extend(other.headers)
         self.toc_nodes.extend(other.toc_nodes)
 
-    def process(self):
-        if not self.headers:
-            return
-
-        self.nested_headers = []
-
+    def create_internal_ids(self):
         # Check that all headers have a
         # unique internal ID. If not, create it.
         for header in self.headers:
@@ -160,6 +155,14 @@ class TocManager:
             internal_id = self.header_internal_id_function(header)
             header.internal_id = internal_id
 
+    def process(self):
+        if not self.headers:
+            return
+
+        self.nested_headers = []
+
+        self.create_internal_ids()
+
         # Header parent (the document)
         header_parent = self.headers[0].parent
 
-- 
2.43.0


From 0b4c95d80f02163fa75292e247b16468e8f3f677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:42 +0000
Subject: [PATCH 53/66] fix: an empty setting of a function means the default
 one

---
 mau/parsers/document_parser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mau/parsers/document_parser.py b/mau/parsers/document_parser.py
index 256f834..42b75de 100644
--- a/mau/parsers/document_parser.py
+++ b/mau/parsers/document_parser.py
@@ -141,9 +141,13 @@ class DocumentParser(BaseParser):
     def _get_function(self, name: str, default):
         # Get a function from the environment. The
         # environment might contain any type of value.
-        function = self.environment.get(name, default)
+        function = self.environment.get(name)
 
-        if function is not None and not callable(function):
+        # An empty value means that the default is used.
+        if function is None:
+            return default
+
+        if not callable(function):
             raise create_parser_exception(f"The value of '{name}' is not a function.")
 
         return function
-- 
2.43.0


From 1c230939ec904ff9c31b6709162b6b496be22aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:42 +0000
Subject: [PATCH 54/66] fix: messages of visitors do not need the context in
 the data

---
 mau/visitors/base_visitor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mau/visitors/base_visitor.py b/mau/visitors/base_visitor.py
index 7233456..1a7f8e6 100644
--- a/mau/visitors/base_visitor.py
+++ b/mau/visitors/base_visitor.py
@@ -22,7 +22,9 @@ def create_visitor_message(
     additional_info: dict[str, str] | None = None,
 ):
     context = None
-    if data:
+    # The data contains the context
+    # only if the visitor adds it.
+    if data and "_context" in data:
         context = adjust_context_dict(data["_context"])
     elif node:
         context = adjust_context(node.info.context)
-- 
2.43.0


From b7b6b0ea7eeaf77bf5c8054cb6a6b55b78098186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:42 +0000
Subject: [PATCH 55/66] fix: report an error for names of template providers
 that are not text

---
 mau/visitors/jinja_visitor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mau/visitors/jinja_visitor.py b/mau/visitors/jinja_visitor.py
index 1418041..59db0bb 100644
--- a/mau/visitors/jinja_visitor.py
+++ b/mau/visitors/jinja_visitor.py
@@ -224,7 +224,9 @@ def load_templates_from_providers(environment: Environment) -> Environment:
     # Load requested providers.
     for provider in requested_providers:
         # Check if the provider is available.
-        if provider not in available_providers:
+        # The configuration might contain values that
+        # cannot be keys of a dictionary.
+        if provider not in list(available_providers):
             raise create_visitor_exception(
                 text=f"Template provider '{provider}' is not available."
             )
-- 
2.43.0


From 8eff4d79e31d37128ac0ce02388a9ffbb4ce31d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:42 +0000
Subject: [PATCH 56/66] fix: report an error for paths of templates with null
 characters

---
 mau/visitors/jinja_visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mau/visitors/jinja_visitor.py b/mau/visitors/jinja_visitor.py
index 59db0bb..27c295c 100644
--- a/mau/visitors/jinja_visitor.py
+++ b/mau/visitors/jinja_visitor.py
@@ -334,7 +334,7 @@ def load_templates_from_filesystem(
                     preprocess=preprocess,
                 )
             )
-        except (OSError, TypeError, UnicodeError) as exc:
+        except (OSError, TypeError, ValueError) as exc:
             raise create_visitor_exception(
                 text=f"Templates cannot be read from '{templates_path_str}': {exc}."
             ) from exc
-- 
2.43.0


From 162dbbde15579a5b4715e4cc8eb548a762cea189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:42 +0000
Subject: [PATCH 57/66] fix: report an error for templates that fail with
 errors of the language

---
 mau/visitors/jinja_visitor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mau/visitors/jinja_visitor.py b/mau/visitors/jinja_visitor.py
index 27c295c..e9a123b 100644
--- a/mau/visitors/jinja_visitor.py
+++ b/mau/visitors/jinja_visitor.py
@@ -491,7 +491,9 @@ class JinjaVisitor(BaseVisitor):
             rendered_template = template.render(
                 config=self.environment.asdict(), **kwargs
             )
-        except jinja2.exceptions.TemplateError as exception:  # pragma: no cover
+        except Exception as exception:  # pragma: no cover
+            # Templates contain expressions that can
+            # raise any error of the language.
             raise create_visitor_exception(
                 text=f"Error rendering node with template {template_full_name}: {str(exception)}",
                 node=node,
-- 
2.43.0


From 1ed52a4dbea3c70773ae143f0088088b2e4430ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:08 +0000
Subject: [PATCH 58/66] fix: inline conditions accept every name and value

---
 mau/parsers/text_parser.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index de7d858..9e28957 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -308,7 +308,22 @@ class TextParser(BaseParser):
         # opening bracket to store the context
         # in the resulting node.
         opening_bracket = self.tm.get_token(TokenType.LITERAL, "[")
-        macro_name_token = self.tm.get_token(TokenType.TEXT)
+        macro_name_token = self.tm.peek_token(TokenType.TEXT)
+
+        if macro_name_token.value.startswith(("if:", "ifeval:")):
+            # Conditions can contain spaces and characters
+            # that have a meaning in the text, like the
+            # underscores of the name of a variable.
+            macro_name_token = self.tm.collect_join(
+                [
+                    Token.generate(TokenType.LITERAL, "["),
+                    Token.generate(TokenType.LITERAL, "]"),
+                    EOL,
+                ],
+            )
+        else:
+            self.tm.get_token(TokenType.TEXT)
+
         self.tm.get_token(TokenType.LITERAL, "]")
 
         # If this is a macro, there should be an
@@ -851,7 +866,7 @@ class TextParser(BaseParser):
 
         # Split the name into operator:condition
         try:
-            operator, condition = name.split(":")
+            operator, condition = name.split(":", 1)
         except ValueError as exc:
             raise create_parser_exception(
                 f"Macro name '{name}' must be in the form 'operator:condition'.",
-- 
2.43.0


From 3bd4b801465f1d2be2daa6f6c3392aa8f57f548b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:08 +0000
Subject: [PATCH 59/66] fix: the order of the files of a directory does not
 change the templates

---
 mau/visitors/jinja_visitor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mau/visitors/jinja_visitor.py b/mau/visitors/jinja_visitor.py
index e9a123b..aaf6ca6 100644
--- a/mau/visitors/jinja_visitor.py
+++ b/mau/visitors/jinja_visitor.py
@@ -267,7 +267,10 @@ def _load_templates_from_path(
     preprocess = preprocess or (lambda x: x)
 
     # Scan all directories in the given path.
-    for obj in templates_path.iterdir():
+    # The order of the files of a directory is arbitrary,
+    # and the first template is used among those that
+    # are equally specific.
+    for obj in sorted(templates_path.iterdir()):
         # If the object is a directory,
         # recursively load templates from there.
         if obj.is_dir():
-- 
2.43.0


From 8d53309296a2b24cb2aa446d2a14f0734e8f3a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:58 +0000
Subject: [PATCH 60/66] fix: the labels of excluded nodes do not mention
 footnotes and headers

---
 mau/parsers/document_parser.py               | 17 ++++++++++++---
 mau/parsers/managers/footnotes_manager.py    | 23 ++++++++++++++++++++
 mau/parsers/managers/header_links_manager.py |  7 ++++++
 3 files changed, 44 insertions(+), 3 deletions(-)

diff --git a/mau/parsers/document_parser.py b/mau/parsers/document_parser.py
index 42b75de..e440395 100644
--- a/mau/parsers/document_parser.py
+++ b/mau/parsers/document_parser.py
@@ -28,8 +28,14 @@ from mau.parsers.document_processors.variable_definition import (
     variable_definition_processor,
 )
 from mau.parsers.managers.blockgroup_manager import BlockGroupManager
-from mau.parsers.managers.footnotes_manager import FootnotesManager
-from mau.parsers.managers.header_links_manager import HeaderLinksManager
+from mau.parsers.managers.footnotes_manager import (
+    FootnotesManager,
+    find_footnote_macros,
+)
+from mau.parsers.managers.header_links_manager import (
+    HeaderLinksManager,
+    find_header_links,
+)
 from mau.parsers.managers.toc_manager import TocManager
 from mau.parsers.preprocess_variables_parser import PreprocessVariablesParser
 from mau.parsers.text_parser import TextParser
@@ -234,7 +240,12 @@ class DocumentParser(BaseParser):
             return False
 
         self.arguments_buffer.pop()
-        self.label_buffer.pop()
+
+        # The mentions made in the labels
+        # disappear with them.
+        for label in self.label_buffer.pop().values():
+            self.footnotes_manager.remove_footnote_macros(find_footnote_macros(label))
+            self.header_links_manager.remove_macros(find_header_links(label))
 
         return True
 
diff --git a/mau/parsers/managers/footnotes_manager.py b/mau/parsers/managers/footnotes_manager.py
index b9e3b6e..e6956b4 100644
--- a/mau/parsers/managers/footnotes_manager.py
+++ b/mau/parsers/managers/footnotes_manager.py
@@ -6,10 +6,24 @@ from mau.nodes.include import FootnotesItemNode, FootnotesNode
 from mau.nodes.macro import (
     MacroFootnoteNode,
 )
+from mau.nodes.node import Node
 from mau.parsers.base_parser import create_parser_exception
 from mau.text_buffer import Context
 
 
+def find_footnote_macros(node: Node) -> list[MacroFootnoteNode]:
+    """Find all the footnote macros contained in a node."""
+    macros = []
+
+    for child in getattr(node, "content", []):
+        if isinstance(child, MacroFootnoteNode):
+            macros.append(child)
+
+        macros.extend(find_footnote_macros(child))
+
+    return macros
+
+
 def default_footnote_unique_id(
     footnote: FootnoteNode,
 ) -> str:  # pragma: no cover
@@ -58,6 +72,15 @@ class FootnotesManager:
         of managed footnote macros."""
         self.footnote_macros.extend(footnote_macros)
 
+    def remove_footnote_macros(self, footnote_macros: list[MacroFootnoteNode]):
+        """Remove a list of footnote macros from
+        the list of managed footnote macros."""
+        self.footnote_macros = [
+            macro
+            for macro in self.footnote_macros
+            if not any(macro is i for i in footnote_macros)
+        ]
+
     def add_body(self, name: str, data: BlockNode, context: Context | None = None):
         """Add the content of a footnote to
         the list of contents."""
diff --git a/mau/parsers/managers/header_links_manager.py b/mau/parsers/managers/header_links_manager.py
index 2417089..f028a3f 100644
--- a/mau/parsers/managers/header_links_manager.py
+++ b/mau/parsers/managers/header_links_manager.py
@@ -53,6 +53,13 @@ class HeaderLinksManager:
         to the managed macros."""
         self.macros.extend(macros)
 
+    def remove_macros(self, macros: list[MacroHeaderNode]):
+        """Remove the given list of macros
+        from the managed macros."""
+        self.macros = [
+            macro for macro in self.macros if not any(macro is i for i in macros)
+        ]
+
     def update(self, other: HeaderLinksManager):
         """Update the headers and macro nodes
         with those contained in another
-- 
2.43.0


From 11cc36f4a8a516565cb12073689ff9e35ffb8b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:35 +0000
Subject: [PATCH 61/66] fix: text nested too deeply is reported as an error

---
 mau/__init__.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/mau/__init__.py b/mau/__init__.py
index 861c010..f0a05fa 100644
--- a/mau/__init__.py
+++ b/mau/__init__.py
@@ -10,10 +10,11 @@ from mau.environment.environment import Environment
 from mau.lexers.document_lexer import DocumentLexer
 from mau.message import BaseMessageHandler, MauException
 from mau.nodes.node import Node
+from mau.parsers.base_parser import create_parser_exception
 from mau.parsers.document_parser import DocumentParser
 from mau.text_buffer import TextBuffer
 from mau.token import Token
-from mau.visitors.base_visitor import BaseVisitor
+from mau.visitors.base_visitor import BaseVisitor, create_visitor_exception
 from mau.visitors.jinja_visitor import JinjaVisitor
 from mau.visitors.yaml_visitor import YamlVisitor
 
@@ -194,6 +195,13 @@ class Mau:  # pragma: no cover
         except MauException as exc:
             self.message_handler.process(exc.message)
             raise
+        except RecursionError as exc:
+            # The text contains too many nested elements.
+            exception = create_parser_exception(
+                "The text is nested too deeply to be parsed."
+            )
+            self.message_handler.process(exception.message)
+            raise exception from exc
 
         return parser
 
@@ -208,6 +216,13 @@ class Mau:  # pragma: no cover
         except MauException as exc:
             self.message_handler.process(exc.message)
             raise
+        except RecursionError as exc:
+            # The document contains too many nested nodes.
+            exception = create_visitor_exception(
+                "The document is nested too deeply to be rendered."
+            )
+            self.message_handler.process(exception.message)
+            raise exception from exc
 
     def process(
         self,
-- 
2.43.0


From 2060ec51c9f776cd825320a0c85640553a86b0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:33 +0000
Subject: [PATCH 62/66] fix: a copy of a node doesn't share arguments and
 position with the original

---
 mau/nodes/node.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mau/nodes/node.py b/mau/nodes/node.py
index 6c3e4a3..6dbcfd5 100644
--- a/mau/nodes/node.py
+++ b/mau/nodes/node.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
 from collections.abc import Mapping, Sequence
-from copy import copy
+from copy import deepcopy
 from typing import TYPE_CHECKING
 
 from mau.text_buffer import Context
@@ -72,10 +72,13 @@ class Node:
         # Create a new node.
         new_node = self.__class__.__new__(self.__class__)
 
-        # Shallow copies.
+        # The parent is not copied.
         new_node.parent = parent
-        new_node.arguments = copy(self.arguments)
-        new_node.info = copy(self.info)
+
+        # Arguments and info contain lists, dictionaries,
+        # and contexts, that must not be shared with the copy.
+        new_node.arguments = deepcopy(self.arguments)
+        new_node.info = deepcopy(self.info)
 
         return new_node
 
-- 
2.43.0


From 5d8db6014cd851d6ec04cff66a9161f836d15ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:36 +0000
Subject: [PATCH 63/66] fix: the value of a tag is not taken as subtype or
 alias

---
 mau/parsers/arguments_parser.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/mau/parsers/arguments_parser.py b/mau/parsers/arguments_parser.py
index 2340d40..63ced8a 100644
--- a/mau/parsers/arguments_parser.py
+++ b/mau/parsers/arguments_parser.py
@@ -183,13 +183,18 @@ class ArgumentsParser(BaseParser):
         # Isolate all tags.
         self.tag_nodes = self._isolate_by_prefix("#", self.unnamed_argument_nodes)
 
+        # The value of a tag might start with another
+        # prefix, but it is just a tag. The same is
+        # valid for the subtype.
+        nodes = [i for i in self.unnamed_argument_nodes if i not in self.tag_nodes]
+
         # Isolate all subtypes.
-        subtypes = self._isolate_by_prefix(
-            "*", self.unnamed_argument_nodes, unique=True
-        )
+        subtypes = self._isolate_by_prefix("*", nodes, unique=True)
+
+        nodes = [i for i in nodes if i not in subtypes]
 
         # Isolate all aliases.
-        aliases = self._isolate_by_prefix("@", self.unnamed_argument_nodes, unique=True)
+        aliases = self._isolate_by_prefix("@", nodes, unique=True)
 
         # Extract the subtype if present.
         self.subtype = next(iter(subtypes), None)
-- 
2.43.0


From 62997b28e4c36abeea68b581d0b21d223e51ef40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:11 +0000
Subject: [PATCH 64/66] fix: a generic macro can have a name that begins with
 'if'

---
 mau/parsers/text_parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index 9e28957..2914011 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -356,7 +356,12 @@ class TextParser(BaseParser):
         # need to have the nodes and not just the text
         # values of all the arguments.
 
-        if macro_name_token.value.startswith("if"):
+        # The name of a generic macro might start with
+        # "if" as well (e.g. "iframe"), but only control
+        # macros have an operator.
+        if macro_name_token.value in ["if", "ifeval"] or (
+            macro_name_token.value.startswith("if") and ":" in macro_name_token.value
+        ):
             return self._parse_macro_control(
                 macro_name_token, arguments_parser, context=context
             )
-- 
2.43.0


From 3427d52d1204e11c14601dd795b956efc2c8fc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:58 +0000
Subject: [PATCH 65/66] fix: the content of links, classes, and header links
 has the macro as parent

---
 mau/parsers/text_parser.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index 2914011..c294047 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -577,6 +577,10 @@ class TextParser(BaseParser):
             info=NodeInfo(context=context),
         )
 
+        # Make the macro the parent of its content.
+        for i in nodes:
+            i.parent = node
+
         return [node]
 
     def _parse_macro_header_link(
@@ -630,6 +634,10 @@ class TextParser(BaseParser):
             self._collect_mentions(parser)
             node.content = parser.nodes
 
+            # Make the macro the parent of its content.
+            for i in parser.nodes:
+                i.parent = node
+
         self.header_links.append(node)
 
         return [node]
@@ -692,6 +700,10 @@ class TextParser(BaseParser):
             info=NodeInfo(context=context),
         )
 
+        # Make the macro the parent of its content.
+        for i in nodes:
+            i.parent = node
+
         return [node]
 
     def _parse_macro_class(
@@ -738,6 +750,10 @@ class TextParser(BaseParser):
             info=NodeInfo(context=context),
         )
 
+        # Make the macro the parent of its content.
+        for i in parser.nodes:
+            i.parent = node
+
         return [node]
 
     def _parse_macro_unicode(
-- 
2.43.0


From 020e2b7e9a30eb75854143b61dd309ce45c324f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:58 +0000
Subject: [PATCH 66/66] fix: the marker of a source line has the line as parent

---
 mau/parsers/document_processors/block_engines/source.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mau/parsers/document_processors/block_engines/source.py b/mau/parsers/document_processors/block_engines/source.py
index 2668c77..288d2e7 100644
--- a/mau/parsers/document_processors/block_engines/source.py
+++ b/mau/parsers/document_processors/block_engines/source.py
@@ -39,6 +39,7 @@ def create_source_line(
 
     if marker_node:
         source_line_node.marker = marker_node
+        marker_node.parent = source_line_node
 
     code.append(source_line_node)
 
-- 
2.43.0

