"""The relation between the nodes and the source text they come from."""

import re

from .core import Violation

NO_POSITION = {"label", "toc-item", "footnotes-item", "footnote", "blockgroup-item", "wrapper"}
MACROS = {"macro", "macro-link", "macro-header", "macro-image", "macro-footnote", "macro-class", "macro-unicode", "macro-raw"}
BLOCKS = {"block", "raw", "source"}
CHILDREN = ("content", "labels", "marker", "items", "block", "footnotes", "plain_entries", "nested_entries", "entries", "header",
            "footnote")


def cut(lines, start, end):
    (l0, c0), (l1, c1) = start, end
    if not (0 <= l0 <= l1 < len(lines)) or c0 < 0 or (l0 == l1 and not c0 <= c1 <= len(lines[l0])):
        return None
    if l0 == l1:
        return lines[l0][c0:c1]
    return "\n".join([lines[l0][c0:]] + lines[l0 + 1: l1] + [lines[l1][:c1]])


def unescape(s):
    return re.sub(r"\\(.)", r"\1", s)


class Spans:
    """Check every node of a tree. `files` maps the source names to the texts."""

    def __init__(self, files, tiled=True):
        self.files = {k: v.split("\n") for k, v in files.items()}
        self.tiled = tiled
        self.count = 0

    def fail(self, node, why):
        raise Violation(f"{node['_type']} at {node['_context']}: {why}")

    def position(self, node):
        c = node["_context"]
        return c["source"], (c["start_line"], c["start_column"]), (c["end_line"], c["end_column"])

    def slice(self, node):
        source, start, end = self.position(node)
        if source not in self.files:
            self.fail(node, f"unknown source {source}")
        s = cut(self.files[source], start, end)
        if s is None:
            self.fail(node, "the position does not exist in the source")
        return s

    def whole(self, s, line):
        """Nodes of a line that contains inline conditions
        end at the end of the selected text."""
        s = s.rstrip(" ")
        return s == line or (not self.tiled and line.startswith(s))

    def line(self, node):
        return self.files[node["_context"]["source"]][node["_context"]["start_line"]]

    def hull(self, node, kids):
        """The node is the smallest box that contains
        its first and its last child."""
        if not kids:
            return
        _, start, end = self.position(node)
        spans = [self.position(k) for k in (kids[0], kids[-1])]
        want = (
            (min(s[0] for _, s, _ in spans), min(s[1] for _, s, _ in spans)),
            (max(e[0] for _, _, e in spans), max(e[1] for _, _, e in spans)),
        )
        if (start, end) != want:
            self.fail(node, f"expected the position {want}")

    def tile(self, node, line_number, start, end, kids):
        """The children cover [start, end) of a line, in order."""
        if kids and self.position(kids[-1])[2] > self.position(node)[2]:
            self.fail(node, "ends before its content")
        at = start
        for k in kids:
            _, (l0, c0), (l1, c1) = self.position(k)
            if (l0, l1) != (line_number, line_number):
                self.fail(k, f"expected on line {line_number}")
            if (c0 != at and self.tiled) or c0 < at or c1 < c0:
                self.fail(k, f"expected to begin at column {at}")
            at = c1
        if self.line(node)[at:].strip(" ") == "" and at <= len(self.line(node)) and self.line(node)[end:].strip(" ") == "":
            return
        if at > end or (self.tiled and at != end):
            self.fail(node, f"its content ends at column {at} and not {end}")

    def check(self, tree):
        if tree:
            self.visit(tree)
        return self.count

    def visit(self, node):
        kind = node["_type"]
        kids = [k for k in node.get("content", []) if isinstance(k, dict)] if isinstance(node.get("content"), list) else []
        if kind not in NO_POSITION:
            self.count += 1
            s = self.slice(node)
            _, (l0, c0), (l1, c1) = self.position(node)
            getattr(self, "on_" + kind.replace("-", "_"), self.other)(node, s, kids, l0, c0, l1, c1)
        for key in CHILDREN:
            value = node.get(key)
            if key == "content" and kind == "include-raw":
                continue
            for child in value if isinstance(value, list) else value.values() if isinstance(value, dict) and "_type" not in value else [value]:
                if isinstance(child, dict) and "_type" in child:
                    self.visit(child)

    def other(self, node, s, kids, l0, c0, l1, c1):
        kind = node["_type"]
        if kind in MACROS:
            name = node.get("name") or r"[a-z]+"
            if not re.fullmatch(r"\[" + name + r"\]\(.*\)", s) or l0 != l1:
                self.fail(node, f"the text is {s!r}")
            at = c0
            if kind == "macro-header" and not (kids and kids[0]["_context"]["start_line"] == l0):
                return
            for k in kids:
                _, (a, b), (c, d) = self.position(k)
                if (a, c) != (l0, l0) or b < at or d > c1:
                    self.fail(k, "outside of the macro")
                at = d
        elif kind in BLOCKS:
            lines = s.split("\n")
            if c0 != 0 or c1 != 4 or len(lines) < 2 or lines[0] != lines[-1] or lines[0] != lines[0][:1] * 4:
                self.fail(node, f"the text is {s!r}")
            if self.line(node) != lines[0]:
                self.fail(node, "not the beginning of a block")
            for k in kids:
                _, (a, _), (b, _) = self.position(k)
                if a <= l0 or b >= l1:
                    self.fail(k, "outside of the block")
        elif kind == "horizontal-rule":
            if s != "---":
                self.fail(node, f"the text is {s!r}")
        elif kind in ("paragraph", "list"):
            self.hull(node, kids)
        elif kind == "document":
            self.hull(node, kids)
        elif kind.startswith("include") or kind in ("toc", "footnotes", "blockgroup"):
            name = {"include": node.get("ctype"), "include-mau": "mau", "include-raw": "raw", "include-image": "image"}.get(kind, kind)
            if not re.fullmatch("<< *" + name, s) or c0 != 0 or not re.fullmatch("<< *" + name + "(:.*)?", self.line(node)):
                self.fail(node, f"the text is {s!r}")
        else:
            self.fail(node, "unknown type")

    def on_text(self, node, s, kids, l0, c0, l1, c1):
        options = [unescape(s)]
        if s[:1] in ("$", "%") and len(s) > 1 and s[-1] == s[0]:
            options.append(unescape(s[1:-1]))
        if unescape(node["value"]) not in options and node["value"] not in options:
            self.fail(node, f"{node['value']!r} comes from {s!r}")

    def on_verbatim(self, node, s, kids, l0, c0, l1, c1):
        if len(s) < 2 or s[0] != "`" or s[-1] != "`" or unescape(s[1:-1]) != unescape(node["value"]):
            self.fail(node, f"{node['value']!r} comes from {s!r}")

    def on_style(self, node, s, kids, l0, c0, l1, c1):
        mark = {"underscore": "_", "star": "*", "caret": "^", "tilde": "~"}[node["style"]]
        if len(s) < 2 or s[0] != mark or s[-1] != mark:
            self.fail(node, f"the text is {s!r}")
        self.tile(node, l0, c0 + 1, c1 - 1, kids)

    def on_paragraph_line(self, node, s, kids, l0, c0, l1, c1):
        line = self.line(node)
        if s != line:
            self.fail(node, f"the line is {line!r} and not {s!r}")
        self.tile(node, l0, 0, len(line.rstrip(" ")), kids)

    def on_header(self, node, s, kids, l0, c0, l1, c1):
        line = self.line(node).rstrip(" ")
        m = re.match(r"(=+) *", line)
        if not self.whole(s, line) or not m or len(m.group(1)) != node["level"]:
            self.fail(node, f"the line is {line!r} and not {s!r}")
        if line.strip("="):
            self.tile(node, l0, m.end(), len(line), kids)

    def on_list_item(self, node, s, kids, l0, c0, l1, c1):
        line = self.line(node)
        m = re.match(r" *([*#]+) +", line)
        if not m or not self.whole(s, line[c0:].rstrip(" ")) or line[:c0].strip(" ") or s[0] not in "*#" or len(m.group(1)) != node["level"]:
            self.fail(node, f"the line is {line!r} and not {s!r}")
        self.tile(node, l0, m.end(), len(line.rstrip(" ")), kids)

    def on_raw_line(self, node, s, kids, l0, c0, l1, c1):
        if s != node["value"] or s != self.line(node):
            self.fail(node, f"{node['value']!r} comes from {s!r}")

    def on_source_line(self, node, s, kids, l0, c0, l1, c1):
        line = self.line(node)
        if not line.startswith(node["line_content"]) or c0 != 0:
            self.fail(node, f"{node['line_content']!r} comes from {line!r}")
        marker = node.get("marker")
        if marker:
            if s != node["line_content"]:
                self.fail(node, f"{node['line_content']!r} comes from {s!r}")
            if self.position(marker)[1:] != ((l0, c1), (l0, len(line))):
                self.fail(marker, f"expected the end of the line {line!r}")
        elif s != line:
            self.fail(node, f"the line is {line!r} and not {s!r}")

    def on_source_marker(self, node, s, kids, l0, c0, l1, c1):
        if node["value"] not in s:
            self.fail(node, f"{node['value']!r} comes from {s!r}")
