"""Reference interpreter for Mau documents.

An independent, deliberately plain description of what a Mau source text
means: `interpret(text, env, files)` returns either the tree that a user
obtains from the library (same shape as the data produced by the Python
visitor, without source positions) or a `RefError` with the phase that
reports the error.  It shares no code with /repo, works on strings instead
of token streams, and is the oracle for most of the explorations in
/verif/checks.
"""

import hashlib
import os
import re


class RefError(Exception):
    def __init__(self, phase, what="", line=None):
        super().__init__(f"{phase}: {what}")
        self.phase = phase
        self.what = what
        self.line = line


class Undefined(Exception):
    """The input is outside of the domain described by the reference."""


# --------------------------------------------------------------------------
# Environment: a flat dictionary


def flatten(d, prefix=None):
    flat = {}
    for k, v in d.items():
        key = f"{prefix}.{k}" if prefix else k
        if isinstance(v, dict) and v:
            flat.update(flatten(v, key))
        else:
            flat[key] = v
    return flat


def nest(flat):
    out = {}
    for k, v in flat.items():
        parts = k.split(".")
        node = out
        for p in parts[:-1]:
            node = node.setdefault(p, {})
            if not isinstance(node, dict):
                raise Undefined("name that is both a value and a namespace")
        node[parts[-1]] = v
    return out


def nest_latest(flat):
    """As nest, names that are both a value and a namespace have the latest meaning."""
    out = {}
    for k, v in flat.items():
        parts = k.split(".")
        node = out
        for p in parts[:-1]:
            if not isinstance(node.get(p), dict):
                node.pop(p, None)
                node[p] = {}
            node = node[p]
        if v == {} and isinstance(node.get(parts[-1]), dict):
            continue
        node[parts[-1]] = dict(v) if isinstance(v, dict) else v
    return out


def setting(env, key):
    """The dictionary in a namespace of the configuration, the
    values given by the user follow the default ones."""
    if env.get(key, {}) != {}:
        raise RefError("parser", f"{key} is not a dictionary")
    flat = {k: env[k] for k in DEFAULTS if k in env}
    flat.update(env)
    return subenv(flat, key)


def function(env, key):
    """A function given in the configuration."""
    if subenv(env, key) or not (env.get(key) is None or callable(env[key])):
        raise RefError("parser", f"{key} is not a function")
    return env.get(key)


def subenv(flat, key):
    pre = key + "."
    return {k[len(pre):]: v for k, v in flat.items() if k.startswith(pre)}


DEFAULTS = {
    "mau.parser.source_highlight_style_aliases.+": "add",
    "mau.parser.source_highlight_style_aliases.-": "remove",
    "mau.parser.source_highlight_style_aliases.!": "important",
    "mau.parser.source_highlight_style_aliases.x": "error",
    "mau.parser.aliases.source.args.engine": "source",
    "mau.parser.aliases.source.names": ["language"],
}


# --------------------------------------------------------------------------
# Nodes


def noargs():
    return {"args": [], "kwargs": {}, "tags": [], "internal_tags": [], "subtype": None}


class N:
    """A node. `kids` maps a field to a node, a list of nodes,
    or a dictionary of nodes."""

    def __init__(self, t, fields=None, kids=None, args=None, parent=None):
        self.t = t
        self.fields = fields or {}
        self.kids = kids or {}
        self.args = args or noargs()
        self.parent = parent
        self.extra = {}

    def copy(self, parent, refs=("header", "footnote")):
        n = N(self.t, dict(self.fields), None, self.args, parent)
        for k, v in self.kids.items():
            if v is None or (k in refs and isinstance(v, N)):
                n.kids[k] = v
            elif isinstance(v, N):
                n.kids[k] = v.copy(n)
            elif isinstance(v, list):
                n.kids[k] = [c.copy(n) for c in v]
            else:
                n.kids[k] = {kk: c.copy(n) for kk, c in v.items()}
        n.extra = dict(self.extra)
        return n

    def base(self):
        return {"_type": self.t, **self.args}

    def project(self, parents=True):
        d = self.base()
        if parents:
            d["parent"] = self.parent.base() if self.parent else {}
        d.update(self.fields)
        for k, v in self.kids.items():
            if v is None:
                d[k] = {}
            elif isinstance(v, N):
                d[k] = v.project(parents)
            elif isinstance(v, list):
                d[k] = [c.project(parents) for c in v]
            else:
                d[k] = {kk: c.project(parents) for kk, c in v.items()}
        if self.t == "blockgroup-item":
            d["block_data"] = d["block"]
        return d


def owner(node):
    """A node that is the parent of its content."""
    for c in node.kids["content"]:
        c.parent = node
    return node


def text_node(value, parent=None):
    return N("text", {"value": value}, parent=parent)


# --------------------------------------------------------------------------
# Variables


def pre_tokens(s):
    toks = re.findall(r"[\\`{}]|[^\\`{}]+", s)
    if len(toks) > 1 and toks[-1].strip(" ") == "":
        toks.pop()
    return toks


def substitute(s, env):
    """Replace {variables} in a piece of text."""
    toks = pre_tokens(s)
    n = len(toks)
    out = []
    i = 0
    while i < n:
        t = toks[i]
        if t == "\\":
            nxt = toks[i + 1] if i + 1 < n else ""
            if nxt in ("{", "}", ""):
                out.append(nxt)
            else:
                out.append("\\" + nxt)
            i += 2
            continue
        if t == "`":
            j = i + 1
            while j < n and toks[j] != "`":
                j += 2 if toks[j] == "\\" else 1
            if j < n:
                out.append("".join(toks[i: j + 1]))
                i = j + 1
                continue
        if t == "{":
            j = i + 1
            name = []
            while j < n and toks[j] != "}":
                if toks[j] == "\\":
                    if j + 1 < n:
                        if toks[j + 1] != "}":
                            name.append("\\")
                        name.append(toks[j + 1])
                    j += 2
                else:
                    name.append(toks[j])
                    j += 1
            if j < n:
                name = "".join(name)
                i = j + 1
                if name.startswith("{"):
                    if i < n and toks[i] == "}":
                        out.append(name + "}")
                        i += 1
                        continue
                    raise RefError("parser", "incomplete variable")
                if name not in env:
                    raise RefError("parser", f"undefined variable {name}")
                out.append(str(env[name]))
                continue
        out.append(t)
        i += 1
    return "".join(out)


# --------------------------------------------------------------------------
# Arguments


def arg_tokens(s):
    """[(kind, value)] with kind in text, lit, space"""
    if s == "":
        return []
    if s.strip(" ") == "":
        return [("eol", s)]
    out = []
    for m in re.finditer(r'( +)|([\\=,"])|([^\\=," ]+)', s.rstrip(" ")):
        if m.group(1) is not None:
            out.append(("space", m.group(1)))
        elif m.group(2) is not None:
            out.append(("lit", m.group(2)))
        else:
            out.append(("text", m.group(3)))
    return out


def positional(unnamed, named, names):
    names = [x for x in names if x not in named]
    pairs = list(zip(names, unnamed))
    rest = unnamed[len(names):]
    named.update(pairs)
    return rest


class Args:
    def __init__(self, s, env):
        toks = arg_tokens(s)
        n = len(toks)
        self.unnamed = []
        self.named = {}
        i = 0

        def lit(j, v):
            return j < n and toks[j] == ("lit", v)

        def collect(j, stop):
            out = []
            while j < n and not lit(j, stop):
                if lit(j, "\\"):
                    if j + 1 < n:
                        if not lit(j + 1, stop):
                            out.append("\\")
                        out.append(toks[j + 1][1])
                    j += 2
                else:
                    out.append(toks[j][1])
                    j += 1
            return "".join(out), min(j, n)

        def value(j):
            if lit(j, '"'):
                v, j = collect(j + 1, '"')
                if not lit(j, '"'):
                    return None, None
                j += 1
            else:
                v, j = collect(j, ",")
            if lit(j, ","):
                j += 1
            if j < n and toks[j][0] == "space":
                j += 1
            return v, j

        while i < n:
            if toks[i][0] == "text" and lit(i + 1, "="):
                v, j = value(i + 2)
                if v is not None:
                    self.named[toks[i][1]] = v.strip()
                    i = j
                    continue
            if self.named:
                raise RefError("parser", "unnamed after named")
            v, j = value(i)
            if v is None:
                raise RefError("parser", "unclosed quotes")
            self.unnamed.append(v)
            i = j

        self.tags = []
        self.internal_tags = []
        self.subtype = None
        alias = None
        rest = []
        for v in self.unnamed:
            if v.startswith("#mau:"):
                self.internal_tags.append(v[5:])
            elif v.startswith("#"):
                self.tags.append(v[1:])
            elif v.startswith("*"):
                if self.subtype is not None:
                    raise RefError("parser", "multiple subtypes")
                self.subtype = v[1:]
            elif v.startswith("@"):
                if alias is not None:
                    raise RefError("parser", "multiple aliases")
                alias = v[1:]
            else:
                rest.append(v)
        self.unnamed = rest

        if alias is not None:
            aliases = nest_latest(setting(env, "mau.parser.aliases"))
            if aliases.get(alias) is None:
                raise RefError("parser", "unknown alias")
            alias = aliases[alias]
            if not isinstance(alias, dict):
                raise RefError("parser", "alias is not a dictionary")
            args, names = alias.get("args") or {}, alias.get("names") or []
            if not isinstance(args, dict) or not isinstance(names, list):
                raise RefError("parser", "wrong alias")
            for k, v in args.items():
                self.named.setdefault(k, str(v))
            self.names([str(n) for n in names])
            if self.subtype is None and alias.get("subtype"):
                self.subtype = str(alias["subtype"])

    def names(self, names):
        self.unnamed = positional(self.unnamed, self.named, names)

    def asdict(self):
        return {
            "args": list(self.unnamed),
            "kwargs": dict(self.named),
            "tags": list(self.tags),
            "internal_tags": list(self.internal_tags),
            "subtype": self.subtype,
        }


# --------------------------------------------------------------------------
# Conditions

COND = re.compile(r"([a-zA-Z0-9_.+\-]+) *(==|!=) *(.*)$")


def condition(s, phase="parser"):
    m = COND.match(s)
    if s.strip(" ") == "":
        raise RefError("parser", "missing condition")
    if not m:
        raise RefError(phase, "wrong condition")
    return m.groups()


def test(cond, env):
    name, op, value = cond
    if name not in env:
        raise RefError("parser", f"undefined variable {name}")
    return (str(env[name]) == value) == (op == "==")


# --------------------------------------------------------------------------
# Inline text

STYLES = {"_": "underscore", "*": "star", "^": "caret", "~": "tilde"}
SPECIAL = "~^_*`()[]\\\"$%"


def text_tokens(s):
    if s == "":
        return []
    if s.strip(" ") == "":
        return [s]
    return re.findall(r"[~^_*`()\[\]\\\"$% ]|[^~^_*`()\[\]\\\"$% ]+", s.rstrip(" "))


class Inline:
    """Parse a piece of text. Mentions of footnotes and
    headers made at this level are collected."""

    def __init__(self, s, env):
        self.env = env
        self.toks = text_tokens(s)
        self.n = len(self.toks)
        self.footnotes = []
        self.links = []
        self.unclosed = set()
        self.nodes, _ = self.sentence(0, None)

    def tok(self, i):
        return self.toks[i] if i < self.n else None

    def sentence(self, i, stop):
        out = []
        while i < self.n and (stop is None or self.toks[i] != stop):
            nodes, i = self.piece(i)
            out.extend(nodes)
        # Words are merged.
        merged = []
        for x in out:
            if isinstance(x, str):
                if merged and isinstance(merged[-1], str):
                    merged[-1] += x
                else:
                    merged.append(x)
            else:
                merged.append(x)
        return [text_node(x) if isinstance(x, str) else x for x in merged], i

    def piece(self, i):
        t = self.toks[i]
        if t == "\\":
            return [self.tok(i + 1) or ""], min(i + 2, self.n)
        if t == "[":
            r = self.macro(i)
            if r is not None:
                return r
        if t in ("`", "$", "%"):
            r = self.literal(i, t)
            if r is not None:
                return r
        if t in STYLES and i not in self.unclosed:
            content, j = self.sentence(i + 1, t)
            if self.tok(j) == t:
                node = N("style", {"style": STYLES[t]}, {"content": content})
                for c in content:
                    c.parent = node
                return [node], j + 1
            self.unclosed.add(i)
        return [t], i + 1

    def literal(self, i, mark):
        out = []
        j = i + 1
        while j < self.n and self.toks[j] != mark:
            if self.toks[j] == "\\":
                if j + 1 < self.n:
                    if self.toks[j + 1] != mark:
                        out.append("\\")
                    out.append(self.toks[j + 1])
                j += 2
            else:
                out.append(self.toks[j])
                j += 1
        if j >= self.n:
            return None
        t = "verbatim" if mark == "`" else "text"
        return [N(t, {"value": "".join(out)})], j + 1

    def macro_args(self, j):
        """The text between the brackets, from the index
        after the opening one."""
        out = ""
        while j < self.n and self.toks[j] != ")":
            t = self.toks[j]
            begins = out == "" or out.rstrip(" ").endswith(",") or out.endswith("=")
            if begins and t == '"':
                k = j + 1
                q = '"'
                while k < self.n and self.toks[k] != '"':
                    if self.toks[k] == "\\":
                        q += "\\" + (self.tok(k + 1) or "")
                        k += 2
                    else:
                        q += self.toks[k]
                        k += 1
                if k >= self.n:
                    return None
                out += q + '"'
                j = k + 1
            elif t == "\\":
                if self.tok(j + 1) != ")":
                    out += "\\"
                out += self.tok(j + 1) or ""
                j += 2
            else:
                out += t
                j += 1
        if j >= self.n:
            return None
        return out, j + 1

    def macro(self, i):
        name = self.tok(i + 1)
        if name is None or name in SPECIAL:
            return None
        j = i + 2
        if name.startswith(("if:", "ifeval:")):
            # Conditions contain any text but brackets.
            while j < self.n and self.toks[j] not in "[]":
                if self.toks[j] == "\\":
                    if self.tok(j + 1) not in ("[", "]", None):
                        name += "\\"
                    j += 1
                name += self.tok(j) or ""
                j += 1
        if self.tok(j) != "]" or self.tok(j + 1) != "(":
            return None
        r = self.macro_args(j + 2)
        if r is None:
            return None
        text, j = r
        a = Args(text, self.env)
        return self.build(name, a), j

    def sub(self, s):
        inline = Inline(s, self.env)
        self.footnotes.extend(inline.footnotes)
        self.links.extend(inline.links)
        return inline.nodes

    def build(self, name, a):
        if name in ("if", "ifeval") or name.startswith("if") and ":" in name:
            parts = name.split(":", 1)
            if len(parts) != 2 or parts[0] not in ("if", "ifeval"):
                raise RefError("parser", "wrong control macro")
            cond = condition(parts[1])
            a.names(["true_case", "false_case"])
            if "true_case" not in a.named:
                raise RefError("parser", "missing true case")
            r = a.named["true_case"] if test(cond, self.env) else a.named.get("false_case")
            if parts[0] == "ifeval":
                if r is None:
                    raise RefError("parser", "missing value")
                if r not in self.env:
                    raise RefError("parser", "undefined variable")
                r = str(self.env[r])
            return self.sub(r) if r is not None else []

        def need(key):
            if key not in a.named:
                raise RefError("parser", f"missing {key}")
            return a.named[key]

        if name in ("link", "mailto"):
            a.names(["target" if name == "link" else "email", "text"])
            target = need("target" if name == "link" else "email")
            if a.named.get("text") is not None:
                content = self.sub(a.named["text"])
            else:
                content = [text_node(target)]
            if name == "mailto":
                target = "mailto:" + target
            return [owner(N("macro-link", {"target": target}, {"content": content}))]
        if name == "header":
            a.names(["header_id", "text"])
            target = need("header_id")
            content = self.sub(a.named["text"]) if "text" in a.named else []
            node = owner(N("macro-header", {"target_name": target}, {"header": None, "content": content}))
            self.links.append(node)
            return [node]
        if name == "image":
            a.names(["uri", "alt_text", "width", "height"])
            need("uri")
            return [N("macro-image", {k: a.named.get(k) for k in ("uri", "alt_text", "width", "height")})]
        if name == "footnote":
            a.names(["name"])
            node = N("macro-footnote", {}, {"footnote": None})
            node.extra["name"] = need("name")
            self.footnotes.append(node)
            return [node]
        if name == "class":
            a.names(["text"])
            text = need("text")
            return [owner(N("macro-class", {"classes": list(a.unnamed)}, {"content": self.sub(text)}))]
        if name in ("unicode", "raw"):
            a.names(["value"])
            return [N("macro-" + name, {"value": need("value")})]
        return [N("macro", {"name": name}, args=a.asdict())]


# --------------------------------------------------------------------------
# Lines


def lex(text):
    """The lines of a document classified: [(kind, line number, ...)]"""
    lines = text.split("\n") if text != "" else []
    if lines and lines[-1] == "":
        lines.pop()
    out = []
    i = 0
    n = len(lines)
    while i < n:
        s = lines[i]
        ln = i
        i += 1
        if s.strip(" ") == "":
            out.append(("EOL", ln))
            continue
        if s == "////":
            while i < n and lines[i] != "////":
                i += 1
            if i >= n:
                raise RefError("lexer", "unclosed comment", ln)
            i += 1
            continue
        if s.startswith("//"):
            continue
        if s == "---":
            out.append(("HR", ln))
            continue
        if len(s) == 4 and s == s[0] * 4:
            body = []
            while i < n and lines[i] != s:
                body.append(lines[i])
                i += 1
            if i >= n:
                raise RefError("lexer", "unclosed block", ln)
            i += 1
            out.append(("BLOCK", ln, "\n".join(body) if body else None, len(body)))
            continue
        m = re.match(r"@([a-z]+) *(.*)$", s)
        if m:
            out.append(("CONTROL", ln, m.group(1), m.group(2)))
            continue
        m = re.match(r"<< *([a-z0-9_#.]+)(:?)(.*)$", s)
        if m:
            kind, colon, rest = m.groups()
            out.append(("INCLUDE", ln, kind, bool(colon), rest if colon else None))
            if not colon and rest:
                out.append(("TEXT", ln, rest))
            continue
        m = re.match(r":([a-zA-Z0-9_.+\-]+)(:?)(.*)$", s)
        if m:
            out.append(("VAR", ln) + m.groups())
            continue
        if s[0] == "[" and s[-1] == "]" and len(s) > 1:
            out.append(("ARGS", ln, s[1:-1]))
            continue
        m = re.match(r"\.([a-z0-9\-_]*) *(.*)$", s)
        if m:
            out.append(("LABEL", ln, m.group(1) or "title", m.group(2)))
            continue
        m = re.match(r" *([*#]+) +(.*)$", s)
        if m:
            out.append(("LIST", ln, m.group(1), m.group(2)))
            continue
        m = re.match(r"(=+) *(.+)$", s)
        if m:
            # The text of a header is never empty.
            k = len(s) - len(s.lstrip("="))
            if k == len(s):
                out.append(("HEADER", ln, k - 1, "="))
            elif s[k:].strip(" ") == "":
                out.append(("HEADER", ln, k, " "))
            else:
                out.append(("HEADER", ln, k, s[k:].lstrip(" ")))
            continue
        out.append(("TEXT", ln, s))
    return out


def extract_text(nodes):
    out = ""
    for n in nodes:
        if n.t in ("text", "verbatim", "macro-unicode", "macro-raw"):
            out += n.fields["value"]
        elif "content" in n.kids:
            out += extract_text(n.kids["content"])
    return out


def header_id(node):
    text = extract_text(node.kids["content"])
    clean = re.sub("[^a-z0-9. -]", "", text.lower())
    clean = re.sub(" +", "-", clean)
    h = hashlib.md5(f"{node.fields['level']} {text}".encode("utf-8")).hexdigest()[:4]
    return f"{clean}-{h}"


class Document:
    """One document, or the content of one block, or one included file."""

    def __init__(self, text, env, files, source, ancestors, isolated=True):
        self.env = env
        self.files = files
        self.source = source
        self.ancestors = ancestors
        self.isolated = isolated
        for k, v in DEFAULTS.items():
            env.setdefault(k, v)
        self.header_id = function(env, "mau.parser.header_internal_id_function") or header_id
        self.footnote_id = function(env, "mau.parser.footnote_unique_id_function")
        wrapper = function(env, "mau.parser.document_wrapper")
        self.root = N(wrapper.type if wrapper else "document", kids={"content": []})
        self.args = None
        self.labels = {}
        self.control = None
        self.auto = 1
        self.nodes = []
        self.mentions = []
        self.bodies = {}
        self.footnote_lists = []
        self.headers = []
        self.tocs = []
        self.links = []
        self.named_headers = {}
        self.groups = {}
        self.group_nodes = []
        self.calls = []

        items = lex(text)
        i = 0
        while i < len(items):
            i = getattr(self, "do_" + items[i][0].lower())(items, i)
        self.finish()

    # ---- helpers

    def text(self, s, parent):
        s = substitute(s, self.env)
        inline = Inline(s, self.env)
        self.mentions.extend(inline.footnotes)
        self.links.extend(inline.links)
        for n in inline.nodes:
            n.parent = parent
        return inline.nodes

    def excluded(self):
        c, self.control = self.control, None
        if c is None:
            return False
        op, cond = c
        if test(cond, self.env):
            return False
        self.args = None
        # The mentions made in the labels disappear with them.
        for label in self.labels.values():
            self.mentions = [m for m in self.mentions if not any(m is i for i in label.extra["mentions"])]
            self.links = [m for m in self.links if not any(m is i for i in label.extra["links"])]
        self.labels = {}
        return True

    def pop_args(self):
        a, self.args = self.args, None
        return a or Args("", self.env)

    def host(self, node):
        labels, self.labels = self.labels, {}
        for l in labels.values():
            l.parent = node
        node.kids["labels"] = labels

    def save(self, node):
        node.parent = self.root
        self.nodes.append(node)

    # ---- lines

    def do_eol(self, items, i):
        return i + 1

    def do_hr(self, items, i):
        if not self.excluded():
            node = N("horizontal-rule", args=self.pop_args().asdict())
            self.host(node)
            self.save(node)
        return i + 1

    def do_var(self, items, i):
        _, _, name, colon, value = items[i]
        if not colon:
            raise RefError("parser", "not a definition")
        if name[0] == "+":
            name, value = name[1:], "true"
        elif name[0] == "-":
            name, value = name[1:], "false"
        elif value:
            value = substitute(value, self.env)
        if value == "":
            raise RefError("parser", "empty value")
        self.env[name] = value
        return i + 1

    def do_label(self, items, i):
        _, _, role, text = items[i]
        label = N("label", {"role": role}, {"content": []})
        mentions, links = len(self.mentions), len(self.links)
        label.kids["content"] = self.text(text, label)
        label.extra.update(mentions=self.mentions[mentions:], links=self.links[links:])
        self.labels[role] = label
        return i + 1

    def do_control(self, items, i):
        _, _, op, cond = items[i]
        cond = condition(substitute(cond, self.env), "lexer")
        if op != "if":
            raise RefError("parser", "unknown operator")
        self.control = (op, cond)
        return i + 1

    def do_args(self, items, i):
        self.args = Args(substitute(items[i][2], self.env), self.env)
        return i + 1

    def do_header(self, items, i):
        _, _, level, text = items[i]
        if self.excluded():
            return i + 1
        node = N("header", {"level": level, "internal_id": None, "name": None}, {"content": []})
        node.kids["content"] = self.text(text, node)
        a = self.pop_args()
        node.fields["internal_id"] = a.named.pop("internal_id", None)
        node.fields["name"] = a.named.pop("name", None)
        node.args = a.asdict()
        self.host(node)
        if node.fields["name"]:
            self.add_named_header(node)
        self.headers.append(node)
        self.save(node)
        return i + 1

    def add_named_header(self, node):
        name = node.fields["name"]
        if name in self.named_headers:
            raise RefError("parser", "duplicate header name")
        self.named_headers[name] = node

    def do_text(self, items, i):
        j = i
        while j < len(items) and items[j][0] == "TEXT":
            j += 1
        if self.excluded():
            return j
        node = N("paragraph", {}, {"content": []})
        for item in items[i:j]:
            line = N("paragraph-line", {}, {"content": self.text(item[2], node), "labels": {}}, parent=node)
            node.kids["content"].append(line)
        node.args = self.pop_args().asdict()
        self.host(node)
        self.save(node)
        return j

    def do_list(self, items, i):
        if self.excluded():
            while i < len(items) and items[i][0] == "LIST":
                i += 1
            return i
        node = N("list", {"ordered": items[i][2][0] == "#", "main_node": True, "start": 1}, {"content": []})
        nodes, i = self.list_items(items, i, node)
        a = self.pop_args()
        count = sum(1 for x in nodes if x.t == "list-item")
        start = a.named.get("start", 1)
        if start == "auto":
            start = self.auto
        else:
            try:
                start = int(start)
            except ValueError:
                raise RefError("parser", "start is not a number") from None
        if node.fields["ordered"]:
            self.auto = start + count
        node.fields["start"] = start
        node.kids["content"] = nodes
        node.args = a.asdict()
        self.host(node)
        self.save(node)
        return i

    def list_items(self, items, i, main):
        level = len(items[i][2])
        out = []
        while i < len(items) and items[i][0] != "EOL":
            if items[i][0] != "LIST":
                raise RefError("parser", "not a list item")
            prefix, text = items[i][2], items[i][3]
            if len(prefix) < level:
                break
            if len(prefix) > level:
                sub, i = self.list_items(items, i, main)
                out.append(N("list", {"ordered": prefix[0] == "#", "main_node": False, "start": 1},
                             {"content": sub, "labels": {}}, parent=main))
                continue
            out.append(N("list-item", {"level": level}, {"content": self.text(text, main)}, parent=main))
            i += 1
        return out, i

    # ---- blocks

    def do_block(self, items, i):
        content = items[i][2]
        if self.excluded():
            return i + 1
        a = self.pop_args()
        classes = a.named.pop("classes", "")
        classes = classes.split(",") if classes else []
        engine = a.named.pop("engine", "default")
        if engine == "default":
            node = self.block_default(content, a)
        elif engine == "raw":
            node = N("raw", {}, {"content": []})
            if content is not None:
                node.kids["content"] = [N("raw-line", {"value": l}, parent=node) for l in content.split("\n")]
        elif engine == "source":
            node = self.block_source(content, a)
        else:
            raise RefError("parser", "unknown engine")
        node.fields["classes"] = classes
        self.host(node)
        name = a.named.get("footnote")
        if name:
            self.add_body(name, node)
            return i + 1
        node.args = a.asdict()
        group, position = a.named.get("group"), a.named.get("position")
        if group and position:
            members = self.groups.setdefault(group, {})
            if position in members:
                raise RefError("parser", "position taken")
            item = N("blockgroup-item", {"position": position}, {"block": node})
            node.parent = item
            members[position] = item
            return i + 1
        self.save(node)
        return i + 1

    def add_body(self, name, node):
        if name in self.bodies:
            raise RefError("parser", "duplicate footnote")
        self.bodies[name] = node

    def block_default(self, content, a):
        node = N("block", {}, {"content": []})
        if content is None:
            return node
        update = a.named.get("isolate", "true") == "false"
        # The body of a footnote is copied: it is always resolved alone.
        doc = Document(content, self.env, self.files, self.source, self.ancestors, isolated=not update or "footnote" in a.named)
        self.calls.extend(doc.calls)
        if update:
            self.mentions.extend(doc.mentions)
            for k, v in doc.bodies.items():
                self.add_body(k, v)
            self.footnote_lists.extend(doc.footnote_lists)
            self.headers.extend(doc.headers)
            self.tocs.extend(doc.tocs)
            self.links.extend(doc.links)
            for h in doc.named_headers.values():
                self.add_named_header(h)
        for n in doc.nodes:
            n.parent = node
        node.kids["content"] = doc.nodes
        return node

    def block_source(self, content, a):
        node = N("source", {"language": None}, {"content": []})
        if content is None:
            return node
        mark = a.named.pop("marker_delimiter", ":")
        hl = a.named.pop("highlight_marker", "@")
        default = a.named.pop("highlight_default_style", "default")
        if mark == "":
            raise RefError("parser", "empty delimiter")
        styles = nest_latest(setting(self.env, "mau.parser.source_highlight_style_aliases"))
        a.names(["language"])
        node.fields["language"] = a.named.pop("language", "text")
        for number, line in enumerate(content.split("\n"), start=1):
            if len(mark) > 1 and mark == mark[0] * len(mark) and mark + mark[0] in line:
                raise Undefined("overlapping delimiters")
            code, style, marker = line, None, None
            body = line[:len(line) - len(mark)]
            if line.endswith(mark) and mark in body:
                k = body.rindex(mark)
                code, m = line[:k], body[k + len(mark):]
                if m.startswith(hl):
                    style = m[len(hl):] or default
                    style = styles.get(style, style)
                elif m:
                    marker = N("source-marker", {"value": m})
            source_line = N("source-line", {"line_number": str(number), "line_content": code, "highlight_style": style},
                            {"marker": marker}, parent=node)
            if marker:
                marker.parent = source_line
            node.kids["content"].append(source_line)
        return node

    # ---- includes

    def do_include(self, items, i):
        _, _, kind, colon, rest = items[i]
        if self.excluded():
            if colon and not rest:
                raise RefError("parser", "missing arguments")
            return i + 1
        a, self.args = self.args, None
        if colon:
            if a:
                raise RefError("parser", "both kinds of arguments")
            if not rest:
                raise RefError("parser", "missing arguments")
            a = Args(substitute(rest, self.env), self.env)
        a = a or Args("", self.env)
        labels = None
        if kind == "image":
            a.names(["uri", "alt_text", "classes"])
            uri = a.named.pop("uri", None)
            if not uri:
                raise RefError("parser", "missing uri")
            alt = a.named.pop("alt_text", None)
            classes = a.named.pop("classes", None)
            node = N("include-image", {"uri": uri, "alt_text": alt, "classes": classes.split(",") if classes else []})
        elif kind == "mau":
            node = self.include_mau(a)
        elif kind == "raw":
            a.names(["uri"])
            uri = a.named.pop("uri", None)
            text = self.read(uri)
            node = N("include-raw", {"uri": uri}, {"content": []})
            node.kids["content"] = [N("raw-line", {"value": l}, parent=node) for l in text.split("\n")]
        elif kind == "toc":
            node = N("toc", {}, {"plain_entries": [], "nested_entries": []})
            self.tocs.append(node)
        elif kind == "footnotes":
            node = N("footnotes", {}, {"footnotes": []})
            self.footnote_lists.append(node)
        elif kind == "blockgroup":
            a.names(["group"])
            name = a.named.pop("group", None)
            if not name:
                raise RefError("parser", "missing group")
            node = N("blockgroup", {"name": name}, {"items": {}})
            self.group_nodes.append(node)
        else:
            node = N("include", {"ctype": kind})
        node.args = a.asdict()
        self.host(node)
        self.save(node)
        return i + 1

    def read(self, uri):
        if not uri:
            raise RefError("parser", "missing uri")
        path = os.path.normpath(uri)
        if path not in self.files or uri.endswith("/"):
            raise RefError("parser", "unreadable file")
        return self.files[path]

    def include_mau(self, a):
        a.names(["uri"])
        uri = a.named.pop("uri", None)
        pass_env = a.named.pop("pass_environment", "true")
        if not uri:
            raise RefError("parser", "missing uri")
        ancestors = self.ancestors + [self.source]
        if os.path.normpath(uri) in [os.path.normpath(i) for i in ancestors]:
            raise RefError("parser", "recursion")
        call = {k[5:]: a.named.pop(k) for k in list(a.named) if k.startswith("call:")}
        text = self.read(uri)
        env = dict(self.env) if pass_env == "true" else {}
        env.update(call)
        doc = Document(text, env, self.files, uri, ancestors)
        self.calls.append((self.source, uri, call))
        self.calls.extend(doc.calls)
        return N("include-mau", {"uri": uri}, {"content": doc.nodes})

    # ---- the end

    def finish(self):
        if self.isolated:
            footnotes = {}
            for number, (name, body) in enumerate(self.bodies.items(), start=1):
                f = N("footnote", {"name": name, "public_id": str(number), "internal_id": name}, {"content": []})
                f.kids["content"] = [c.copy(f) for c in body.kids["content"]]
                if self.footnote_id:
                    f.fields["internal_id"] = self.footnote_id(f)
                footnotes[name] = f
            for m in self.mentions:
                if m.extra["name"] not in footnotes:
                    raise RefError("parser", "undefined footnote")
                m.kids["footnote"] = footnotes[m.extra["name"]]
            for l in self.footnote_lists:
                l.kids["footnotes"] = [N("footnotes-item", {}, {"footnote": f}, parent=l) for f in footnotes.values()]
            for h in self.headers:
                if h.fields["internal_id"] is None:
                    h.fields["internal_id"] = self.header_id(h)
            for m in self.links:
                if m.fields["target_name"] not in self.named_headers:
                    raise RefError("parser", "undefined header")
                m.kids["header"] = self.named_headers[m.fields["target_name"]]
            done = []
            for m in self.links:
                fill_link(m, [], done)
            if self.headers:
                for t in self.tocs:
                    t.kids["nested_entries"] = nested(self.headers, t)
                    t.kids["plain_entries"] = [h.copy(t) for h in self.headers]
        for g in self.group_nodes:
            if g.fields["name"] not in self.groups:
                raise RefError("parser", "undefined group")
            members = self.groups[g.fields["name"]]
            for position, member in members.items():
                item = N("blockgroup-item", dict(member.fields), dict(member.kids), parent=g)
                item.args = member.args
                item.kids["block"].parent = item
                g.kids["items"][position] = item
        self.root.kids["content"] = self.nodes


def links_in(node):
    """The header links of the text and of the labels of a node."""
    out = []
    for child in node.kids.get("content", []) + [l for ls in [node.kids.get("labels", {})] for l in ls.values()]:
        if child.t == "macro-header":
            out.append(child)
        out.extend(links_in(child))
    return out


def fill_link(m, path, done):
    """A link without text has the text of the header. A header cannot
    be connected, directly or through other headers, to itself."""
    h = m.kids["header"]
    if any(h is i for i in path):
        raise RefError("parser", "header connected to itself")
    if not any(h is i for i in done):
        for link in links_in(h):
            fill_link(link, path + [h], done)
        done.append(h)
    if not m.kids["content"]:
        m.kids["content"] = [c.copy(m) for c in h.kids["content"]]


def nested(headers, parent):
    """Each header contains the following headers that have a greater level."""
    out = []
    stack = []
    for h in headers:
        while stack and stack[-1][0] >= h.fields["level"]:
            stack.pop()
        item = N("toc-item", {}, {"header": h, "entries": []}, parent=parent)
        (stack[-1][1] if stack else out).append(item)
        stack.append((h.fields["level"], item.kids["entries"]))
    return out


class Result:
    """Either tree (a dictionary, {} for an empty document) or error"""

    def __init__(self, doc=None, error=None, env=None):
        self.doc = doc
        self.error = error
        self.env = env

    def tree(self, parents=True):
        if self.doc is None or not self.doc.nodes:
            return {}
        return self.doc.root.project(parents)


def interpret(text, env=None, files=None, source="main.mau"):
    flat = flatten(env or {})
    try:
        doc = Document(text, flat, files or {}, source, [])
    except RefError as exc:
        return Result(error=exc, env=flat)
    return Result(doc=doc, env=flat)
