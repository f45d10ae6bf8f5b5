"""Reference of the template visitor: which template is used for
each node of a reference tree, and what the output is."""

from .ref import N, Undefined

SCALARS = [
    "value", "role", "style", "level", "internal_id", "name", "target", "uri", "alt_text", "width", "height", "target_name",
    "public_id", "position", "ctype", "ordered", "main_node", "start", "line_number", "line_content", "highlight_style", "language",
]
RENDERED = ["content", "footnotes", "entries", "plain_entries", "nested_entries", "block", "marker"]
DATA = ["header", "footnote", "block_data"]
JOIN = {"document": "\n", "source": "\n", "paragraph": " "}

# A template that shows everything a template has access to.
UNIVERSAL = (
    "<{{ _type }}"
    + " {{ args | join('|') }} {% for k, v in kwargs.items() %}{{ k }}={{ v }};{% endfor %} {{ tags | join('|') }} {{ internal_tags | join('|') }} {{ subtype }}"
    + " ^{{ parent._type }} {{ parent.subtype }} {{ parent.args | join('|') }} {{ parent.tags | join('|') }}"
    + "".join(" " + f + ":{{ " + f + " }}" for f in SCALARS)
    + "".join(" " + f + ":[{{ " + f + " }}]" for f in RENDERED)
    + " classes:{{ classes | join('|') }}"
    + " labels:{% for k, v in labels.items() %}{{ k }}={{ v }};{% endfor %}"
    + " items:{% for k, v in items.items() %}{{ k }}={{ v }};{% endfor %}"
    + "".join(" " + f + ":({{ " + f + "._type }} {{ " + f + ".content }} {{ " + f + ".internal_id }} {{ " + f + ".subtype }} {{ (" + f + ".kwargs or {}).k }})" for f in DATA)
    + ">"
)
# Undefined values have no attributes.
UNIVERSAL = (
    "{% set parent = parent or {} %}{% set header = header or {} %}{% set footnote = footnote or {} %}{% set block_data = block_data or {} %}"
    "{% set labels = labels or {} %}{% set items = items or {} %}" + UNIVERSAL
)


class NoTemplate(Exception):
    pass


class Template:
    def __init__(self, name, shape):
        self.name = name
        self.shape = shape
        parts = name.split(".")
        self.type = parts[0]
        self.subtype = self.prefix = self.parent_type = self.parent_subtype = None
        self.parent_custom = {}
        self.custom = {}
        self.tags = []
        for p in parts[1:]:
            if p.startswith("pt_"):
                self.parent_type = p[3:]
            elif p.startswith("pts_"):
                if p[4:].count("__") == 1:
                    k, v = p[4:].split("__")
                    self.parent_custom[k] = v
                else:
                    self.parent_subtype = p[4:]
            elif p.startswith("pf_"):
                self.prefix = p[3:]
            elif p.startswith("tg_"):
                self.tags.append(p[3:])
            elif p.count("__") == 1:
                k, v = p.split("__")
                self.custom[k] = v
            else:
                self.subtype = p

    def rank(self):
        return (
            len(self.custom), bool(self.subtype), bool(self.prefix), bool(self.parent_type), len(self.parent_custom),
            bool(self.parent_subtype), len(self.tags),
        )

    def claims(self, node):
        parent = node.parent
        yield self.type == node.t
        for k, v in self.custom.items():
            yield custom(node).get(k) == v
        if self.subtype:
            yield node.args["subtype"] == self.subtype
        if self.parent_type:
            yield parent is not None and parent.t == self.parent_type
        if self.parent_subtype:
            yield parent is not None and parent.args["subtype"] == self.parent_subtype
        for k, v in self.parent_custom.items():
            yield parent is not None and custom(parent).get(k) == v
        for t in self.tags:
            yield t in node.args["tags"]


def custom(node):
    fields = {"style": "style", "macro": "name", "label": "role", "include": "ctype", "blockgroup-item": "position", "blockgroup": "name"}
    f = fields.get(node.t)
    return {f: node.fields[f]} if f else {}


class Renderer:
    """`templates` is a dictionary of names (without extension) and shapes.
    A shape is a list of strings and of field names ("=content")."""

    def __init__(self, templates, prefixes=(), join=None, default_join=""):
        self.templates = [Template(n, s) for n, s in templates.items()]
        self.prefixes = list(prefixes)
        self.join = JOIN if join is None else join
        self.default_join = default_join

    def select(self, node):
        for prefix in [*self.prefixes, None]:
            found = [t for t in self.templates if t.prefix == prefix and all(t.claims(node))]
            if found:
                best = max(t.rank() for t in found)
                found = [t for t in found if t.rank() == best]
                if len({str(t.shape) for t in found}) > 1:
                    raise Undefined("equally specific templates")
                return found[0]
        raise NoTemplate(node.t)

    def data(self, node):
        d = dict(node.base())
        d["parent"] = node.parent.base() if node.parent else {}
        d.update(node.fields)
        for k, v in node.kids.items():
            if k in ("header", "footnote"):
                d[k] = self.data(v) if v is not None else {}
            elif v is None:
                d[k] = ""
            elif isinstance(v, N):
                d[k] = self.render(v)
            elif isinstance(v, list):
                d[k] = self.join.get(node.t, self.default_join).join([self.render(c) for c in v])
            else:
                d[k] = {kk: self.render(c) for kk, c in v.items()}
        if node.t == "blockgroup-item":
            d["block_data"] = self.data(node.kids["block"])
        return d

    def render(self, node):
        d = self.data(node)
        template = self.select(node)
        if template.shape == "universal":
            return universal(d)
        out = []
        for part in template.shape:
            out.append(text(d.get(part[1:])) if part.startswith("=") and part[1:] in d else "" if part.startswith("=") else part)
        return "".join(out)


def source(shape):
    """The text of a template with this shape."""
    if shape == "universal":
        return UNIVERSAL
    return "".join("{{ " + p[1:] + " }}" if p.startswith("=") else p for p in shape)


def text(v):
    return str(v)


def universal(d):
    def get(x, k):
        return text(x[k]) if k in x else ""

    def join(x, k):
        return "|".join(text(i) for i in x.get(k) or [])

    def pairs(x):
        return "".join(f"{k}={v};" for k, v in (x or {}).items())

    p = d.get("parent") or {}
    out = f"<{d['_type']} {join(d, 'args')} {pairs(d['kwargs'])} {join(d, 'tags')} {join(d, 'internal_tags')} {d['subtype']}"
    out += f" ^{get(p, '_type')} {get(p, 'subtype')} {join(p, 'args')} {join(p, 'tags')}"
    out += "".join(f" {f}:{get(d, f)}" for f in SCALARS)
    out += "".join(f" {f}:[{get(d, f)}]" for f in RENDERED)
    out += f" classes:{join(d, 'classes')} labels:{pairs(d.get('labels'))} items:{pairs(d.get('items'))}"
    for f in DATA:
        x = d.get(f) or {}
        out += f" {f}:({get(x, '_type')} {get(x, 'content')} {get(x, 'internal_id')} {get(x, 'subtype')} {get(x.get('kwargs') or {}, 'k')})"
    return out + ">"


def expected(result, templates, prefixes=()):
    """The output for a result of the reference
    interpreter; raises NoTemplate."""
    if result.doc is None or not result.doc.nodes:
        return ""
    return Renderer(templates, prefixes).render(result.doc.root)


TYPES = [
    "raw-line", "raw", "word", "text", "verbatim", "style", "horizontal-rule", "document", "paragraph-line", "paragraph", "source-marker",
    "source-line", "source", "macro", "macro-class", "macro-link", "macro-image", "macro-header", "macro-footnote", "macro-unicode", "macro-raw",
    "label", "block", "header", "include", "include-image", "include-mau", "include-raw", "footnotes-item", "footnotes", "toc-item", "toc",
    "blockgroup-item", "blockgroup", "footnote", "list-item", "list",
]
ALL_UNIVERSAL = {t: "universal" for t in TYPES}
