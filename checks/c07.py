"""C07: any text can be written literally in any place."""

from mc import core, gen, impl, lock
from mc.core import Family, Violation

PID = "C07"
LEVEL = "exploration"
RULE = (
    "Every text of the family is written with an escaping rule in a place of a document, and the plain text of the node found "
    "there has to be the original; distinct cases have distinct results."
)
ASSUMPTIONS = ["spaces at the end of a line and lines made of spaces only are not text", "texts do not contain line feeds (except in raw blocks)"]

ENV = {"v": "1"}


def backslash(s):
    """A backslash before each special character."""
    return "".join("\\" + c if c in "_*^~`[]()\\\"$%{}" else c for c in s)


def text_of(nodes):
    out = ""
    for n in nodes:
        if n["_type"] != "text":
            raise Violation(f"a node of type {n['_type']}")
        out += n["value"]
    return out


def first(tree):
    if len(tree.get("content", [])) != 1:
        raise Violation(f"expected one node, found {core.canon(tree)}")
    return tree["content"][0]


def inline(node):
    return text_of(node["content"])


# The preprocessor of variables consumes a level of backslashes before {}.
def bs(s):
    return "".join("\\" + c if c in "{}" else "\\" + c if c in "_*^~`[]()\\\"$%" else c for c in s)


def delimited(mark):
    def write(s):
        return mark + "".join("\\" + c if c == mark else c for c in s) + mark
    return write


def braces(s):
    """Escape the braces, which give variables everywhere but in verbatim text."""
    out, i = "", 0
    while i < len(s):
        end = s.find("`", i + 1)
        if s[i] == "`" and end != -1:
            out += s[i:end + 1]
            i = end + 1
            continue
        out += "\\" + s[i] if s[i] in "{}" else s[i]
        i += 1
    return out


PLACES = {
    # name: (document, how to find the text)
    "paragraph": ("x{}", lambda t: inline(first(t)["content"][0])[1:]),
    "header": ("= x{}", lambda t: inline(first(t))[1:]),
    "list-item": ("* x{}", lambda t: inline(first(first(t)))[1:]),
    "label": (".l x{}\n---", lambda t: inline(first(t)["labels"]["l"])[1:]),
    "block": ("----\nx{}\n----", lambda t: inline(first(first(t))["content"][0])[1:]),
    "style": ("_x{}_", lambda t: inline(first(t)["content"][0]["content"][0])[1:]),
}


def check(case):
    doc, find = PLACES[case["place"]]
    text = case["text"]
    run = impl.process(doc.replace("{}", bs(text)), ENV)
    if run.phase is not None:
        raise Violation(f"error {run.messages[-1][1].text}")
    found = find(run.tree)
    if found != text:
        raise Violation(f"{text!r} becomes {found!r}")
    return [case["place"], text]


def verbatim(case):
    """Between the delimiters of verbatim and literal text."""
    text, mark = case["text"], case["mark"]
    doc, find = PLACES[case["place"]]
    written = delimited(mark)(text)
    if mark != "`":
        written = braces(written)
    run = impl.process(doc.replace("{}", written), ENV)
    if run.phase is not None:
        raise Violation(f"error {run.messages[-1][1].text}")
    node = run.tree
    while node["_type"] not in ("paragraph-line", "header", "list-item", "label", "style"):
        node = node["content"][0] if not node.get("labels") else node["labels"]["l"]
    if case["place"] == "style":
        node = node["content"][0]
    want = [("text", "x"), ("verbatim", text)] if mark == "`" else [("text", "x"), ("text", text)]
    have = [(n["_type"], n.get("value")) for n in node["content"]]
    if have != want:
        raise Violation(f"{want} becomes {have}")
    return have


def raw(case):
    """Raw and source blocks, and raw includes."""
    lines = case["lines"]
    body = "\n".join(lines)
    lock.write_files({"r.txt": body})
    for args, kind in (("engine=raw", "raw"), ("@source, marker_delimiter=\u00a7\u00a7", "source")):
        run = impl.process(f"a\n\n[{args}]\n\u00a4\u00a4\u00a4\u00a4\n{body}\n\u00a4\u00a4\u00a4\u00a4\n\nb\n", ENV)
        if run.phase is not None:
            raise Violation(f"{kind}: error {run.messages[-1][1].text}")
        nodes = run.tree["content"]
        if [n["_type"] for n in nodes] != ["paragraph", kind, "paragraph"]:
            raise Violation(f"{kind}: nodes {[n['_type'] for n in nodes]}")
        have = [n["value"] if kind == "raw" else n["line_content"] for n in nodes[1]["content"]]
        if have != lines:
            raise Violation(f"{kind}: {lines!r} becomes {have!r}")
    run = impl.process("<< raw:r.txt", ENV)
    have = [n["value"] for n in run.tree["content"][0]["content"]]
    if have != lines:
        raise Violation(f"included: {lines!r} becomes {have!r}")
    return lines


def arguments(case):
    """Quoted arguments."""
    text = case["text"]
    quoted = '"' + "".join("\\" + c if c == '"' else c for c in text) + '"'
    quoted = braces(quoted)
    for doc, find in (
        (f"[k={quoted}]\np", lambda t: t["content"][0]["kwargs"]["k"]),
        (f"<< foo:k={quoted}", lambda t: t["content"][0]["kwargs"]["k"]),
        (f"[a, k={quoted}, z=1]\np", lambda t: t["content"][0]["kwargs"]["k"]),
        (f"[q, {quoted}, z]\np", lambda t: t["content"][0]["args"][1]),
        (f"p[m](k={quoted})q", lambda t: t["content"][0]["content"][0]["content"][1]["kwargs"]["k"]),
        (f"p[m](q, {quoted}, z)q", lambda t: t["content"][0]["content"][0]["content"][1]["args"][1]),
    ):
        run = impl.process(doc, ENV)
        if run.phase is not None:
            raise Violation(f"{doc!r}: error {run.messages[-1][1].text}")
        found = find(run.tree)
        if found != text:
            raise Violation(f"{doc!r}: {text!r} becomes {found!r}")
    return text


CHARS = list("_*^~`$%[](){}\\\" a,=:.#@<-/")
SPECIAL = list("_*`[]()\\\"${} a")


def ends(s):
    return s == s.rstrip(" ")


def families(tier):
    deep = tier == "thorough"
    n = 4 if deep else 3
    texts = lambda: (s for s in gen.strings(CHARS, n) if ends(s))
    long = lambda: (s for s in gen.strings(SPECIAL, 5 if deep else 4, 4) if ends(s))
    lines = ["", "a", " a ", "_a_", "= a", "----", "////", "// c", "{v}", "[a]", "\\", "`", ":x:", "* i", "@if", "a:b:", "a:@:", "\ta", "\u00e9", "\u2028x",
             "\u00a4\u00a4\u00a4\u00a4 ", " \u00a4\u00a4\u00a4\u00a4", "\u00a4\u00a4\u00a4", "\u00a4\u00a4\u00a4\u00a4\u00a4", "\u00a4\u00a4\u00a4\u00a4\t"]

    def verb(mark):
        # A backslash before the delimiter escapes the latter.
        return lambda: (
            {"text": s, "mark": mark, "place": p}
            for p in PLACES for s in gen.strings([c for c in CHARS if c not in "{}"] if mark == "`" else CHARS, 3 if deep else 2)
            if "\\" not in s)

    def quotable(s):
        return "\\" not in s and s == s.strip() and not s.startswith(tuple("#*@")) and s != ""

    return [
        Family("backslashes", lambda: ({"text": t, "place": p} for t in texts() for p in ("paragraph", "list-item")), check,
               "every text of at most 3 (thorough 4) characters, escaped, in paragraphs and lists"),
        Family("backslashes-long", lambda: ({"text": t, "place": "paragraph"} for t in long()), check, "longer escaped texts of special characters"),
        Family("backslashes-everywhere", lambda: ({"text": t, "place": p} for t in gen.strings(CHARS, n - 1) if ends(t) for p in PLACES), check,
               "escaped texts in every place"),
        Family("verbatim", verb("`"), verbatim, "every text between backticks"),
        Family("dollar", verb("$"), verbatim, "every text between $"),
        Family("percent", verb("%"), verbatim, "every text between %"),
        Family("raw-lines", lambda: ({"lines": list(s)} for s in gen.seqs(lines, 3 if deep else 2)), raw, "raw and source blocks of every kind of line"),
        Family("raw-lines-3", lambda: ({"lines": list(s)} for s in gen.seqs(lines[:10], 4 if deep else 3, 3)), raw, "longer raw blocks"),
        Family("quoted-arguments", lambda: ({"text": s} for s in gen.strings([c for c in CHARS if c != "\\"], n) if quotable(s)), arguments,
               "quoted values of named and unnamed arguments"),
    ]
