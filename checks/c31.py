"""C31: settings of the parser and of the templates: valid ones have their effect, wrong ones are reported."""

import os
import shutil

from mc import gen, impl, lock
from mc.core import Family, Violation
from mc.impl import Environment
from mau.nodes.document import DocumentNode
from mau.visitors.base_visitor import BaseVisitor
from mau.visitors.jinja_visitor import JinjaVisitor
from mau.visitors.yaml_visitor import YamlVisitor

PID = "C31"
LEVEL = "exploration"
RULE = (
    "Every setting is given every value of the family, for every document; the result has to be the tree (or the error) of the reference "
    "interpreter, the expected output, or exactly one reported error. Distinct cases have distinct results."
)
ASSUMPTIONS = ["functions given in the settings return values of the right type"]


class Wrapped(DocumentNode):
    type = "wrapper"


def constant(node):
    return "X"


VALUES = {
    "none": None, "empty": "", "text": "zz", "zero": 0, "five": 5, "float": 1.5, "true": True, "false": False, "list": ["zz"], "no-list": [], "mixed": [None, 5, "", ["a"]], "dict-list": [{"a": 1}],
    "dict": {"zz": "y"}, "no-dict": {}, "deep": {"zz": {"y": {"x": "w"}}}, "null-dict": {"zz": None}, "args": {"args": {"k": "v"}}, "odd-args": {"args": {"k": 5, "j": None, "i": ["a"]}, "names": ["a", 7, None], "subtype": 3},
    "function": constant, "class": Wrapped, "tuple": ("zz",), "null": ["\0"], "bytes": b"zz",
}
# Values that are not numbers, texts, lists, or dictionaries, and
# values that a file of the configuration cannot contain.
PARSER = [
    "mau", "mau.parser", "mau.parser.aliases", "mau.parser.aliases.al", "mau.parser.aliases.al.args", "mau.parser.aliases.al.names", "mau.parser.aliases.al.subtype", "mau.parser.aliases.source",
    "mau.parser.aliases.source.args", "mau.parser.aliases.source.args.engine", "mau.parser.aliases.source.names", "mau.parser.aliases.source.subtype", "mau.parser.source_highlight_style_aliases",
    "mau.parser.source_highlight_style_aliases.x", "mau.parser.source_highlight_style_aliases.new", "mau.parser.header_internal_id_function", "mau.parser.footnote_unique_id_function", "mau.parser.document_wrapper",
    "mau.parser.aliases.al.args.engine", "mau.parser.aliases.al.args.isolate", "mau.parser.aliases.al.args.group", "mau.parser.aliases.al.args.footnote", "mau.parser.aliases.al.args.name", "mau.parser.aliases.al.args.start",
    "mau.parser.aliases.al.args.classes", "mau.parser.aliases.al.args.marker_delimiter", "mau.parser.aliases.al.args.internal_id", "mau.parser.aliases.al.args.uri", "mau.parser.unknown", "mau.visitor", "mau.envvars", "other",
]
DOCUMENTS = [
    "", "p _x_", "= A\n\n<< toc", "[internal_id=own]\n= A\n\n----\n= B\n\n<< toc\n----\n\n<< toc", "[@al]\np", "[a, @al, b]\n----\nx\n----", "[@al]\n= H", "[@al]\n# i", "[@al]\n<< image", "[@al, a]\n<< foo",
    "[@source, py]\n----\na:@x:\nb:@new:\nc:@+:\nd:@:\n----", "[@source]\np", "[footnote](f)\n\n[footnote=f]\n----\nx\n----\n\n<< footnotes", "a [m](@al, x) [class](y, @al)", "<< mau:i.mau", "<< mau:i.mau, pass_environment=false",
    "[name=h]\n= A\n\n[header](h)", "[isolate=false]\n----\n= B\n\n[footnote=f]\n====\nx\n====\n----\n\n[footnote](f)", "[@zz]\np", "[@al, position=p]\n----\nx\n----", "[group=5, position=p]\n----\nx\n----\n\n<< blockgroup:5",
]
FILES = {"i.mau": "= I\n\n[@al, q]\n----\n= J\n----"}


def nested(name, value):
    for part in reversed(name.split(".")):
        value = {part: value}
    return value


def merge(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = merge(out[k], v) if isinstance(out.get(k), dict) and isinstance(v, dict) else v
    return out


def settings(case):
    env = {"v": "1"}
    for name, value in case["settings"]:
        env = merge(env, nested(name, VALUES[value]))
    return env


BASE_ALIAS = {"mau": {"parser": {"aliases": {"al": {"args": {"k": "1"}, "names": ["x"], "subtype": "s"}}}}}


def one_error(run):
    errors = [m for p, m in run.messages if p != "debug"]
    if run.phase is None and errors:
        raise Violation("an error was reported but the run succeeded")
    if run.phase is not None and (len(errors) != 1 or not errors[0].text):
        raise Violation(f"{len(errors)} messages for one error")


def check_parser(case):
    env = settings(case)
    if case.get("alias"):
        env = merge(BASE_ALIAS, env)
    expected, run = lock.agree(case["text"], env, FILES)
    one_error(run)
    return lock.outcome(expected)


# ---- templates

TEMPLATES = {"document.j2": "D({{ content }})", "paragraph.j2": "P({{ content }})", "paragraph-line.j2": "L({{ content }})", "text.j2": "{{ value }}", "style.j2": "S({{ content }})", "horizontal-rule.j2": "H"}
VALID = {"<{{ value }}>": "<{}>", "": "", "{# c #}": "", "{% if true %}y{% endif %}": "y", "{{ '{{' }}": "{{{{", "{% include 'horizontal-rule' %}": "H", "\u00e9\n": "\u00e9", "{{ nothing }}": "", "{% set a = 1 %}{{ a }}": "1", "{% include 'text' %}": ""}
INVALID = ["{{", "{% x", "{% if %}", "{{ value|nofilter }}", "{% include 'zz' %}", "{% extends 'zz' %}", "{{ nothing.at.all }}", "{% for %}", "{{ value }", "{% endif %}x", "{{ 1 / 0 }}", "{{ 1 + 'x' }}", "{{ value.nothing() }}", "{% for i in 5 %}{% endfor %}", "{% macro m() %}{{ m() }}{% endmacro %}{{ m() }}", "{{ _type(1) }}", "{{ range() }}"]
DOCS = {"p": "D(P(L({})))", "_p_": "D(P(L(S({}))))", "---": "D(H)", "---\n\np": "D(H\nP(L({})))", "": ""}


class Visitor(JinjaVisitor):
    default_templates = Environment.from_dict(TEMPLATES)


def make_directories():
    if os.path.isdir("t1"):
        return
    for path, content in (("t1/text.j2", "1{{ value }}"), ("t2/sub/x.txt", "no"), ("t3/text.j2", "3{{ value }}"), ("t3/a/b.j2", "{{"), ("t4/text.j2", b"\xff\xfe"), ("t5/text.j2", "{{"), ("t6/.j2", "x")):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(content if isinstance(content, bytes) else content.encode())
    os.makedirs("t7")
    os.symlink("nowhere", "t7/text.j2")


# What each directory gives: the text of a paragraph.
DIRECTORIES = {"": None, "t1": "1{}", "t2": None, "t2/sub": None, "t3": "3{}", "t4": "error", "t5": "used", "t6": "error", "t7": "error", "missing": "error", "t1/text.j2": "error", "t1/../t1": "1{}", "t3/a": None}


def render(text, word):
    if word is None:
        return "error"
    return DOCS[text].replace("{}", word)


def judge(case, run, want):
    """want: the output, "error", or None when any is accepted."""
    one_error(run)
    if run.phase not in (None, "visitor"):
        raise Violation(f"an error of the {run.phase}")
    found = "error" if run.phase else run.tree
    if found != want:
        raise Violation(f"expected {want!r}, found {found!r} {[m.text for p, m in run.messages]}")
    return found


def list_of(value):
    """The elements of a list in the configuration."""
    if not value:
        return []
    return list(value) if isinstance(value, (list, tuple)) else None


def check_templates(case):
    """The settings of the templates with values of all types."""
    make_directories()
    env = settings(case)
    error = False
    for name, value in case["settings"]:
        value = VALUES[value]
        kind = name.removeprefix("mau.visitor.templates.")
        if kind == "providers":
            error |= list_of(value) != []
        elif kind == "paths":
            items = list_of(value)
            error |= items is None or any(items)
        elif kind == "prefixes":
            error |= list_of(value) is None
        elif kind == "custom":
            error |= bool(value) and not isinstance(value, dict)
    for visitor in (BaseVisitor, YamlVisitor):
        plain = impl.process(case["text"], {"v": "1"}, visitor=visitor)
        other = impl.process(case["text"], env, visitor=visitor)
        one_error(other)
        if (plain.phase, plain.tree) != (other.phase, other.tree):
            raise Violation(f"the result of {visitor.__name__} depends on the settings of the templates")
    run = impl.process(case["text"], env, visitor=Visitor)
    return judge(case, run, "error" if error else render(case["text"], "p"))


def check_contents(case):
    """Templates with contents of all types."""
    kind, content, text = case["kind"], case["content"], case["text"]
    if "value" in case:
        content = VALUES[case["value"]]
    env = {"v": "1", "mau": {"visitor": {"templates": {"custom": {f"{kind}.j2": content}}}}}
    used = {"text": "p" in text, "horizontal-rule": "---" in text, "document": bool(text), "unused": False}[kind]
    run = impl.process(text, env, visitor=Visitor)
    if isinstance(content, dict):
        one_error(run)
        return run.tree
    # A template that includes itself never ends.
    endless = isinstance(content, str) and f"include '{kind}'" in content
    if endless or isinstance(content, str) and content in INVALID:
        return judge(case, run, "error" if used else render(text, "p"))
    if isinstance(content, str) and content in VALID:
        word = VALID[content]
    else:
        word = "" if content is None else str(content).replace("{", "{{").replace("}", "}}")
    want = {
        "text": lambda: render(text, word.format("p")), "unused": lambda: render(text, "p"),
        "horizontal-rule": lambda: render(text, "p").replace("H", word.format("")),
        "document": lambda: word.format("") if text else "",
    }[kind]()
    return judge(case, run, want)


def check_paths(case):
    make_directories()
    env = {"v": "1", "mau": {"visitor": {"templates": {"paths": case["paths"]}}}}
    word = "{}"
    for path in case["paths"]:
        gives = DIRECTORIES[path]
        if gives == "error":
            word = "error"
            break
        word = gives or word
    run = impl.process(case["text"], env, visitor=Visitor)
    if word == "error":
        want = "error"
    elif word == "used":
        want = "error" if "p" in case["text"] else render(case["text"], "p")
    else:
        want = render(case["text"], word.format("p"))
    return judge(case, run, want)


def check_names(case):
    """Names of templates that are not the one of a node have no effect, names without a node are errors."""
    name = case["name"]
    env = {"v": "1", "mau": {"visitor": {"templates": {"custom": {name: "Z"}}}}}
    error = name.endswith(".j2") and name.removesuffix(".j2").split(".")[0] == ""
    run = impl.process(case["text"], env, visitor=Visitor)
    want = "error" if error else render(case["text"], "Z" if name == "text.j2" else "p")
    return judge(case, run, want)


def allowed(name, value):
    """Functions have to return values of the right type."""
    return (name, value) != ("mau.parser.document_wrapper", "function") and not (name.endswith("id_function") and value == "class")


def families(tier):
    deep = tier == "thorough"
    texts = [n for n, v in VALUES.items() if isinstance(v, str)]
    kinds = [n for n in VALUES if n not in ("null", "bytes", "tuple")]

    def in_document():
        for name in PARSER:
            for value in ("zz", "", "source", "true", "5"):
                for text in DOCUMENTS:
                    for form in (":{}:{}\n\n{}", "----\n:{}:{}\n----\n\n{}"):
                        yield {"settings": [], "alias": True, "text": form.format(name, value, text)}
            for text in DOCUMENTS:
                for flag in "+-":
                    yield {"settings": [], "alias": True, "text": f":{flag}{name}:\n\n{text}"}

    templates = ["mau.visitor.templates.providers", "mau.visitor.templates.paths", "mau.visitor.templates.prefixes", "mau.visitor.templates.custom", "mau.visitor.templates", "mau.visitor", "mau.visitor.templates.other", "mau.visitor.other"]
    sub = ["none", "five", "list", "dict", "function", "false", "empty"]
    return [
        Family("parser", lambda: ({"settings": [(n, v)], "alias": a, "text": t} for n in PARSER for v in kinds for t in DOCUMENTS for a in (0, 1) if allowed(n, v)), check_parser, "every setting of the parser with every value, in every document"),
        Family("parser-pairs", lambda: ({"settings": [(n, v), (m, w)], "alias": 0, "text": t} for n in PARSER[2:18] for m in PARSER[2:18] if n < m for v in (kinds if deep else sub) for w in sub for t in (DOCUMENTS if deep else DOCUMENTS[3:20:6]) if allowed(n, v) and allowed(m, w)),
               check_parser, "pairs of settings"),
        Family("in-document", in_document, check_parser, "settings changed in the document"),
        Family("templates", lambda: ({"settings": [(n, v)], "text": t} for n in templates for v in VALUES for t in DOCS), check_templates, "every setting of the templates with every value"),
        Family("templates-pairs", lambda: ({"settings": [(n, v), (m, w)], "text": t} for n in templates[:4] for m in templates[:4] if n < m for v in VALUES for w in VALUES for t in ("p", "")), check_templates, "pairs of settings of the templates"),
        Family("contents", lambda: (c for k in ("text", "horizontal-rule", "document", "unused") for t in DOCS for c in (
            *({"kind": k, "content": x, "text": t} for x in [*VALID, *INVALID]), *({"kind": k, "content": None, "value": v, "text": t} for v in VALUES if v not in ("function", "class", "no-dict", "null")))), check_contents, "templates with contents of all kinds"),
        Family("paths", lambda: ({"paths": list(s), "text": t} for s in gen.seqs(list(DIRECTORIES), 3 if deep else 2, 0) for t in DOCS), check_paths, "directories of templates that are missing, empty, unreadable"),
        Family("names", lambda: ({"name": n + e, "text": t} for n in ("", ".", "..", "text", "text.", ".text", "text.pf_", "text.pf_a", "text.tg_a", "text.pt_zz", "text.a__b", "text.a__b__c", "text.pts_a__b__c", "text.__", "TEXT", "text ", "zz", "a.b.c.d", "text.sub", "\u00e9", "text.pts_s", "text.j2")
                                 for e in (".j2", ".html", "", ".J2") for t in DOCS if not (n == "text.j2" and e == "")), check_names, "names of templates"),
    ]
