"""C33: visitors: the options and the methods that a visitor replaces apply to every node."""

import re

from mc import core, gen, impl, large, lock, ref, render
from mc.core import Family, Violation
from mc.impl import Environment
from mau.visitors.base_visitor import BaseVisitor
from mau.visitors.jinja_visitor import JinjaVisitor

PID = "C33"
LEVEL = "exploration"
RULE = (
    "The tree of every document is visited with every combination of options and with visitors that replace methods; the result has to be the one obtained by "
    "changing the complete tree in the same way. Distinct cases have distinct results."
)
ASSUMPTIONS = []

ENV = {"v": "1"}
FILES = {"i.mau": "[k=i]\n= Inc\n\np _x_ {v}", "r.txt": "raw\n\nx"}
PARTS = [
    "p _x_ {v}\ny", "[a, #t, *s, #mau:debug, k=v]\n.l lab _x_\n.m two\nz", "= A", "[name=h]\n.l x\n== B _c_", "* i\n** j _k_\n# o", "---", "----\nx\n\n_y_\n----", "[isolate=false]\n.l x\n----\n= in\n\n<< toc\n----", "[engine=raw]\n----\na\n\nb\n----",
    "[@source, py]\n.l x\n----\na:@:\nb:1:\n----", "<< foo:a, k=v", "<< image:u, alt", "<< mau:i.mau", ".l x\n<< raw:r.txt", "[k=t]\n<< toc", "<< footnotes", "[footnote](f) [footnote](f)", "[footnote=f, k=b]\n----\nbody _b_\n----", "[group=g, position=p, k=v]\n----\nx\n----",
    ".l x\n<< blockgroup:g", "[header](h) [header](h, \"_t_\")", "`v` $x_y$ [link](u, \"_t_\") [mailto](e) [image](u, a, w, h)", "[class](\"_c_\", d) [unicode](263A) [raw](<b>) [m](a, k=v)", "[name=m]\n= [header](h)",
]


def parsed(text):
    """The node of the document, None for a wrong one."""
    lock.write_files(FILES)
    document, _ = impl.parse(text, ENV)
    return document and document.document


def transform(tree, function, visited=True):
    """Apply a function to all the nodes, starting from the leaves."""
    if isinstance(tree, dict):
        out = {}
        for key, value in tree.items():
            # The data of some nodes are given without a visit.
            data = key in ("block_data", "header", "footnote")
            out[key] = value if key in ("parent", "_context", "kwargs") else transform(value, function, not data)
        return function(out) if visited and "_type" in tree else out
    if isinstance(tree, list):
        return [transform(value, function) for value in tree]
    return tree


def rename(data):
    return {**data, "_type": data["_type"] + "!", "size": len(data)}


def without_parent(data):
    return {k: v for k, v in data.items() if k != "parent"}


def wrapped(data):
    return {"_type": data["_type"], "node": data}


def selected(data):
    """Keep only the texts: an empty result is a result."""
    return {} if data["_type"] in ("text", "label", "header", "source-line") else {k: v for k, v in data.items() if k != "args"}


def nothing(data):
    return None if data["_type"] != "document" else data


def as_string(data):
    return "" if data["_type"] == "text" else str(data.get("content", ""))


TRANSFORMERS = {"none": None, "rename": rename, "without-parent": without_parent, "wrap": wrapped, "select": selected, "nothing": nothing, "string": as_string}


def remove(tree, names):
    if isinstance(tree, dict):
        return {k: remove(v, names) for k, v in tree.items() if k not in names}
    if isinstance(tree, list):
        return [remove(v, names) for v in tree]
    return tree


def check_options(case):
    node = parsed(case["text"])
    if node is None:
        return None
    handler = impl.Recorder()
    base = BaseVisitor(handler, Environment.from_dict(ENV)).process(node)
    messages = len(handler.messages)
    names = [n for n in ("_context", "parent") if n in case["without"]]
    options = {"add" + ("_context" if n == "_context" else "_parent"): False for n in names}
    function = TRANSFORMERS[case["transformer"]]
    if function is not None:
        options["transformer"] = function
    handler = impl.Recorder()
    visitor = BaseVisitor(handler, Environment.from_dict(ENV))
    found = visitor.process(node, **options)
    want = remove(base, names)
    if function is not None:
        want = transform(want, function)
    core.expect(want, found, str(sorted(options)))
    if len(handler.messages) != messages:
        raise Violation(f"{len(handler.messages)} messages, {messages} without the options")
    core.expect(base, visitor.process(node), "a second visit")
    if BaseVisitor(handler).process(None, **options) != {}:
        raise Violation("a missing node is not an empty result")
    return impl.strip(remove(base, names), False)


def replaced(kinds):
    """A visitor that replaces the methods of some kinds of nodes."""

    def method(self, node, **kwargs):
        return {"_type": node.type, "mine": True}

    return type("Replaced", (BaseVisitor,), {"_visit_" + k.replace("-", "_"): method for k in kinds})


def substitute(tree, kinds):
    if isinstance(tree, dict):
        if tree.get("_type") in kinds and "parent" in tree:
            return {"_type": tree["_type"], "mine": True}
        return {k: v if k in ("parent", "_context", "kwargs") else substitute(v, kinds) for k, v in tree.items()}
    if isinstance(tree, list):
        return [substitute(v, kinds) for v in tree]
    return tree


def check_replaced(case):
    node = parsed(case["text"])
    if node is None:
        return None
    base = BaseVisitor(impl.Recorder(), Environment.from_dict(ENV)).process(node)
    found = replaced(case["kinds"])(impl.Recorder(), Environment.from_dict(ENV)).process(node)
    core.expect(substitute(base, case["kinds"]), found, f"with other methods for {case['kinds']}")
    return impl.strip(found, False)


class Steps(BaseVisitor):
    """Records the steps of the processing."""

    def _preprocess(self, node, **kwargs):
        self.steps = [("before", kwargs)]
        return super()._preprocess(node.content[0] if node and node.content else node, **kwargs)

    def _postprocess(self, result, **kwargs):
        self.steps.append(("after", kwargs))
        return [super()._postprocess(result, **kwargs)]


def check_steps(case):
    lock.write_files(FILES)
    plain = impl.process(case["text"], ENV)
    run = impl.process(case["text"], ENV, visitor=Steps)
    if plain.phase is not None or run.phase is not None:
        if plain.phase != run.phase:
            raise Violation(f"{plain.phase} {run.phase}")
        return None
    want = plain.tree["content"][0] if plain.tree else {}
    core.expect([want], run.tree, "steps")
    return impl.strip(want, False)


def check_templates(case):
    """The options are the same for every node when templates are used: a
    transformer changes what each template has access to."""
    lock.write_files(FILES)
    node = parsed(case["text"])
    if node is None:
        return None
    calls = []

    def mark(data):
        calls.append(data["_type"])
        return {**data, "mark": f"<{len(data)}>"}

    custom = {t + ".j2": f"{t}{{{{ mark }}}}({{{{ content }}}}{{{{ labels }}}}{{{{ value }}}}{{{{ items }}}}{{{{ plain_entries }}}}{{{{ nested_entries }}}}{{{{ entries }}}}{{{{ footnotes }}}}{{{{ block }}}})" for t in render.TYPES}
    plain = {n: s.replace("{{ mark }}", "<!>") for n, s in custom.items()}

    def render_with(templates, **options):
        visitor = JinjaVisitor(impl.Recorder(), Environment.from_dict({"mau.visitor.templates.custom": templates}))
        return visitor.process(node, **options)

    base = render_with(plain)
    found = render_with(custom, transformer=mark)
    core.expect(base, re.sub(r"<\d+>", "<!>", found), "rendered with a transformer")
    if base.count("<!>") > len(calls):
        raise Violation(f"{len(calls)} calls, {base.count('<!>')} nodes")
    # Without a parent each node has a value less.
    alone = render_with(custom, transformer=mark, add_parent=False)
    core.expect(re.sub(r"<(\d+)>", lambda m: f"<{int(m[1]) - 1}>", found), alone, "rendered without the parents")
    return found


KINDS = [["text"], ["header"], ["paragraph"], ["style"], ["list-item"], ["list"], ["block"], ["macro-link"], ["macro-header"], ["macro-footnote"], ["footnote"], ["toc"], ["toc-item"], ["source-line"], ["source-marker"], ["raw-line"], ["raw"], ["source"], ["include-mau"], ["include-raw"],
         ["include-image"], ["include"], ["label"], ["paragraph-line"], ["verbatim"], ["horizontal-rule"], ["footnotes-item"], ["footnotes"], ["blockgroup"], ["blockgroup-item"], ["macro"], ["macro-class"], ["macro-unicode"], ["macro-raw"], ["macro-image"], ["document"], ["text", "header"], ["label", "block"]]


def families(tier):
    deep = tier == "thorough"
    tail = "\n\n[footnote=f]\n****\nfb\n****\n\n[name=h]\n= H\n\n[group=g,position=z]\n****\ng\n****"

    def texts(n):
        for s in gen.seqs(PARTS, n):
            text = "\n\n".join(s)
            yield text
            if ref.interpret(text, ENV, FILES).error:
                yield text + tail

    return [
        Family("options", lambda: ({"text": t, "without": w, "transformer": f} for t in texts(3 if deep else 2) for w in ([], ["_context"], ["parent"], ["_context", "parent"]) for f in TRANSFORMERS if w or f != "none"), check_options, "all options on sequences of constructs"),
        Family("methods", lambda: ({"text": t, "kinds": k} for t in texts(2) for k in KINDS), check_replaced, "visitors that replace methods"),
        Family("templates", lambda: ({"text": t} for t in texts(3 if deep else 2)), check_templates, "options when templates are used"),
        Family("steps", lambda: ({"text": t} for t in texts(3 if deep else 2)), check_steps, "the steps before and after the visit"),
        Family("sizes", lambda: ({"text": t, "without": ["parent"], "transformer": "none"} for t in large.plain_texts(large.DEEP[::3] if deep else large.SIZES[1::4], most=None if deep else 2000)), check_options, "every element in any number"),
    ]
