"""C26: rendering with templates: what templates have access to, how the pieces are joined, where templates come from."""

import itertools
import os
import shutil
import sys

from mc import core, gen, impl, large, lock, ref, render
from mc.core import Family, Violation
from mc.impl import Environment
from mau.visitors.jinja_visitor import JinjaVisitor

PID = "C26"
LEVEL = "exploration"
RULE = (
    "Every document of the family is rendered with templates that show all the values, and every combination of template sources "
    "is used to render a document; the output has to be the one of a reference renderer. Distinct cases have distinct outputs."
)
ASSUMPTIONS = ["two files that give the same template in the same directory are not explored"]

ENV = {"v": "1", "q": "a"}
FILES = {"i.mau": "[k=i]\n= Inc\n\np _x_ {v}", "r.txt": "raw <b>\n\n{{ x }}"}
PARTS = [
    "p _x_ {v}\ny", "[a, #t, *s, k=v]\n.l lab _x_\n.m two\nz", "= A", "[k=h, name=h]\n.l x\n== B _c_", "* i\n** j _k_\n# o", "[start=4]\n# o\n# p", "---", "----\nx\n\n_y_\n----", "[a, #t, *s, k=v, classes=\"c,d\"]\n.l x\n----\n= in\n\n<< toc\n----",
    "[engine=raw, classes=c]\n----\n<b>\n\n {{ x }}\n----", "[@source, py]\n.l x\n----\na:@:\nb:1:\n\nc\n----", "<< foo:a, k=v", "<< image:u, alt, classes=\"c,d\"", "<< mau:i.mau", ".l x\n<< raw:r.txt", "[k=t]\n<< toc", "<< footnotes", "[footnote](f) [footnote](f)",
    "[footnote=f, k=b]\n----\nbody _b_\n----", "[group=g, position=p, k=v]\n----\nx\n----", "[k=g]\n.l x\n<< blockgroup:g", "[header](h) [header](h, \"_t_\")", "`v` $x_y$ [link](u, \"_t_\") [mailto](e) [image](u, a, w, h)", "[class](\"_c_\", d) [unicode](263A) [raw](<b>) [m](a, k=v)",
    "[name=x, #t]\n== [header](h) _y_", "[if:v==1](\"_y_\", n) \\{\\{ v \\}\\} \\{% if %\\} <&>", "[#mau:x]\n= <A> & \"B\"",
]
WRAP = ["{}", "====\n{}\n====", "[*w, isolate=false]\n====\n{}\n====", "[group=w, position=1]\n====\n{}\n====\n\n<< blockgroup:w", "[footnote](w)\n\n[footnote=w]\n====\n{}\n====\n\n<< footnotes"]
INLINE = ["a", "_b_", "*c _d_*", "`e`", "$f$", "[link](u, \"_g_\")", "[m](h, k=v)", "[class](i, c)", "[image](u)", "[footnote](f)", "[header](h)", "{v}", "\\\\", "<&\">", "[raw](\"<x>\")", "[unicode](1F600)"]
PLACES = ["{}", ".l {}\np", "* {}", "# i\n## {}", "== {}", "----\n{}\n----"]
TAIL = "\n\n[footnote=f]\n****\nfb\n****\n\n[name=h]\n= H"


class Universal(JinjaVisitor):
    """Uses the default templates."""

    default_templates = Environment.from_dict({t + ".j2": render.UNIVERSAL for t in render.TYPES})


class Joins(Universal):
    join_with = {"document": "#", "block": "+", "list": "*", "style": "!", "paragraph-line": "/", "toc": "t", "footnotes": "f"}
    join_with_default = "~"


class Options(Universal):
    jinja_environment_options = {"autoescape": False, "trim_blocks": True}


VISITORS = {"default": (Universal, None, ""), "joins": (Joins, Joins.join_with, "~"), "options": (Options, None, "")}


def check_document(case):
    visitor, join, default = VISITORS[case.get("visitor", "default")]
    lock.write_files(FILES)
    result = ref.interpret(case["text"], ENV, FILES)
    run = impl.process(case["text"], ENV, visitor=visitor)
    if result.error:
        if run.phase != result.error.phase:
            raise Violation(f"expected {result.error}, found {run.phase} {run.tree!r}")
        return "error " + result.error.what
    want = ""
    if result.doc.nodes:
        want = render.Renderer(render.ALL_UNIVERSAL, (), join, default).render(result.doc.root)
    if run.phase is not None:
        raise Violation(f"error {run.messages[-1][1]}")
    if run.tree != want:
        at = next((i for i, (a, b) in enumerate(zip(run.tree, want)) if a != b), min(len(run.tree), len(want)))
        raise Violation(f"expected ...{want[max(0, at - 200):at + 100]!r}, found ...{run.tree[max(0, at - 200):at + 100]!r}")
    return want or None


def check_pieces(case):
    """Some nodes have an empty text, or one that ends with blank characters."""
    shapes = {t: [t + "(", "=content", "=value", "=line_content", "=labels", ")"] for t in render.TYPES if t != "word"}
    shapes.update(case["shapes"])
    lock.write_files(FILES)
    result = ref.interpret(case["text"], ENV, FILES)
    join, default = (Joins.join_with, "~") if case["joins"] else (None, "")
    want = render.Renderer(shapes, (), join, default).render(result.doc.root)
    visitor = type("Pieces", (Joins if case["joins"] else JinjaVisitor,), {"default_templates": Environment.from_dict({n + ".j2": render.source(t) for n, t in shapes.items()})})
    run = impl.process(case["text"], ENV, visitor=visitor)
    if run.phase is not None:
        raise Violation(f"error {run.messages[-1][1]}")
    core.expect(want, run.tree, "output")
    return want or None


# -- sources of templates ----------------------------------------------------

PROVIDER = """
class {name}:
    templates = {templates!r}
"""


def providers(table):
    """Install a distribution that registers template providers."""
    base = os.path.join(core.scratch(), "site")
    if base not in sys.path:
        os.makedirs(os.path.join(base, "mcprov-1.0.dist-info"), exist_ok=True)
        with open(os.path.join(base, "mcprov-1.0.dist-info", "METADATA"), "w") as f:
            f.write("Metadata-Version: 2.1\nName: mcprov\nVersion: 1.0\n")
        with open(os.path.join(base, "mcprov-1.0.dist-info", "entry_points.txt"), "w") as f:
            f.write("[mau.templates]\none = mcprov:One\ntwo = mcprov:Two\n")
        with open(os.path.join(base, "mcprov.py"), "w") as f:
            f.write("class One:\n    templates = {}\nclass Two:\n    templates = {}\n")
        sys.path.insert(0, base)
    import mcprov

    mcprov.One.templates = table.get("one", {})
    mcprov.Two.templates = table.get("two", {})


def write_tree(root, tree):
    """A directory with the given files."""
    path = os.path.join(core.scratch(), root)
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)
    for name, content in tree.items():
        full = os.path.join(path, name)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, "w", encoding="utf-8") as f:
            f.write(content)
    return path


SOURCES = ["default", "one", "two", "dir1", "dir2", "custom"]
TEXT = "[*s]\n----\nx\n----"


def flat_name(path):
    return path.replace("/", ".")


def check_sources(case):
    """case: {templates: {source: [names]}, request: [providers], paths: [...], relative}"""
    ext = case.get("extension", ".j2")
    prep = case.get("preprocess")

    def content(source, name):
        return f"{source}!{name}({{{{ content }}}}{{{{ value }}}})"

    given = {s: {n + (ext if "!" not in n else n[n.index("!") + 1:]) if "!" not in n else n.replace("!", ""): content(s, n.partition("!")[0]) for n in case["templates"].get(s, [])} for s in SOURCES}
    base = {t + ext: f"base!{t}({{{{ content }}}}{{{{ value }}}})" for t in render.TYPES}

    class Visitor(JinjaVisitor):
        default_templates = Environment.from_dict({**base, **given["default"]})
        extension = ext

    if prep:
        Visitor.templates_preprocess = lambda text: text.replace("!", "?")
    providers({"one": {flat_name(k): v for k, v in given["one"].items()}, "two": {flat_name(k): v for k, v in given["two"].items()}})
    paths = {}
    for d in ("dir1", "dir2"):
        paths[d] = write_tree(d, {k: v + case.get("end", "") for k, v in given[d].items()})
    env = {"mau": {"visitor": {"templates": {}}}}
    settings = env["mau"]["visitor"]["templates"]
    if case["request"] is not None:
        settings["providers"] = case["request"]
    if case["paths"] is not None:
        settings["paths"] = [os.path.relpath(paths[p]) if case.get("relative") else paths[p] for p in case["paths"]]
    if given["custom"]:
        custom = {}
        for k, v in given["custom"].items():
            d = custom
            *dirs, last = k.split("/")
            for x in dirs:
                d = d.setdefault(x, {})
            d[last] = v
        settings["custom"] = custom
    run = impl.process(case.get("text", TEXT), env, visitor=Visitor)

    # The expected templates, later sources replace the earlier ones.
    if any(p not in ("one", "two") for p in case["request"] or []):
        if run.phase != "visitor" or len(run.messages) != 1:
            raise Violation(f"expected an error for a provider that is not available, found {run.phase} {run.tree!r}")
        return "no provider"
    merged = dict(base)
    merged.update(given["default"])
    for p in case["request"] or []:
        merged.update({flat_name(k): v for k, v in given[p].items()})
    for p in case["paths"] or []:
        for k, v in given[p].items():
            if os.path.basename(k).endswith(ext):
                v = v + case.get("end", "")
                v = v[:-1] if v.endswith("\n") else v
                merged[flat_name(k)] = v.replace("!", "?") if prep else v
    merged.update({flat_name(k): v for k, v in given["custom"].items()})
    shapes = {}
    for k, v in merged.items():
        if k.endswith(ext):
            shapes[k.removesuffix(ext)] = [v.partition("{{")[0], "=content", "=value", v.rpartition("}}")[2]]
    want = render.expected(ref.interpret(case.get("text", TEXT), {}, {}), shapes)
    if run.phase is not None:
        raise Violation(f"error {run.messages[-1][1]}")
    if want != run.tree:
        raise Violation(f"expected {want!r}, found {run.tree!r}")
    return want


def check_no_environment(case):
    """Visitors can be created without an environment."""
    tree, handler = impl.parse(case["text"], ENV)
    if tree is None:
        return None
    out = Universal(handler).process(tree.document)
    core.expect(impl.process(case["text"], ENV, visitor=Universal).tree, out, "without an environment")
    return out


def families(tier):
    deep = tier == "thorough"

    def docs(name, texts, rule, visitor="default"):
        return Family(name, lambda: ({"text": t, "visitor": visitor} for t in texts()), check_document, rule)

    def subsets(items):
        for n in range(len(items) + 1):
            yield from itertools.combinations(items, n)

    def precedence():
        # Which sources provide the template of the type and the one of the subtype.
        for a in subsets(SOURCES):
            for b in subsets(SOURCES):
                if not deep and len(a) + len(b) > 5:
                    continue
                t = {}
                for s in a:
                    t.setdefault(s, []).append("block")
                for s in b:
                    t.setdefault(s, []).append("block.s")
                yield {"templates": t, "request": ["one", "two"], "paths": ["dir1", "dir2"]}

    def requests():
        t = {s: ["block", "text"] for s in SOURCES[1:5]}
        for r in (None, [], ["one"], ["two"], ["one", "two"], ["two", "one"], ["one", "zz"], ["zz"], ["one", "one"]):
            for p in (None, [], ["dir1"], ["dir2"], ["dir1", "dir2"], ["dir2", "dir1"]):
                for rel in (False, True):
                    for prep in (False, True):
                        yield {"templates": t, "request": r, "paths": p, "relative": rel, "preprocess": prep}

    def pieces():
        kinds = ["paragraph", "paragraph-line", "text", "style", "block", "list", "list-item", "source-line", "source", "raw-line", "raw", "header", "label", "horizontal-rule", "macro", "include-raw", "toc-item", "footnotes-item"]
        text = "\n\n".join(["a _b_ [m](c)\n_d_\ne", "= A", ".l x\n.m _y_\n* i\n* j _k_\n** l", "----\nx\n\n---\n\ny\n----", "[@source]\n----\na\n\nb:1:\n----", "[engine=raw]\n----\nx\n\ny\n----", "<< raw:r.txt", "---", "== _B_", "<< toc", "z[footnote](f)", "<< footnotes", "[footnote=f]\n----\np\n\n---\n\nq\n----", "---"])
        for joins in (0, 1):
            for n in (1, 2, 3) if deep else (1, 2):
                for ks in itertools.combinations(kinds, n):
                    for shape in ([], [" "], ["\t x "], ["", "=content", " "]) if n == 1 else ([],):
                        yield {"text": text, "shapes": {k: shape for k in ks}, "joins": joins}
                        yield {"text": text, "shapes": {k + ".pt_" + p: shape for k in ks for p in ("document", "block", "paragraph", "list")}, "joins": joins}

    files = ["block.s", "block/s", "a/block.s", "block!.txt", "block!.j2.bak", "block!", "block!.J2", "text", "document", "block/s!.html", "block/tg_a/s"]

    def trees():
        for s in ("dir1", "custom"):
            for names in subsets(files):
                if len(names) <= (3 if deep else 2) and not {"block.s", "block/s"} <= set(names) and not ("block!" in names and any("block/" in n for n in names)):
                    for end in ("", "\n", "\n\n"):
                        for ext in (".j2", ".html"):
                            if s == "custom" and (end or any("block!" == n for n in names)):
                                continue
                            if not (ext == ".html" and "block/s!.html" in names and {"block/s", "block.s"} & set(names)):
                                yield {"templates": {s: list(names)}, "request": None, "paths": ["dir1"], "end": end, "extension": ext}

    return [
        docs("singles", lambda: (w.replace("{}", p) + t for p in PARTS for w in WRAP for t in ("", TAIL)), "every construct in every container"),
        docs("sequences", lambda: (f"{p}\n\n{q}{t}" for p in PARTS for q in PARTS for t in (TAIL,)), "pairs of constructs"),
        docs("triples", lambda: ("\n\n".join(s) for s in gen.seqs(PARTS if deep else PARTS[15:22], 3, 3)), "sequences of three constructs"),
        docs("inline", lambda: (w.replace("{}", " ".join(s)) + TAIL for s in gen.seqs(INLINE, 2) for w in (PLACES if deep or len(s) == 1 else PLACES[::3])), "inline constructs"),
        docs("joins", lambda: (w.replace("{}", p) + TAIL for p in PARTS for w in WRAP), "other separators", "joins"),
        docs("options", lambda: (w.replace("{}", p) + TAIL for p in PARTS for w in WRAP[:2]), "options of the template engine", "options"),
        Family("pieces", pieces, check_pieces, "nodes whose text is empty or ends with blank characters"),
        Family("precedence", precedence, check_sources, "which sources provide two templates"),
        Family("requests", requests, check_sources, "which providers and paths are requested"),
        Family("trees", trees, check_sources, "directories of templates"),
        Family("no-environment", lambda: ({"text": p + TAIL} for p in PARTS[:10]), check_no_environment, "visitors without an environment"),
        docs("sizes", lambda: large.plain_texts(large.DEEP[::3] if deep else large.SIZES[::3], ["C02", "C06", "C10", "C12", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21"], None if deep else 800), "every element in any number"),
    ]
