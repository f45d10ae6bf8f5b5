"""C25: template selection."""

import itertools

from mc import gen, impl, large, lock, ref, render
from mc.core import Family, Violation
from mau.visitors.jinja_visitor import JinjaVisitor

PID = "C25"
LEVEL = "exploration"
RULE = (
    "Every set of templates of the family is used to render the documents of the family; the output has to be the one of a "
    "reference renderer, so the template used for each node has to be the right one. Distinct cases have distinct outputs."
)
ASSUMPTIONS = ["sets in which two equally specific templates match the same node are not judged"]

BASE = {t: [f"{t}(", "=content", "=value", "=items", ")"] for t in render.TYPES}


def run(text, templates, prefixes=None, env=None, files=None):
    """(output, None) or (None, error)"""
    settings = {"mau.visitor.templates.custom": {n + ".j2": render.source(s) for n, s in templates.items()}}
    if prefixes is not None:
        settings["mau.visitor.templates.prefixes"] = prefixes
    lock.write_files(files or {})
    return impl.process(text, {**(env or {}), **settings}, visitor=JinjaVisitor)


def judge(text, templates, prefixes=None, env=None, files=None):
    lock.write_files(files or {})
    result = ref.interpret(text, env or {}, files or {})
    try:
        want = None if result.error else render.expected(result, templates, prefixes or ())
    except render.NoTemplate as exc:
        want = exc
    got = run(text, templates, prefixes, env, files)
    if result.error:
        if got.phase != result.error.phase:
            raise Violation(f"expected {result.error}, found {got.tree!r} {got.phase}")
        return "error"
    if isinstance(want, Exception):
        if got.phase != "visitor" or len(got.messages) != 1:
            raise Violation(f"expected an error because there is no template for {want}, found {got.tree!r} {got.phase}")
        return "no template"
    if got.phase is not None:
        raise Violation(f"expected {want!r}, found error {got.messages[-1][1]}")
    if got.tree != want:
        raise Violation(f"expected {want!r}, found {got.tree!r}")
    return want


def check(case):
    templates = dict(BASE)
    for i, n in enumerate(case["templates"]):
        templates[n] = [f"{i}!{n}(", "=content", "=value", "=items", ")"]
    for n in case.get("without", []):
        del templates[n]
    if case.get("first"):
        # The order of the templates does not matter.
        templates = dict(reversed(list(templates.items())))
    return judge(case["text"], templates, case.get("prefixes"))


BLOCK_DOCS = [
    "----\nx\n----", "[*s]\n----\nx\n----", "[#a]\n----\nx\n----", "[#a, #b, *s]\n----\nx\n----", "[*s]\n----\n[*s, #a]\n====\ny\n====\n----", "[*r, #b]\n----\n[*s, #a, #b]\n====\ny\n====\n----",
]
CLAIMS = ["s", "r", "tg_a", "tg_b", "pt_block", "pt_document", "pts_s", "pts_r", "pf_p", "pf_q", "k__v"]
STYLE_DOCS = ["_x_", "*_x_ y*", "[*s]\n_*x*_", "= _x_", "* ~x^y^~"]
STYLE_CLAIMS = ["style__underscore", "style__star", "style__caret", "pts_style__underscore", "pts_style__star", "pts_style__tilde", "pt_style", "pt_paragraph-line", "pt_header", "pf_p", "s", "pts_style__star__x"]
OTHER = [
    ("[m](a) [n](b)", "macro", ["name__m", "name__n", "pt_paragraph-line", "pf_p", "name__zz"]),
    (".role x\n.title y\np", "label", ["role__role", "role__title", "pt_paragraph", "pf_p", "tg_a"]),
    ("<< foo\n\n[*s, #a]\n<< bar", "include", ["ctype__foo", "ctype__bar", "s", "pt_document", "tg_a", "pf_p"]),
    ("[*s, group=g, position=p]\n----\nx\n----\n\n[group=g, position=q]\n----\nx\n----\n\n<< blockgroup:g", "blockgroup-item", ["position__p", "position__q", "pts_name__g", "pt_blockgroup", "s", "pf_p"]),
    ("[*s, group=g, position=p]\n----\nx\n----\n\n[*s]\n<< blockgroup:g", "blockgroup", ["name__g", "s", "pf_p", "name__h", "pt_document"]),
    ("[*s, #a, group=g, position=p]\n----\nx\n----\n\n<< blockgroup:g", "block", ["s", "tg_a", "pt_blockgroup-item", "pts_position__p", "pts_position__q", "pf_p"]),
    ("[*s, group=g, position=p]\n----\nx\n----\n\n[*s]\n<< blockgroup:g\n\n[*r]\n<< blockgroup:g", "blockgroup-item", ["position__p", "pts_s", "pts_r", "pts_name__g", "pt_blockgroup", "pf_p"]),
    ("[class](\"_a_\", c) [link](u, \"_b_\")", "style", ["pt_macro-class", "pt_macro-link", "style__underscore", "pts_name__class", "pf_p"]),
    ("* a\n** b\n# c", "list", ["pt_list", "pt_list-item", "pt_document", "s", "pf_p"]),
    ("* a\n** b\n\n[*s]\n* _c_", "list-item", ["pt_list", "pts_s", "pf_p", "pt_document"]),
    ("[*s, #a]\n= h\n\n[#a, #b]\n== i", "header", ["s", "tg_a", "tg_b", "pf_p", "pf_q"]),
    ("[*s]\n.l _t_\n= _h_ [header](x)\n\n[name=x]\n= X", "text", ["pt_header", "pt_style", "pt_label", "pts_s", "pts_role__l", "pt_macro-header"]),
    ("a[footnote](f)\n\n[*s, footnote=f]\n----\nb\n----\n\n<< footnotes", "paragraph", ["pt_document", "pt_footnote", "pt_block", "pts_s", "pf_p"]),
    ("[@source, py]\n----\na:1:\nb:@:\n----", "source-line", ["pt_source", "pt_document", "pts_s", "pf_p", "s"]),
    ("[*s, engine=raw]\n----\na\n----", "raw-line", ["pt_raw", "pts_s", "pf_p", "tg_a"]),
    ("= a\n\n== b\n\n<< toc", "toc-item", ["pt_toc", "pt_toc-item", "pf_p", "s"]),
    ("[*s, #a]\n---\n\n[#b]\n---", "horizontal-rule", ["s", "tg_a", "tg_b", "pt_document", "pf_p"]),
    ("[*s]\nx _y_\n\nz", "paragraph-line", ["pt_paragraph", "pts_s", "pf_p", "s", "tg_a"]),
    ("[*s]\n<< image:u\n\n<< image:v", "include-image", ["s", "pt_document", "pf_p", "ctype__image"]),
    ("[#mau:b, #a, *s]\n----\n[#mau:a]\n====\nx\n====\n----", "block", ["tg_a", "tg_b", "tg_mau:b", "s", "pts_s"]),
    ("[a, s, k=v, subtype=r, prefix=p, name=n]\n----\nx\n----", "block", ["tg_a", "s", "r", "k__v", "name__n", "pf_p"]),
    ("[*s, level=2]\n= x\n\n[*S, #A]\n== x", "header", ["level__1", "level__2", "S", "tg_A", "tg_a", "s"]),
    ("p", "document", ["s", "pt_document", "pts_s", "tg_a", "pf_p", "pts_k__v"]),
]


def names(base, claims, maximum):
    for n in range(maximum + 1):
        for c in itertools.combinations(claims, n):
            yield ".".join([base, *c])


def families(tier):
    deep = tier == "thorough"

    def fam(name, cases, rule):
        return Family(name, cases, check, rule)

    def sets(base, claims, each, size):
        options = list(names(base, claims, each))
        for n in range(1, size + 1):
            yield from itertools.combinations(options, n)

    prefixes = [None, ["p"], ["q", "p"]]

    def others():
        for text, base, claims in OTHER:
            for t in sets(base, claims, 3 if deep else 2, 2):
                for p in prefixes[:2]:
                    yield {"text": text, "templates": list(t), "prefixes": p}

    def order():
        for t in sets("block", ["s", "tg_a", "pt_block", "pf_p"], 3, 3):
            for d in (BLOCK_DOCS[4],):
                yield {"text": d, "templates": list(t), "prefixes": ["p"], "first": 1}

    def missing():
        for text, base, claims in OTHER:
            for t in names(base, claims, 2):
                for p in prefixes[:2]:
                    yield {"text": text, "templates": [t] if t != base else [], "prefixes": p, "without": [base]}

    def orders_of_claims():
        for claims in itertools.permutations(["s", "tg_a", "pf_p", "pt_block", "tg_b"], 3):
            for d in BLOCK_DOCS:
                yield {"text": d, "templates": [".".join(["block", *claims]), "block.s"], "prefixes": ["p"]}

    def many():
        # Any number of tags, and any number of levels of specificity.
        for n in (large.DEEP[:41] if deep else large.SIZES[:15]):
            tags = [f"t{i}" for i in range(n)]
            text = f"[{', '.join('#' + t for t in tags)}, *s]\n----\nx\n----"
            claims = [f"tg_{t}" for t in tags]
            every = [".".join(["block", *claims[:i]]) for i in range(n + 1)]
            for t in (every, every[:-1], every[::2], [every[-1], "block.s"], [every[1], "block.s.pt_document.tg_zz"], [every[-1] + ".tg_zz", every[1]], [".".join(["block", *reversed(claims)]), every[n // 2]], [".".join(["block", "s", *claims, "pt_document"]), every[-1]]):
                yield {"text": text, "templates": [x for x in t if x != "block"], "prefixes": None}
            deep_text = large.blocks(n, "x", each=lambda i: f"[*s{i}]\n")
            yield {"text": deep_text, "templates": [f"block.s{i}" for i in range(n)], "prefixes": None}
            yield {"text": deep_text, "templates": [f"block.pts_s{i}" for i in range(n)] + ["block.pt_document"], "prefixes": None}

    def unusual():
        alphabet = [n for n in (large.NAMES if deep else large.BASIC) if "." not in n and "/" not in n and "__" not in n and n not in large.QUOTED and "{" not in n]
        for x in alphabet:
            for y in alphabet:
                for t in ([f"block.{x}"], [f"block.tg_{y}"], [f"block.{x}.tg_{y}", f"block.tg_{y}"], [f"block.pf_{x}", f"block.{x}"], [f"paragraph.pts_{x}", f"paragraph.tg_{y}"]):
                    if any(c.startswith(("pt_", "pts_", "pf_", "tg_")) for c in (x, y)):
                        continue
                    yield {"text": f"[*{x}, #{y}]\n----\n[#{y}]\np\n----", "templates": t, "prefixes": [x]}

    def odd():
        # Parts that are nearly claims, repeated claims.
        for n in ["block.a__b__c", "block.pt_", "block.pts_", "block.pf_", "block.tg_", "block.s.s", "block.r.s", "block.tg_a.tg_a", "block.pt_document.pt_block", "block.pts_s.pts_r", "block.pf_q.pf_p", "block.PT_block",
                  "block.tga", "block.ptblock", "blocks", "block.S", "block.pts_a__b__c", "block.tg_a.tg_zz", "Block", "block.k__v.pts_k__v"]:
            for d in BLOCK_DOCS:
                for p in prefixes:
                    yield {"text": d, "templates": [n], "prefixes": p}

    def lists_of_prefixes():
        for n in range(5):
            for p in itertools.permutations(["p", "q", "r", "t"], n):
                for t in sets("block", ["s", "pf_p", "pf_q", "pf_r"] if not deep else ["s", "tg_a", "pf_p", "pf_q", "pf_r"], 2, 3 if deep else 2):
                    yield {"text": BLOCK_DOCS[3], "templates": [x for x in t if x.count("pf_") < 2], "prefixes": list(p)}
                yield {"text": BLOCK_DOCS[3], "templates": [f"block.pf_{x}" for x in "pqrt"], "prefixes": list(p) * 2}

    return [
        fam("prefixes", lists_of_prefixes, "lists of at most 4 prefixes"),
        fam("pairs", lambda: ({"text": d, "templates": list(t), "prefixes": p} for t in sets("block", CLAIMS, 2, 2) for d in (BLOCK_DOCS if deep else BLOCK_DOCS[3::2]) for p in (prefixes if deep else prefixes[1:])), "all pairs of templates with at most 2 claims"),
        fam("triples", lambda: ({"text": d, "templates": list(t), "prefixes": p} for t in sets("block", CLAIMS[1:10:1] if deep else ["s", "tg_a", "pt_block", "pts_s", "pf_p"], 2, 3) for d in BLOCK_DOCS[4 if not deep else 3:] for p in prefixes[1:2]), "all sets of 3 templates with at most 2 claims"),
        fam("single", lambda: ({"text": d, "templates": [t], "prefixes": p} for t in names("block", CLAIMS, 5 if deep else 4) for d in BLOCK_DOCS for p in prefixes), "all templates with at most 4 (thorough 5) claims"),
        fam("styles", lambda: ({"text": d, "templates": list(t), "prefixes": ["p"]} for t in sets("style", STYLE_CLAIMS, 2, 2) for d in (STYLE_DOCS if deep else STYLE_DOCS[1:2])), "templates of styles"),
        fam("nodes", others, "templates of the other nodes"),
        fam("order", order, "the order of the templates"),
        fam("missing", missing, "no template for a node"),
        fam("claims", orders_of_claims, "the order of the claims"),
        fam("odd", odd, "names that are nearly claims"),
        fam("sizes", many, "any number of tags and of templates"),
        fam("unusual-names", unusual, "pairs of unusual names in subtypes, tags and prefixes"),
    ]
