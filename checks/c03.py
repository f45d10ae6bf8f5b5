"""C03: the position of every node is the place of the source it comes from."""

from mc import gen, impl, large, lock
from mc.core import Family, Violation
from mc.spans import Spans

PID = "C03"
LEVEL = "exploration"
RULE = (
    "All documents of the family are processed and every node of the tree is compared with the text found in the source at "
    "the position recorded in the node; a case is non-trivial when it has at least one node; distinct cases have distinct "
    "trees with positions."
)
ASSUMPTIONS = ["texts that contain variables and quoted arguments that contain escapes are not judged"]


def number(text):
    """Replace each W with a distinct word."""
    out = ""
    n = 0
    for c in text:
        if c == "W":
            out += f"w{n}"
            n += 1
        else:
            out += c
    return out


def check(case):
    files = case.get("files") or {}
    lock.write_files(files)
    run = impl.process(case["text"])
    if run.phase is not None:
        if case.get("errors"):
            return None
        raise Violation(f"error: {run.messages[-1][1].text}")
    lines = [l.rstrip(" ") for l in case["text"].split("\n")]
    if any((len(l) - len(l.rstrip("\\"))) & 1 for l in lines):
        # A backslash at the end of the line produces nothing.
        return None
    Spans({"main.mau": case["text"], **files}, tiled="[if" not in case["text"]).check(run.tree)
    return run.tree or None


PIECES = ["W", " W", "W ", "_W_", "*W _W_ W*", "`W`", "`W W`", "$_W_$", "%*W%", "[m](W)", "[link](W, W)", '[link]("W", "W _W_ W")',
          "[class](_W_ W, c)", "[class](W, c)", "[image](W)", "_W", "~", "\\_W", "[unicode](W)", "^W^~W~", "[W", "(W)", "[link](W)",
          "[mailto](W, `W`)", '"W"', "*`W`*"]
# A variable that is always defined.
V = "mau.parser.aliases.source.args.engine"
CONDITIONS = [f"[if:{V}==source](W, W)", f"[if:{V}!=source](W, _W_ W)", f'[if:{V} == source]("W `W`", W)', f"[if:{V}!=source](W)",
              f'[class]("[if:{V}==source](W, W)", c)', f'[if:{V}==source]("[class](W _W_, c) W", W)', f"_[if:{V}==source](W)_",
              '[link](W, "[link](W, W) W")', '[class]("W [class](*W*, c)", c)', '[mailto](W, "_W_ W")', "[mailto](text=W, email=W)",
              "[class](c, text=W)", f"[if:{V}==source](false_case=W, true_case=W)", '[link](text="W _W_", target=W)']
FEW = ["W", " ", "_W_", "`W`", "[class](W _W_, c)", "\\*", "$W$", "*", "[link](W)"]

PLACES = {
    "paragraph": "{}",
    "second": "W\n{}",
    "third": "W W\n_W_\n{}\nW",
    "header": "== {}",
    "header1": "={}",
    "item": "* {}",
    "item2": "* W\n{}".replace("{}", "  ** {}\n# W"),
    "item3": "* W\n* {}\n* W",
    "item4": "# W\n## W\n# {}",
    "label": ".role {}\nW",
    "labels": ". {}\n.x W\n[k]\n---",
    "block": "----\n{}\n----",
    "block2": "W\n\n====\nW\n\n****\n\n{}\n****\nW\n====",
    "comments": "// W\n\n////\nW\n////\n{}\n// W",
    "footnote": "[footnote](a)\n\n[footnote=a]\n----\n{}\n----\n\n<< footnotes",
    "group": "<< blockgroup:g\n\n[group=g,position=p]\n----\n{}\n----",
    "toc": "<< toc\n\n= {}\n\n== W",
    "link": "[header](h)\n\n[name=h]\n= {}",
    "links": "<< toc\n\n[name=k]\n= [header](h) W\n\n[name=h]\n= {}\n\n[header](k)",
    "controlled": ":v:1\n@if v==1\n{}",
    "excluded": ":v:1\n@if v==2\nW\n\n{}",
    "open": "[isolate=false]\n----\n{}\n----\n\nW",
}

LINES = ["", "W", "W W", "= W", "== W _W_", "* W", "** W", "# W", "---", "----\nW\n----", "====\n* W\n\n----\nW\nW\n----\n====",
         "----\n----", "[@source]\n----\nW:m:\nW\n\nW:@:\n----", "[engine=raw]\n++++\nW\n\n W \n++++", "// W", "////\nW\n////",
         "<< toc", "<< image:W", "<< mau:inc.mau", "<< raw:r.txt", "<< foo:W", ":v:W", "[k]", ".l W", "  ", "@if mau.z==1",
         "[footnote=W]\n----\nW\n----"]
INC = {"inc.mau": "// c\nincluded one _two_\nthree\n\n== Four\n\n----\nfive\n\n* six\n** seven\n----\n\n<< raw:r.txt\n", "r.txt": "a\nb\n"}


def families(tier):
    deep = tier == "thorough"

    def family(name, texts, rule, files=None, errors=False):
        return Family(name, lambda: ({"text": number(t), "files": files or {}, "errors": errors} for t in texts()), check, rule)

    return [
        family("inline", lambda: gen.strings(PIECES, 3 if deep else 2),
               "all lines of at most 2 (thorough 3) pieces of text"),
        family("inline-long", lambda: gen.strings(FEW, 6 if deep else 4), "all lines of at most 4 (thorough 6) main pieces",
               errors=True),
        family("places", lambda: (p.replace("{}", s) for p in PLACES.values() for s in gen.strings(PIECES, 2)),
               "all lines of at most 2 pieces in 20 places of a document", errors=True),
        family("places-3", lambda: (p.replace("{}", s) for p in PLACES.values() for s in gen.strings(FEW, 4 if deep else 3, 3)),
               "all lines of 3 (thorough 4) main pieces in 20 places", errors=True),
        family("macros", lambda: (p.replace("{}", t) for p in PLACES.values() for s in CONDITIONS
                                  for t in (s, "W " + s, s + " W", *(a + b for r in (CONDITIONS if deep else FEW) for a, b in ((r, s), (s, r))))),
               "all lines with a macro that contains text, alone, after and before other pieces, in all the places", errors=True),
        family("characters", lambda: gen.strings(list("aW _*`[]()\\$"), 5 if deep else 4), "all lines of at most 4 (thorough 5) characters",
               errors=True),
        family("documents", lambda: gen.docs(LINES, 4 if deep else 3), "all documents of at most 3 (thorough 4) constructs", files=INC,
               errors=True),
        family("raw", lambda: (f"{p}[{a}]\n{d}\n" + "\n".join(s) + f"\n{d}{q}" for a in ("engine=raw", "@source", "@source, x")
                               for d in ("----", "aaaa") for p in ("", "x\n\n") for q in ("", "\n\ny")
                               for s in gen.seqs(["W", "", " W", "W:W:", ":@:", "W:@W:", "----x", "_W_ "], 3)),
               "all raw and source blocks of at most 3 lines"),
        family("marked", lambda: (f"x\n\n[@source{a}]\n----\n{first}" + "".join(s) + "\n----" for a, d in (("", ":"), (", marker_delimiter=\"||\"", "|"), (", marker_delimiter=W, highlight_marker=:", "W"))
                                  for first in ("", "W\n  W" + d + "W" + d + "\n") for s in gen.strings([d, "b", " ", "@", "\t"], 7 if deep else 6, 1)), "source lines of at most 6 (thorough 7) characters"),
        family("sizes", lambda: (t for t in large.plain_texts(large.DEEP[::3] if deep else large.SIZES[::3], [p for p in large.SCALES if p not in ("C08", "C09", "C11", "C22", "C23")]) if t.strip("=")), "every element in any number", errors=True),
    ]
