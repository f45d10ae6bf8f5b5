"""C17: header links are connected to the header with the given name."""

from mc import gen, large, lock
from mc.core import Family

PID = "C17"
LEVEL = "exploration"
RULE = (
    "Every document of the family is executed by the implementation and by the reference interpreter, the trees (with the "
    "parents) have to be equal; distinct cases have distinct trees."
)
ASSUMPTIONS = []

DEFS = ["[name=a]\n= A _t_", "[name=b]\n== B", "[name=a]\n=== A2", "[name=a,internal_id=x]\n= AX", "[name=A]\n= cap", "= a", "[internal_id=a]\n= I", "[name=\"a b\"]\n= sp", "[footnote](n) [name=b]", "@if v==2\n[name=a]\n= no",
        "----\n[name=a]\n= In\n----", "[isolate=false]\n----\n[name=a]\n= Out\n----", "[name=a]\np", "[name=a]\n----\n----", "[name={q}]\n= Var"]
LINKS = ["[header](a)", "[header](a, t)", "[header](b, _t_)", "[header](zz)", "[header](A)", "[header](\"a b\")", "[header](header_id=a)", "[header](a, text=u)", "[header](text=u, header_id=b)", "[header](a, \"\")",
         "_[header](a)_", "[class](\"[header](a)\", c)", "[link](u, \"[header](b)\")", "[if:v==1](\"[header](a)\")", "[if:v!=1](\"[header](zz)\")", "[header](a, \"[m](k) _x_\")", "[header](a, b, c)", "[header](#a)",
         "[header](a) [header](a)", "[header]({q})", "`[header](zz)`", "\\[header](zz)", "[header](a, \"[header](b, z)\")"]
WRAPS = ["{}", "* {}", ".l {}\np", "----\n{}\n----", "[isolate=false]\n----\n{}\n----", "[isolate=false]\n----\n[isolate=false]\n====\n{}\n====\n----", "[footnote](f)\n\n[footnote=f]\n----\n{}\n----",
         "[group=g,position=p]\n----\n{}\n----\n\n<< blockgroup:g", "@if v==1\n{}", "@if v==2\n{}", "[isolate=false,group=g,position=p]\n----\n{}\n----", "[engine=raw]\n----\n{}\n----", "<< mau:l.mau"]
FILES = {"l.mau": "[header](a)\n\n[name=a]\n= L", "m.mau": "[header](zz)", "n.mau": "[name=a]\n= N"}
HEADERS = ["C", "[header](a)", "[header](b)", "[header](c) x", "[header](c, t)", "_[header](b)_", "[header](c, \"[header](b)\")", "[class](\"[header](c)\", k)", "[header](c) [header](b)"]
LABELS = ["", ".r [header](c)\n", ".r [header](a, x)\n", ".r [header](b)\n.s y\n", ".r y\n.s _[header](c)_\n", ".r [header](b)\n.s [header](a)\n"]


def check(case):
    expected, _ = lock.agree(case["text"], {"v": "1", "q": "a"}, FILES, parents=True)
    return lock.outcome(expected)


def families(tier):
    deep = tier == "thorough"

    def fam(name, texts, rule):
        return Family(name, lambda: ({"text": t} for t in texts()), check, rule)

    toc = ("", "\n\n<< toc")
    main = ["[header](a)", "[header](b, t)", "[name=a]\n= A", "[name=b]\n== B", "----\n[header](a)\n----", "----\n[name=a]\n= In\n----", "[isolate=false]\n----\n[header](b)\n----", "[isolate=false]\n----\n[name=b]\n= Out\n----",
            "[isolate=false]\n----\n[header](a)\n\n[name=c]\n= C\n----", "[header](c)", "<< toc", "@if v==2\n[header](zz)", "@if v==2\n[name=a]\n= no"]
    return [
        fam("pairs", lambda: (f"{d}\n\n{w.replace('{}', l)}{t}" if o else f"{w.replace('{}', l)}\n\n{d}{t}" for d in DEFS for l in LINKS for w in WRAPS for o in (0, 1) for t in toc if "footnote](n)" not in d), "every link and definition, in both orders"),
        fam("two-definitions", lambda: (f"{d}\n\n{l}\n\n{e}" for d in DEFS for e in DEFS for l in LINKS if "footnote](n)" not in d + e), "two definitions"),
        fam("two-links", lambda: (f"[name=a]\n= A `v`\n\n{w.replace('{}', l)}\n\n[name=b]\n== B\n\n{x.replace('{}', m)}" for l in LINKS for m in LINKS for w in WRAPS[:6] for x in WRAPS[:2] if l != m or w != x), "two links"),
        fam("sequences", lambda: ("\n\n".join(s) for s in gen.seqs(main, 4 if deep else 3)), "documents of at most 3 (thorough 4) parts"),
        fam("links-in-headers", lambda: (f"{la}[name=a]\n= {a}\n\n{lb}[name=b]\n== {b}\n\n[name=c]\n= {c}{t}" for a in HEADERS for b in HEADERS for c in (HEADERS if deep else HEADERS[:4]) for la in LABELS for lb in LABELS for t in toc + ("\n\n[header](a)",)),
            "headers (and their labels) that contain header links"),
        fam("excluded", lambda: (w.replace("{}", f".r {a} {b}\n.s {c}\n@if v=={k}\n{h}") + "\n\n" + e for w in ("{}", "[isolate=false]\n----\n{}\n----") for k in (1, 2) for h in ("p", "= H", "====\nx\n====") for a in LINKS[:13] for b in LINKS[:13] for c in ("y", "[header](zz)", "[header](a)")
                               for e in ("[name=a]\n= A", "[header](a)\n\n[name=a]\n= A\n\n[name=b]\n= B", "[header](zz)")), "links in the labels of excluded nodes"),
        fam("includes", lambda: (f"{a}\n\n<< mau:{f}\n\n{b}" for f in FILES for a in DEFS[:3] + LINKS[:4] for b in DEFS[:3] + LINKS[:4]), "included files are separate documents"),
        *large.families(PID, tier),
    ]
