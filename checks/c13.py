"""C13: conditional content: exactly what the condition selects is processed."""

from mc import gen, large, lock
from mc.core import Family

PID = "C13"
LEVEL = "exploration"
RULE = (
    "Every document of the family is executed by the implementation and by the reference interpreter; the trees and the final "
    "variables have to be equal; distinct cases have distinct trees."
)
ASSUMPTIONS = []

ENV = {"v": "1", "t": "true", "e": "", "n": 5, "b": True, "ns": {"a": "x y"}, "w": "a_b", "x": None, "u": "\u00e9", "a_b": "1:2", "_c_": "[x]", "sp": " 1 ", "tb": "\t", "cs": "TRUE", "nl": "1\n2", "f": 0.5, "z": 0, "li": ["v"]}
NAMES = ["a_b", "_c_", "v", "t", "e", "n", "b", "ns.a", "zz", "w", "x", "u", "ns", "sp", "tb", "cs", "f", "z", "li", "{v}", "v v", "-v", ""]
OPS = ["==", "!=", " == ", " != ", "=", "", " ", "===", "!==", "==!", "<", "== ", " !="]
VALUES = ["1:2", "[x]", "\\[x\\]", "x\\_y", "(1)", "*1", "1", "true", "", "5", "True", "x y", "a_b", "None", "\u00e9", "2", "{v}", " 1", "1 ", "\"1\"", "==1", "`1`", "v", "0", "TRUE", "0.5", "['v']", " "]

# What a false condition has to drop.
NODES = ["p", "p\nq", "= h", "[name=h]\n= h", "* i\n** j\n* k", "# i\n# j", "---", "----\nx\n----", "----\n= h\n----", "[isolate=false]\n----\n= h\n\n[footnote](n)\n----", "[engine=raw]\n----\nx\n----",
         "[@source]\n----\nx:m:\n----", "[footnote=n]\n----\nx\n----", "[group=g,position=p]\n----\nx\n----", "<< toc", "<< footnotes", "<< image:u", "<< mau:i.mau", "<< mau:none.mau", "<< raw:none",
         "<< blockgroup:g", "<< blockgroup:zz", "{zz}", "[footnote](zz)", "[header](zz)", "a [link]() b", "[start=auto]\n# k", "[start=x]\n# i", "----\n:v:2\n{zz}\n----", "[engine=zz]\n----\nx\n----", "[a]\n.l x\np",
         "----\n////\n----", "* i\ntext"]
AFTER = ["", "\n\nq", "\n\n[start=auto]\n# z", "\n\n<< toc", "\n\n[footnote](n)\n\n<< footnotes", "\n\n[header](h)", "\n\n<< blockgroup:g", "\n\n{v}", "\n\n[name=h]\n= h\n\n[footnote=n]\n----\ny\n----\n\n[group=g,position=p]\n----\nz\n----"]
LABELS = [".l x", ".l a[footnote](n)", ".m [footnote](zz)", ".m _[header](h)_", ".n [header](zz, [footnote](n))", ".n [class](\"[footnote](zz) [header](zz)\", c) {v}", ".l [if:v==2](\"[footnote](n)\", \"[footnote](zz)\")", ".l [link](u, \"*[header](h, t)*\")", ".n [header](zz) _[header](zy)_ [header](h) [footnote](zz)", ".n [class](\"[footnote](zz) [footnote](n)\", c) *[footnote](zz)* [footnote](zz)"]
FILES = {"i.mau": ":v:3\ninc {v}\n\n= ih"}

TEXTS = ["a", "_s_", "`v`", "\"a, b\"", "[link](u)", "", "\"[link](u, t)\"", "a b ", "v", "zz", "\"\"", "true_case=x", "false_case=y", "_", "\"_a\"", "\\)", "\"[if:v==1](p, q)\"", "\"[if:v!=1](p)\""]
CONDS = ["v==1", "v!=1", "v==2", "v!=2", "zz==1", "v", "", "n==5", "ns.a==x y", "v == 1", "v=1", ":v==1", "e==", "e!=", "b==True", "t==true", "v==1:2", "v==`1`", "v==$1$", "w==a", "sp==1", "sp!=1", "sp== 1 ", "f==0.5", "z==", "z==0", "cs==true", "sp==", "tb=="]
OPERATORS = ["if", "ifeval", "ifx", "If", "if ", "ifdef", "eval"]


def check(case):
    expected, _ = lock.agree(case["text"], ENV, FILES, compare_env=True)
    return lock.outcome(expected)


def families(tier):
    deep = tier == "thorough"

    def fam(name, texts, rule):
        return Family(name, lambda: ({"text": t} for t in texts()), check, rule)

    return [
        fam("conditions", lambda: (f"@if{s}{n}{o}{v}\np\n\nq" for s in (" ", "", "  ") for n in NAMES for o in OPS for v in VALUES), "every name, operator and value"),
        fam("nodes", lambda: (p + f"@if v=={k}\n{n}{a}" for p in ("", "[start=3]\n# a\n\n", "[x]\n", ".l x\n", "@if v==2\n") for k in (1, 2) for n in NODES for a in AFTER),
            "every construct, included or excluded, and what follows"),
        fam("labels", lambda: ("\n".join(o) + f"\n{n}{a}" for k in (1, 2) for l1 in LABELS for l2 in ["", *LABELS] for o in {(l1, l2, f"@if v=={k}"), (f"@if v=={k}", l1, l2), (l1, f"@if v=={k}", l2)} if "" not in o or o[1] == "" for n in ("p", "---", "= h", "----\nx\n----", "<< toc", "* i", "----\n.l [footnote](zz)\n@if v==2\nx\n----") for a in AFTER),
            "labels that mention footnotes and headers, of every kind of node, included or excluded"),
        fam("nodes-in-blocks", lambda: (w.replace("{}", f"@if v=={k}\n{n}") + a for w in ("++++\n{}\n++++", "[isolate=false]\n++++\n{}\n\nz\n++++", "[footnote=m]\n++++\n{}\n++++", "@if v==2\n++++\n{}\n++++",
                                                                                            "@if v==1\n++++\n{}\n\n.l x\n++++") for k in (1, 2) for n in NODES for a in AFTER), "the same in blocks"),
        fam("sequences", lambda: ("\n".join(f"@if v=={k}\n{n}\n" for k, n in s) for s in gen.seqs([(k, n) for k in (1, 2) for n in (NODES if deep else NODES[:16:2] + NODES[10:14])], 2, 2)),
            "pairs of included and excluded constructs"),
        fam("changes", lambda: gen.docs([":v:1", ":v:2", "@if v==1", "@if v==2", "@if v!=2", "p", "= h", "", "----", "{v}", "[a]"], 5 if deep else 4), "conditions and definitions in sequence"),
        fam("macros", lambda: (f"a {b}[{o}:{c}]({t}{s}{u}){b} z" for o in OPERATORS[:2] for c in CONDS for t in TEXTS for s in (", ", ",") for u in TEXTS for b in ("", "_")), "every condition, true and false case"),
        fam("macros-1", lambda: (w.replace("{}", f"[{o}:{c}]({t})") for o in OPERATORS for c in CONDS for t in TEXTS for w in ("{}", "_{}_", "a{}b", "[class](\"{}\", c)", "= {}", "* {}", "`{}`", "_a {}")),
            "macros with a single case in all surroundings"),
        fam("macro-names", lambda: (f"[{o}](a, b)" for o in ("if", "if:", "if:v", "ifeval", "ifeval:", "if:v==1:", "iff", "if:v==1==1", "if:{v}==1", "if:1==1", "if:v==1 ", " if:v==1", "ifeval:v==1", "ifeval: v==1")),
            "the form of the macro"),
        fam("macro-conditions", lambda: (p.replace("{}", f"[{m}:{n}{o}{v}](t, v)") for m in ("if", "ifeval") for n in NAMES for o in OPS for v in VALUES for p in ("{}", "_a_ {} *b*", "[class](\"{} c\", d)")), "every name, operator and value in macros"),
        fam("eval", lambda: (f"[ifeval:{c}]({a}, {b}) [if:{c}]({b}, {a})" for c in CONDS for a in ("v", "n", "ns.a", "b", "w", "x", "e", "t", "zz", "u") for b in ("v", "n", "zz", "ns.a", "x", "w")), "variables selected by a condition"),
        *large.families(PID, tier),
    ]
