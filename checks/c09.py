"""C09: variable definitions: the last one counts, from its line on, in all the document."""

from mc import core, gen, impl, large, lock
from mc.core import Family, Violation

PID = "C09"
LEVEL = "exploration"
RULE = (
    "Every document of the family is executed by the implementation and by the reference interpreter; the trees and the "
    "variables defined at the end have to be equal; distinct cases have distinct trees."
)
ASSUMPTIONS = []

ENV = {"v": "0", "ns": {"a": "na", "b": "nb"}, "n": 7}
NAMES = ["v", "w", "+v", "-v", "ns.a", "ns.c", "a.b.c", "v-1", "_v", "1", "V", "v v", "v:", "", "+", "-", ".v", "+ns.a", "-w", "--v", "+-v"]
VALUES = ["", "1", " 1", "1 ", "a b", ":", "x:y", "{v}", "{w}", "{v}{n}", "_s_", "`{v}`", "\\{v\\}", "[m](a)", "true", "=", "//", "\u00e9", " ", "{ns.a}", ", \"q\""]
LINES = [":v:1", ":v:2", ":v:{v}x", ":w:{v}", ":+v:", ":-v:", ":ns.a:z", ":+ns.q:", "{v}", "{w}", "{ns.a}", "x", "", "[k={v}]", ". l {v}", "= h {v}", "* {v}",
         "@if v==1", "@if v==true", "----", "====", "<< mau:i.mau", "<< mau:i.mau, pass_environment=false", "<< raw:i.mau", "[if:v==1](y, n)", "[ifeval:v!=1](w, v)"]
FILES = {"i.mau": ":v:inc\n:z:1\n{v}\n"}


def check(case):
    expected, _ = lock.agree(case["text"], ENV, FILES, compare_env=True)
    return lock.outcome(expected)


def fam(name, texts, rule):
    return Family(name, lambda: ({"text": t} for t in texts()), check, rule)


def families(tier):
    deep = tier == "thorough"
    wrap = [lambda s: s, lambda s: "x\n\n" + s, lambda s: "----\n" + s + "\n----\n{v}", lambda s: "----\n====\n" + s + "\n====\n{v}\n----\n{v}", lambda s: "[k={v}]\n" + s + "\nh",
            lambda s: "@if v==0\n" + s + "\ny", lambda s: "[isolate=false]\n----\n" + s + "\n----\n{v}", lambda s: "[footnote=f]\n----\n" + s + "\n{v}\n----\n\n[footnote](f)\n{v}",
            lambda s: "@if v==1\n----\n" + s + "\n----\n\n{v}", lambda s: "[engine=raw]\n----\n" + s + "\n----\n{v}", lambda s: "////\n" + s + "\n////\n{v}", lambda s: "{v}\n" + s + "\n{v}",
            lambda s: "* i {v}\n\n" + s + "\n* j {v}"]
    return [
        fam("definitions", lambda: (w(f":{n}:{v}") + t for n in NAMES for v in VALUES for w in wrap for t in ("", "\n{v} {w}", "\n\n`{ns.a}` {ns.a}", "\n{a.b.c}")),
            "every name and value in every place"),
        fam("sequences", lambda: gen.docs(LINES, 4 if deep else 3), "all sequences of at most 3 (thorough 4) lines"),
        fam("two", lambda: (f":{n}:{v}\n:{m}:{w}\n{t}" for n in NAMES[:9] for v in VALUES[1:14] for m in NAMES[:9] for w in VALUES[1:12]
                            for t in ("{v}{w}", "{ns.a}")), "all pairs of definitions"),
        fam("nested", lambda: ("\n".join(s[:1] + ("----",) + s[1:2] + ("====",) + s[2:3] + ("====",) + s[3:4] + ("----",) + s[4:5])
                               for s in gen.seqs([":v:1", ":v:2", "{v}", "[k={v}]", ":w:{v}"], 5, 5)), "definitions and uses at all levels of nested blocks"),
        fam("names", lambda: (f":{n}:x\n{{{n.lstrip('+-') or n}}}" for n in gen.strings(list("aB1_-+. :/"), 4 if deep else 3)), "all names of at most 3 (thorough 4) characters"),
        fam("values", lambda: (f":q:{v}\n{{q}}|" for v in gen.strings(list("a {}`\\:_=\""), 5 if deep else 4)), "all values of at most 4 (thorough 5) characters"),
        *large.families(PID, tier),
    ]
