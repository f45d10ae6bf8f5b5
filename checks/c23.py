"""C23: arguments of an inclusion can be written on the same line or before it; image and generic inclusions."""

from mc import core, gen, impl, large, lock
from mc.core import Family, Violation

PID = "C23"
LEVEL = "exploration"
RULE = (
    "Every inclusion of the family is executed, in both notations, by the implementation and by the reference interpreter; all "
    "the trees have to be equal; distinct cases have distinct trees."
)
ASSUMPTIONS = []

TYPES = ["image", "mau", "raw", "toc", "footnotes", "blockgroup", "foo", "foo.bar", "a_b", "a#1", "0", "images", "header"]
ARGS = ["u", "i.mau", "uri=u", "\"a, b\"", "alt_text=\"t t\"", "classes=\"c,d\"", "classes=c", "k=v", "#t", "*s", "g", "group=g", "b c", "{n}", "call:v=2", "pass_environment=false", "#mau:x", "uri=i.mau", "alt", "@source", "_s_", "[m](x)", "a=b=c", "\"", "", "uri=", "classes=", "name=g"]
ENV = {"v": "1", "n": "i.mau"}
FILES = {"i.mau": "inc {v}"}
TAIL = "\n\n= H\n\n[group=g,position=p]\n----\nx\n----\n\n[footnote=f]\n----\ny\n----"


def check(case):
    expected, _ = lock.agree(case["text"], ENV, FILES)
    return lock.outcome(expected)


def both(case):
    a = f"<< {case['type']}:{case['args']}" + TAIL
    b = f"[{case['args']}]\n<< {case['type']}" + TAIL
    expected, run = lock.agree(a, ENV, FILES)
    _, other = lock.agree(b, ENV, FILES)
    if run.phase is None:
        core.expect(impl.strip(run.tree), impl.strip(other.tree), "the two notations")
    elif other.phase is None or run.messages[-1][1].text != other.messages[-1][1].text:
        raise Violation(f"{a!r}: {run.messages[-1][1].text}; {b!r}: {other.phase}")
    return lock.outcome(expected)


def families(tier):
    deep = tier == "thorough"
    fam = lambda name, texts, rule: Family(name, lambda: ({"text": t} for t in texts()), check, rule)
    return [
        Family("notations", lambda: ({"type": t, "args": ", ".join(a)} for t in TYPES for a in gen.seqs(ARGS, 3 if deep else 2) if "".join(a)), both, "every type with at most 2 (thorough 3) arguments in both notations"),
        Family("notations-3", lambda: ({"type": t, "args": ", ".join(a)} for t in ("image", "mau", "foo", "blockgroup") for a in gen.seqs(["u", "i.mau", "alt", "classes=\"c,d\"", "k=v", "#t", "uri=i.mau", "alt_text=x", "g"], 4 if deep else 3, 3)), both, "longer lists of arguments"),
        fam("image", lambda: (f"<< image:{', '.join(a)}" for a in gen.seqs(["u", "alt", "c1", "\"c1,c2\"", "uri=v", "alt_text=w", "classes=\"d, e\"", "width=1", "", "#t", "*s"], 4)), "the arguments of images"),
        fam("shape", lambda: (f"{p}<<{s}{t}{c}{a}{e}" for p in ("", " ", "x", "<") for s in ("", " ", "   ", "\t") for t in TYPES[:9] + ["", "Foo", "-", "toc footnotes", "toc:toc"] for c in ("", ":", " :", "::", ": ") for a in ("", "u", " i.mau", "k=v ", "x:y") for e in ("", " ", "\nz")), "the shape of the line"),
        fam("both", lambda: (f"[{a}]\n{x}<< {t}:{b}" for t in TYPES for a in ("k=v", "u", "#t", "i.mau") for b in ("u", "j=w", "i.mau", "g", "") for x in ("", "\n", ".l z\n", "@if v==2\n", "// c\n", ":v:3\n", "p\n\n", "----\n----\n")), "both notations at the same time"),
        fam("contexts", lambda: (w.replace("{}", f"<< {t}:{a}") + TAIL for t in TYPES for a in ARGS for w in ("x\n{}", "{}\nx", "----\n{}\n----", ".l x\n{}", "@if v==2\n{}", "@if v==1\n{}", "* i\n\n{}", "[isolate=false]\n----\n{}\n----", "{}\n{}", "[footnote=q]\n----\n{}\n----", "// {}\nx")), "every context"),
        *large.families(PID, tier),
    ]
