"""C18: footnotes: each mention has its body, numbering, lists of footnotes."""

from mc import gen, large, lock
from mc.core import Family

PID = "C18"
LEVEL = "exploration"
RULE = (
    "Every document of the family is executed by the implementation and by the reference interpreter, the trees (with the "
    "parents) have to be equal; distinct cases have distinct trees."
)
ASSUMPTIONS = []

PARTS = ["[footnote](a)", "x [footnote](b) y [footnote](a)", "[footnote=a]\n----\nbody _a_\n----", "[footnote=b]\n----\nbb\n\n* i\n----", "<< footnotes", "[k=v]\n.l x\n<< footnotes", "----\n[footnote](a)\n----",
         "----\n[footnote=a]\n****\nin\n****\n\n[footnote](a)\n\n<< footnotes\n----", "[isolate=false]\n----\n[footnote](a)\n----", "[isolate=false]\n----\n[footnote=c]\n****\ncc\n****\n----", "[isolate=false]\n----\n<< footnotes\n----",
         "[footnote](c)", "[footnote=c]\n----\n----", "@if v==2\n[footnote=a]\n----\nno\n----", "@if v==2\n[footnote](zz)", "text"]
MENTIONS = ["[footnote](a)", "[footnote](name=a)", "_[footnote](a)_", "[class](\"[footnote](a)\", c)", "[link](u, \"[footnote](a) z\")", "[if:v==1](\"[footnote](a)\")", "[if:v!=1](\"[footnote](zz)\", \"[footnote](a)\")", "[footnote](zz)", "[footnote](A)",
            "[footnote](a, b)", "[footnote](\"a\")", "[footnote]({q})", "`[footnote](zz)`", "[footnote](a)[footnote](a)", "[footnote](#a)", "[header](h, \"[footnote](a)\")", "[class](\"[class](\\\"[footnote](a)\\\", c)\", d)", "[footnote](\"a b\")"]
BODIES = ["[footnote=a]\n----\nx\n----", "[*s, footnote=a, k=v]\n.l lab\n----\nx _y_\n\n* i\n----", "[footnote=a]\n----\n----", "[footnote=a, engine=raw]\n----\nr\ns\n----", "[@source, py, footnote=a]\n----\nr:m:\n----", "[footnote=\"a b\"]\n----\nx\n----",
          "[footnote={q}]\n----\nx\n----", "[footnote=a, group=g, position=p]\n----\nx\n----", "[footnote=a, classes=\"c,d\"]\n----\n= h\n----", "[footnote=a]\n----\n[footnote=a]\n****\nin\n****\n[footnote](a)\n----", "[footnote=]\n----\nx\n----", "[footnote]\n----\nx\n----",
          "[footnote=a]\n----\n<< footnotes\n----", "[footnote=a]\np", "[footnote=a]\n= h", "[footnote=a, isolate=false]\n----\nx _y_\n\n= h\n----", "[isolate=false, footnote=a]\n----\n[footnote=b]\n****\nin\n****\n[footnote](b)\n\n<< footnotes\n----"]
WRAPS = ["{}", "= {}", "* {}\n** {}", ".l {}\np", "----\n{}\n----", "[isolate=false]\n----\n{}\n----", "[isolate=false]\n----\n[isolate=false]\n====\n{}\n====\n----", "[group=g,position=p]\n----\n{}\n----\n\n<< blockgroup:g", "@if v==2\n{}", "a\n{}\nb",
         "[isolate=false,group=g,position=p]\n----\n{}\n----\n\n<< blockgroup:g", "<< mau:i.mau"]
FILES = {"i.mau": "[footnote](a)\n\n[footnote=a]\n----\ninc\n----\n\n<< footnotes", "j.mau": "[footnote](a)"}


def check(case):
    expected, _ = lock.agree(case["text"], {"v": "1", "q": "a"}, FILES, parents=True)
    return lock.outcome(expected)


def families(tier):
    deep = tier == "thorough"

    def fam(name, texts, rule):
        return Family(name, lambda: ({"text": t} for t in texts()), check, rule)

    head = lambda t: t + "\n\n[name=h]\n= Head" if "[header](h" in t else t
    return [
        fam("sequences", lambda: ("\n\n".join(s) for s in gen.seqs(PARTS, 4 if deep else 3)), "documents of at most 3 (thorough 4) parts"),
        fam("pairs", lambda: (head(t) for b in BODIES for m in MENTIONS for w in WRAPS for l in ("", "\n\n<< footnotes") for x in [w.replace("{}", m)] for t in (f"{b}\n\n{x}{l}", f"{x}\n\n{b}{l}")), "every mention and body in every place, in both orders"),
        fam("excluded", lambda: (t for w in ("{}", "[isolate=false]\n----\n{}\n----") for k in (1, 2) for h in ("p", "= H", "====\nx\n====") for a in MENTIONS for b in MENTIONS[:10] for c in ("y", "[footnote](zz)", "_[footnote](a)_")
                               for e in ("end", BODIES[0], "[footnote](a)\n\n" + BODIES[0] + "\n\n<< footnotes", "[footnote](zz)")
                               for d in [w.replace("{}", f".r {a} {b}\n.s {c}\n@if v=={k}\n{h}")] for t in (head(d + "\n\n" + e), head(e + "\n\n" + d))), "mentions in the labels of excluded nodes"),
        fam("bodies", lambda: (f"{b}\n\n[footnote](a)\n\n{c}\n\n<< footnotes" for b in BODIES for c in BODIES), "two bodies"),
        fam("orders", lambda: ("\n\n".join([f"[footnote={x}]\n----\n{x}\n----" for x in s] + [" ".join(f"[footnote]({x})" for x in t), "<< footnotes"]) for s in gen.seqs("abc", 3) if len(set(s)) == len(s) for t in gen.seqs("abc", 4 if deep else 3)),
            "all orders of bodies and mentions"),
        fam("nested", lambda: ("\n\n".join([f"[{p}]\n----\n" + "\n\n".join(s[:2]) + "\n----" if p else "\n\n".join(s[:2])] + list(s[2:])) for p in ("isolate=false", "isolate=true", "isolate=False", "isolate=", "k") for s in gen.seqs(
            ["[footnote](a)", "[footnote=a]\n****\nba\n****", "<< footnotes", "[footnote=b]\n****\nbb\n****", "[isolate=false]\n====\n[footnote](b)\n====", "[isolate=false]\n====\n[footnote=d]\n++++\nbd\n++++\n===="], 4 if deep else 3, 3)),
            "footnotes inside and outside blocks"),
        fam("many", lambda: ("\n\n".join(f"[footnote=n{i}]\n----\nb{i}\n----" for i in range(n)) + "\n\n" + " ".join(f"[footnote](n{(i * k) % n})" for i in range(n)) + "\n\n<< footnotes" for n in (1, 2, 9, 10, 11, 25) for k in (1, 3, 7)),
            "many footnotes"),
        *large.families(PID, tier),
    ]
