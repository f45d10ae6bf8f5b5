"""C15: lists: nesting by the length of the prefix, kind by its first character, numbering."""

from mc import gen, large, lock
from mc.core import Family

PID = "C15"
LEVEL = "exploration"
RULE = (
    "Every document of the family is executed by the implementation and by the reference interpreter, the trees (with the "
    "parents) have to be equal; distinct cases have distinct trees."
)
ASSUMPTIONS = []

PREFIXES = ["*", "**", "***", "#", "##", "###", "*#", "#*", "****"]
STARTS = ["", "[start=auto]\n", "[start=3]\n", "[start=0]\n", "[start=-2]\n", "[start=x]\n", "[start=]\n", "[start= 4 ]\n", "[start=1_0]\n", "[start=\"7\"]\n", "[auto]\n", "[start=auto, k=v]\n", "[start=Auto]\n",
          "[start=1.5]\n", "[start={n}]\n", "[start=+5]\n"]
LISTS = ["# a", "# a\n# b", "* a", "# a\n## b", "## a\n# b", "## a", "# a\n## b\n## c\n# d", "* a\n# b", "# a\n* b", "*# a"]


def check(case):
    expected, _ = lock.agree(case["text"], {"n": 6, "v": "1"}, {"i.mau": "# i\n# j"}, parents=True)
    return lock.outcome(expected)


def families(tier):
    deep = tier == "thorough"

    def fam(name, texts, rule):
        return Family(name, lambda: ({"text": t} for t in texts()), check, rule)

    def items(s):
        return "\n".join(f"{p} i{n}" for n, p in enumerate(s))

    return [
        fam("nesting", lambda: (items(s) for s in gen.seqs(PREFIXES, 5 if deep else 4)), "all lists of at most 4 (thorough 5) items with 9 prefixes"),
        fam("levels", lambda: (items(s) for s in gen.seqs(["*", "##", "***", "####"], 7 if deep else 6, 5)), "all sequences of levels of 5 or 6 (thorough 7) items"),
        fam("two-levels", lambda: (items(s) for s in gen.seqs(["#", "##", "**"], 9 if deep else 8, 7)), "longer lists"),
        fam("numbering", lambda: ("\n\n".join(a + b for a, b in zip(s[::2], s[1::2])) for n in (2, 4) for s in (
            (a, b) if n == 2 else (a, b, c, d) for a in STARTS for b in LISTS for c in (STARTS if n == 4 else [0]) for d in (LISTS[:6] if n == 4 else [0]))), "pairs of lists with all the values of start"),
        fam("auto", lambda: ("\n\n".join(s) for s in gen.seqs(["# a\n# b", "[start=auto]\n# c", "[start=auto]\n# d\n## e\n# f", "[start=5]\n# g", "* h", "[start=auto]\n* i", "p", "----\n[start=auto]\n# k\n----",
                                                               "[isolate=false]\n----\n[start=auto]\n# l\n----", "@if v==2\n[start=9]\n# m", "<< mau:i.mau"], 4 if deep else 3)), "numbering continued through documents"),
        fam("spaces", lambda: (f"{a}{p}{b}{t}\n{c}{q}{d}u" for p in ("*", "#", "**") for q in ("*", "##") for a in ("", " ", "   ", "\t") for b in ("", " ", "   ", "\t") for c in ("", "  ") for d in ("", " ", "  ")
                               for t in ("x", "", "x  ", "_x_", "* x", "*", "# y", "[m](a)")), "spaces around prefixes"),
        fam("ends", lambda: (f"{l}\n{e}\n{m}" for l in LISTS for m in LISTS + ["p", "= h", "----\nx\n----", "[a]\n# c", "---"] for e in ("", "  ", "// c", "////\n////", "\n", ":n:1", "[k]", ".l x", "p", "@if v==1")),
            "what can follow a list"),
        fam("contexts", lambda: (w.replace("{}", items(s)) for s in gen.seqs(["*", "#", "**", "##"], 3) for w in ("----\n{}\n----", "x\n\n{}\n\ny", "[a, k=v]\n.l x\n{}", "[footnote](f)\n\n[footnote=f]\n----\n{}\n----",
                                                                                                          "@if v==1\n{}\n\nx", "@if v==2\n{}\n\nx", "[group=g,position=p]\n----\n{}\n----\n\n<< blockgroup:g", "----\n====\n{}\n====\n----")),
            "lists in every context"),
        fam("contents", lambda: (f"* {t}\n** {u}\n* {t}" for t in gen.strings(["_", "*", "`", "a", " ", "#", "\\", "[m](k)", "{n}"], 3) for u in ("z", "*", "_")), "the text of items"),
        *large.families(PID, tier),
    ]
