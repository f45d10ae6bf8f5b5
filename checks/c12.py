"""C12: arguments, labels and conditions apply to the next node only."""

from mc import gen, large, lock
from mc.core import Family

PID = "C12"
LEVEL = "exploration"
RULE = (
    "Every sequence of lines of the family is executed by the implementation and by the reference interpreter, the trees "
    "(with the parents of all nodes) have to be equal; distinct cases have distinct trees."
)
ASSUMPTIONS = []

BEFORE = ["[a]", "[b, k=v]", "[#t, *s]", ".l x", ".l y", ".m _z_", ". t", "@if v==1", "@if v==2", "@if v!=2", "", ":w:1", "// c"]
HOSTS = ["p", "= h", "* i", "# o", "---", "----\nx\n----", "----\n----", "[engine=raw]\n----\nx\n----", "[@source]\n----\nx\n----", "<< foo", "<< foo:a", "<< toc", "<< image:u", "<< mau:i.mau",
         "<< raw:r.txt", "<< footnotes", "[footnote=f]\n----\nx\n----", "[group=g,position=p]\n----\nx\n----\n\n<< blockgroup:g", "----\n[n]\n.l q\n= in\n----", "----\n[n]\n.l q\n----"]
LINES = ["[a]", "[b, k=v]", ".l x", ".m _z_", "@if v==1", "@if v==2", "", ":w:1", "p", "= h", "* i", "---", "----", "====", "<< foo", "<< toc:q"]
FILES = {"i.mau": "[in]\n.l x\ninc", "r.txt": "r\n"}
ENV = {"v": "1"}


def check(case):
    expected, _ = lock.agree(case["text"], ENV, FILES, parents=True)
    return lock.outcome(expected)


def families(tier):
    deep = tier == "thorough"

    def fam(name, texts, rule):
        return Family(name, lambda: ({"text": t} for t in texts()), check, rule)

    return [
        fam("before", lambda: ("\n".join(s) + "\n" + h + t for s in gen.seqs(BEFORE, 3 if deep else 2) for h in HOSTS for t in ("", "\n\nq", "\n\n= r")),
            "at most 2 (thorough 3) attachments before every construct, and the following node"),
        fam("before-3", lambda: ("\n".join(s) + "\n" + h + "\n\nq" for s in gen.seqs(BEFORE[:10], 4 if deep else 3, 3) for h in ("p", "----\nx\n----", "= h", "<< foo", "* i")),
            "3 (thorough 4) attachments before the main constructs"),
        fam("lines", lambda: gen.docs(LINES, 4 if deep else 3), "all sequences of at most 3 (thorough 4) lines"),
        fam("between", lambda: (f"{a}\n{g}\n{x}\n{h}" for g in HOSTS for h in HOSTS for a in ("[a]", ".l x", "@if v==1", "@if v==2", "[k=1]\n.l x\n@if v==1") for x in ("", "[b]", ".m y", "\n\n")),
            "pairs of constructs with attachments"),
        fam("ends", lambda: (w.replace("{}", a) for a in ("[a]", ".l x", "@if v==1", "@if v==2", "[a]\n.l x", ".l x\n@if v==2") for w in (
            "{}", "p\n{}", "----\n{}\n----\np", "----\n{}\n----\n\n= h", "[isolate=false]\n----\n{}\n----\np", "* i\n\n{}\n\n", "[footnote=n]\n----\n{}\n----\np", "<< mau:i.mau\n{}\n\n----\n{}\n----\nq",
            "{}\n----\n{}\n----\n{}\np", "{}\n:q:1\n{}\np", "{}\n// c\n\n\np", "{}\n////\n[z]\n////\np", "----\n====\n{}\n====\nx\n----\ny")), "attachments that have no node"),
        fam("labels", lambda: ("\n".join(s) + "\n---" for s in gen.seqs([".a x", ".b y", ".a z", ". t", ".title u", ".a-1_b w", ".a", ".", ".A x", ". _s_ `v` [m](k)", ".b {v}"], 3)),
            "all sequences of at most 3 labels"),
        fam("many", lambda: ("\n".join(q.replace("{}", r) for r in "abcdefgh"[:n]) + f"\n{h}\n\n" + a + g for n in range(9) for q in (".{} x", "[{}]", ".{} x\n[a{}]", "[#{}]", ".{} x\n@if v==1")
                             for h in ("p", "---", "----\nx\n----", "= h", "<< foo", "* i", "@if v==2\np") for a in ("", ".z y\n", "[z]\n", ".a y\n[a]\n") for g in ("q", "= r", "----\ny\n----")),
            "at most 8 attachments before a node, and the following node"),
        *large.families(PID, tier),
    ]
