"""C19: block groups collect the blocks that name them."""

from mc import gen, large, lock
from mc.core import Family

PID = "C19"
LEVEL = "exploration"
RULE = (
    "Every document of the family is executed by the implementation and by the reference interpreter, the trees (with the "
    "parents) have to be equal; distinct cases have distinct trees."
)
ASSUMPTIONS = []

BLOCKS = ["[group=g, position=p]\n----\nx _y_\n----", "[group=g, position=q]\n----\nz\n----", "[group=h, position=p]\n----\nw\n----", "[group=g]\n----\nno pos\n----", "[position=p]\n----\nno group\n----",
          "[*s, #t, position=r, group=g, k=v]\n.l lab\n----\nmore\n----", "[group=g, position=s, engine=raw]\n----\nraw\n----", "[@source, py, group=g, position=u]\n----\na:m:\n----", "@if v==2\n[group=g, position=p]\n----\nexcluded\n----",
          "[group=g, position=w]\n----\n----", "[group=\"a b\", position=\"c d\"]\n----\nx\n----", "[group={n}, position={m}]\n----\nvar\n----", "[group=, position=p]\n----\nx\n----", "[group=g, position=]\n----\nx\n----",
          "[footnote=f, group=g, position=p]\n----\nfn\n----", "[group=g, position=p]\npar", "[group=g, position=z]\n----\n= head\n\n[footnote](i)\n\n[footnote=i]\n++++\nb\n++++\n----", "[isolate=false, group=g, position=iso]\n----\n= out\n----",
          "[group=g, position=n1]\n----\n[group=g, position=p]\n++++\nin\n++++\n\n<< blockgroup:g\n----", "[isolate=false]\n----\n[group=g, position=n2]\n++++\nin\n++++\n----", "[group=G, position=P]\n----\nx\n----"]
USES = ["<< blockgroup:g", "<< blockgroup:h", "[g]\n<< blockgroup", "<< blockgroup:group=g", "[g, #t, k=v]\n.l x\n<< blockgroup", "<< blockgroup:zz", "<< blockgroup", "<< blockgroup:{n}", "@if v==2\n<< blockgroup:zz",
        "@if v==1\n<< blockgroup:g", "<< blockgroup:\"a b\"", "<< blockgroup:g, h", "----\n<< blockgroup:g\n----", "[isolate=false]\n----\n<< blockgroup:g\n----", "<< blockgroup:G", "<< blockgroup:#g", "<< blockgroup:"]


def check(case):
    expected, _ = lock.agree(case["text"], {"v": "1", "n": "g", "m": "p"}, parents=True)
    return lock.outcome(expected)


def families(tier):
    deep = tier == "thorough"

    def fam(name, texts, rule):
        return Family(name, lambda: ({"text": t} for t in texts()), check, rule)

    return [
        fam("pairs", lambda: ("\n\n".join(o) for a in BLOCKS for b in BLOCKS for u in USES for o in ((a, b, u), (u, a, b), (a, u, b))), "two blocks and one use in all orders"),
        fam("triples", lambda: ("\n\n".join((*s, u)) for s in gen.seqs(BLOCKS, 3, 3) for u in (USES if deep else USES[:2])), "three blocks and one use"),
        fam("uses", lambda: ("\n\n".join((BLOCKS[0], u, BLOCKS[1], w, BLOCKS[2], x)) for u in USES for w in USES for x in USES), "three uses of the same groups"),
        fam("orders", lambda: ("\n\n".join([f"[group={g}, position={p}]\n----\n{g}{p}\n----" for g, p in s] + ["<< blockgroup:g", "<< blockgroup:h"]) for s in gen.seqs([("g", "1"), ("g", "2"), ("h", "1"), ("g", "0"), ("h", "a"), ("g", "10")], 5 if deep else 4)),
            "all orders of definitions"),
        fam("contexts", lambda: (w.replace("{}", f"{a}\n\n{u}") + t for a in BLOCKS for u in USES for w in ("++++\n{}\n++++".replace("+", "%"), "x\n\n{}\n\ny", "[footnote=q]\n%%%%\n{}\n%%%%", "[isolate=false]\n%%%%\n{}\n%%%%", "@if v==1\n%%%%\n{}\n%%%%",
                                                                                                         "%%%%\n~~~~\n{}\n~~~~\n%%%%")
                                for t in ("", "\n\n<< blockgroup:g", "\n\n[group=g, position=p]\n----\nother\n----")), "groups in every context"),
        *large.families(PID, tier),
    ]
