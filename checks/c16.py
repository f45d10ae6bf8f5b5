"""C16: headers and the table of contents."""

from mc import core, gen, impl, large, lock
from mc.core import Family, Violation
from checks import c34

PID = "C16"
LEVEL = "exploration"
RULE = (
    "Every document of the family is executed by the implementation and by the reference interpreter, the trees (with the "
    "parents) have to be equal; distinct cases have distinct trees."
)
ASSUMPTIONS = []

TEXTS = ["A", "A b", "_A_ b", "`A`", "A [m](k)", "[link](u, A)", "A.b-c", "\u00c9t\u00e9", "A  b", "!?", "A_b", "[class](A, c)", "$_A_$", "{v}", "\\_A", "[unicode](A)", "[raw](A)", "[footnote](n)", "Z" * 60, "1 2", "[if:v==1](A)", "=A", "= A", "Stra\u00dfe \u0130", "\ufb01x \u212a", "\uff21 \u0661", "a\tb\u00a0c\u2003d", "A--b. .c", "-", ".", "\u65e5 x"]
LEVELS = ["=", "==", "===", "====="]
ARGS = ["", "[k=v]\n", "[name=x]\n", "[internal_id=my]\n", "[internal_id=]\n", "[a, #t, *s, name=y, internal_id=id2]\n", ".l _z_\n", "@if v==2\n", "[name=]\n", "[id=q]\n"]
FILES = {"i.mau": "= Inc\n\n== Sub\n\n<< toc", "j.mau": "text"}


def check(case):
    expected, _ = lock.agree(case["text"], {"v": "1"}, FILES, parents=True)
    return lock.outcome(expected)


def ids(case):
    """The identifiers do not depend on the rest of the document."""
    head = case["head"]
    alone = impl.process(head)
    ident = alone.tree["content"][0]["internal_id"]
    for other in case["others"]:
        for text in (other + "\n\n" + head, head + "\n\n" + other):
            run = impl.process(text + "\n\n<< toc")
            found = [n["internal_id"] for n in run.tree["content"] if n["_type"] == "header" and n["level"] == alone.tree["content"][0]["level"] and impl.strip(n["content"], False) == impl.strip(alone.tree["content"][0]["content"], False)]
            if ident not in found:
                raise Violation(f"{ident} alone, {found} in {text!r}")
            toc = [e["internal_id"] for e in run.tree["content"][-1]["plain_entries"]]
            if toc != [n["internal_id"] for n in run.tree["content"] if n["_type"] == "header"]:
                raise Violation(f"the toc contains {toc}")
    return ident


def families(tier):
    deep = tier == "thorough"

    def fam(name, texts, rule):
        return Family(name, lambda: ({"text": t} for t in texts()), check, rule)

    foot = "\n\n[footnote=n]\n----\nx\n----"
    tail = lambda t: t + foot if "footnote](n)" in t else t

    def heads(s, toc):
        lines = [f"{l} H{n}" for n, l in enumerate(s)]
        lines.insert(toc if toc >= 0 else len(lines), "<< toc")
        return "\n\n".join(lines)

    return [
        fam("hierarchy", lambda: (heads(s, t) for s in gen.seqs(LEVELS, 6 if deep else 5) for t in (0, 1, -1)), "all sequences of at most 5 (thorough 6) levels"),
        fam("hierarchy-2", lambda: (heads(s, 0) for s in gen.seqs(["=", "==", "==="], 8 if deep else 7, 6)), "longer sequences of levels"),
        fam("texts", lambda: (tail(f"{a}{l} {t}\n\n<< toc\n\n{m} {u}") for a in ARGS for l in LEVELS[:3] for t in TEXTS for m in LEVELS[:2] for u in (TEXTS if deep else ["A", "_A_ b", "{v}"])), "all texts and arguments"),
        fam("arguments", lambda: (f"<< toc\n\n{a}= A\n\n{b}== B\n\n{c}= A" for a in ARGS for b in ARGS for c in ARGS), "all triples of arguments"),
        fam("documents", lambda: ("\n\n".join(s) for s in gen.seqs(["= A", "== B", "[internal_id=i]\n= C", "<< toc", "[k=v]\n<< toc", "----\n= In\n\n<< toc\n----", "[isolate=false]\n----\n== Out\n\n<< toc\n----",
                                                                      "<< mau:i.mau", "@if v==2\n= No", "p", "[footnote=n]\n----\n= F\n----", "[isolate=false]\n----\n====\n= x\n====\n\n[isolate=false]\n====\n== y\n====\n----"], 4 if deep else 3)),
            "documents with several tables, blocks, includes"),
        fam("lines", lambda: (f"{a}{b}{c}" for a in ("=", "==", "=" * 8, " =", "\t=") for b in ("", " ", "   ", "\t") for c in TEXTS + ["", " ", "a ", "=", "// c", "----"]), "spaces and levels"),
        fam("characters", lambda: (f"= {s}\n<< toc" for s in gen.strings(["a", "B", " ", ".", "-", "_", "\u00e9", "1", "*", "\\", "/"], 4 if deep else 3)), "identifiers of all texts of at most 3 (thorough 4) characters"),
        Family("identifiers", lambda: ({"head": f"{l} {t}", "others": ["= A", "== B\n\n= C", "text", "[internal_id=x]\n= Z", "<< toc"]} for l in LEVELS for t in TEXTS if not t.startswith(("{", "[if", "[foot"))), ids,
               "identifiers do not depend on other headers"),
        Family("given", lambda: ({"text": t} for g in ((heads(s, 0) for s in gen.seqs(LEVELS, 5 if deep else 4)), ("\n\n".join(s) for s in gen.seqs(c34.HEADERS, 3 if deep else 2)), (f"{a}= A\n\n{b}== B _x_" for a in ARGS for b in ARGS))
                                  for t in g), c34.check, "the table of contents given with the document"),
        *large.families(PID, tier),
    ]
