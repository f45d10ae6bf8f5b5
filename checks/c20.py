"""C20: blocks are documents of their own, or part of the document when they are not isolated."""

from mc import core, gen, impl, large, lock
from mc.core import Family, Violation

PID = "C20"
LEVEL = "exploration"
RULE = (
    "Every document of the family is executed by the implementation and by the reference interpreter; the trees (with the "
    "parents) and the final variables have to be equal; distinct cases have distinct trees."
)
ASSUMPTIONS = []

ENV = {"v": "1"}
FILES = {"i.mau": "= inc\n\n<< toc"}
PARTS = ["p {v}", "= A", "[name=h]\n== B", "[header](h)", "<< toc", "[footnote](n)", "[footnote=n]\n&&&&\nfn\n&&&&", "<< footnotes", "[group=g,position=p]\n&&&&\ngr\n&&&&", "<< blockgroup:g", ":v:2", "[start=auto]\n# i", "# i\n# j", "@if v==2",
         "[k]", ".l x", "<< mau:i.mau", "&&&&\nq {v}\n\n= In\n&&&&", "[isolate=false]\n&&&&\n= Flat\n\n[header](h)\n&&&&", "---"]
ARGS = ["", "[isolate=true]\n", "[isolate=false]\n", "[isolate=False]\n", "[isolate]\n", "[isolate=false, engine=default]\n", "[engine=default]\n", "[*s, classes=\"a,b\", k=v]\n", "[classes=a]\n", "[classes=]\n", "[@source]\n", "[engine=raw]\n",
        ".l lab\n", "@if v==2\n", "[isolate=false, classes=\"x,,y \"]\n", "[group=g, position=q]\n", "[footnote=z]\n", "[isolate=false, group=g, position=q]\n"]


def check(case):
    expected, _ = lock.agree(case["text"], ENV, FILES, parents=True, compare_env=True)
    return lock.outcome(expected)


def alone(case):
    """The content of an isolated block is the content of the same text alone."""
    inner = case["inner"]
    lock.write_files(FILES)
    base = impl.process(inner, ENV)
    for before, after in case["around"]:
        run = impl.process(f"{before}----\n{inner}\n----{after}", ENV)
        if (run.phase is None) != (base.phase is None):
            raise Violation(f"alone {base.phase}, in a block {run.phase} ({(run.messages or base.messages)[-1][1].text})")
        if run.phase is None:
            found = next(n for n in run.tree["content"] if n["_type"] == "block")
            core.expect(impl.strip(base.tree.get("content", []), False), impl.strip(found["content"], False), "the content of the block")
        else:
            core.expect(base.messages[-1][1].text, run.messages[-1][1].text, "the error")
    return impl.strip(base.tree, False) if base.phase is None else base.messages[-1][1].text


def families(tier):
    deep = tier == "thorough"

    def fam(name, texts, rule):
        return Family(name, lambda: ({"text": t} for t in texts()), check, rule)

    around = [["", ""], ["= Out\n\n[name=h]\n= H2\n\n", "\n\n<< toc"], ["[footnote=n]\n****\no\n****\n\n# a\n# b\n\n", "\n\n<< footnotes"], ["[group=g,position=p]\n****\no\n****\n\n", "\n\n<< blockgroup:g\n\n[footnote=n]\n****\no\n****"]]
    return [
        fam("split", lambda: ("\n\n".join(o for o in ("\n\n".join(s[:i]), a + "----\n" + "\n\n".join(s[i:j]) + "\n----", "\n\n".join(s[j:])) if o) for s in gen.seqs(PARTS, 3 if deep else 2) for i in range(len(s) + 1) for j in range(i, len(s) + 1)
                              for a in ARGS), "every sequence of parts with a piece of it in a block"),
        fam("split-3", lambda: ("\n\n".join(s[:1]) + f"\n\n{a}----\n" + "\n\n".join(s[1:]) + "\n----" + t for s in gen.seqs(PARTS[:12], 3, 3) for a in ARGS[:3:2] for t in ("", "\n\n<< toc\n\n<< footnotes")), "longer sequences"),
        fam("nested", lambda: (f"{x}\n\n[isolate={a}]\n----\n{y}\n\n[isolate={b}]\n====\n{z}\n====\n\n{w}\n----\n\n{u}" for a in ("true", "false") for b in ("true", "false") for s in [PARTS[:9] + PARTS[10:12]] for x in s[::2] for y in s for z in s for w in s[:6:2]
                               for u in ("<< toc", "[header](h)", "[footnote](n)")) if deep else (
            f"{x}\n\n[isolate={a}]\n----\n{y}\n\n[isolate={b}]\n====\n{z}\n====\n----\n\n{u}" for a in ("true", "false") for b in ("true", "false") for x in PARTS[:8] for y in PARTS[1:9] for z in PARTS[1:9]
            for u in ("<< toc", "[header](h)", "[footnote](n)")), "blocks in blocks"),
        fam("classes", lambda: (f"[classes={q}{'|'.join(c).replace('|', s)}{q}]\n{b}" for q in ("", "\"") for s in (",", ", ", " ", ";") for c in gen.seqs(["a", "b c", "", " "], 3) for b in ("----\nx\n----", "----\n----", "p", "[engine=raw]\n----\nx\n----")), "classes"),
        fam("bodies", lambda: (f"{x}\n\n[footnote=f, isolate={a}]\n----\n{y}\n\n{z}\n----\n\n{u}" for a in ("true", "false") for x in ("", *PARTS[:11], "[isolate=false]\n&&&&\n[footnote](f)\n&&&&") for y in (*PARTS[:11], *PARTS[16:]) for z in (*PARTS[:11], *PARTS[17:19])
                            for u in ("[footnote](f)", "[footnote](f)\n\n<< toc", "[footnote](f) [header](h)", "[footnote](n)\n\n<< footnotes", "[footnote=n]\n----\nx\n----", "[name=h]\n= H")[:6 if deep else 4]), "the bodies of footnotes"),
        Family("isolated", lambda: ({"inner": "\n\n".join(s), "around": around} for s in gen.seqs([p for p in PARTS if "start=auto" not in p], 3 if deep else 2)), alone, "an isolated block does not depend on what surrounds it"),
        Family("isolated-3", lambda: ({"inner": "\n\n".join(s), "around": around[1:]} for s in gen.seqs(["= A", "[header](h)", "[name=h]\n= H", "[footnote](n)", "[footnote=n]\n&&&&\nx\n&&&&", "<< toc", "[start=auto]\n# z", "# z", "<< blockgroup:g"], 3, 3)), alone,
               "longer isolated blocks"),
        *large.families(PID, tier),
    ]
