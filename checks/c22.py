"""C22: included files: content, variables, recursion, missing files."""

import os

from mc import core, gen, impl, large, lock, ref
from mc.core import Family, Violation

PID = "C22"
LEVEL = "exploration"
RULE = (
    "Every set of files of the family is executed by the implementation and by the reference interpreter; the trees (with the "
    "parents) and the final variables have to be equal; distinct cases have distinct trees."
)
ASSUMPTIONS = []

ENV = {"v": "1", "f": "a.mau"}
INCLUDES = ["<< mau:a.mau", "[a.mau]\n<< mau", "<< mau:uri=a.mau", "<< mau:{f}", "<< mau:a.mau, pass_environment=false", "<< mau:a.mau, pass_environment=true", "<< mau:a.mau, pass_environment=no", "<< mau:a.mau, call:v=9", "<< mau:a.mau, call:v=9, call:w=8", "<< mau:a.mau, call:v=9, k=z, pass_environment=false",
            "<< mau:a.mau, #t, *s, k=v", "[a.mau, k=v]\n.l x\n<< mau", "@if v==1\n<< mau:a.mau", "@if v==2\n<< mau:a.mau", "<< mau:\"a.mau\"", "<< mau:d/b.mau", "<< mau:zz.mau", "<< mau:d", "<< mau", "<< mau:", "<< mau:a.mau, b.mau", "<< mau:call:v=1", "<< mau:main.mau", "<< mau:a.mau ",
            "<< mau: a.mau", "<< raw:a.mau", "[a.mau]\n<< raw", "<< raw:a.mau, *s, k=v", "<< raw:zz", "<< raw:{f}", "<< raw", "@if v==2\n<< raw:zz", "[x]\n<< raw:a.mau", "<< raw:main.mau", "<< mau:a.mau, call:x.y=3", "<< mau:a.mau, call:=3", "<< mau:a.mau, recall:v=9", "<< mau:a.mau, k:call:v=9", "<< mau:a.mau, call=9, call:v=8", "<< mau:a.mau, Call:v=9", "<< mau:a.mau, call:call:v=9", "<< mau:a.mau, \"call:v=9\"", "<< mau:A.MAU"]
CONTENTS = ["", "\n", "inc", "inc {v}", "inc {w}", ":v:2\n{v}", ":w:3", "= H\n\n<< toc", "[name=h]\n= H", "[header](h)", "[footnote](n)\n\n[footnote=n]\n----\nx\n----\n\n<< footnotes", "* i\n** j", "----\n{v}\n----", "[k]", ".l x", "@if v==9\nnine", "@if v==1", "<< raw:r.txt", "<< mau:d/b.mau",
            "<< mau:a.mau", "<< mau:main.mau", "----", "////", "{x.y}", "[group=g,position=p]\n----\nx\n----", "[start=auto]\n# i", "a\nb\n\n", " a ", "\u00e9", "<< blockgroup:g", "// c"]
BEFORE = ["", "= M\n\n", "{v}\n\n", ":w:5\n", "# i\n\n", "[name=h]\n= h\n\n", "x\n\n<< mau:d/b.mau\n\n", ":x.y:1\n"]
AFTER = ["", "\n\n{v}", "\n\n<< toc", "\n\n[start=auto]\n# z", "\n\n[header](h)", "\n\n<< blockgroup:g", "\n\ny\n\n<< mau:d/b.mau", "\n\n{x.y}"]


def check(case):
    files = {"r.txt": "r1\n r2 {v}\n", "d/b.mau": "sub {v}", **case["files"]}
    expected, run = lock.agree(case["text"], ENV, files, parents=True, compare_env=True)
    return lock.outcome(expected)


def graph(case):
    """Files that include each other: recursion is an error, anything else is not."""
    edges = case["edges"]
    names = ["main.mau"] + [f"f{i}.mau" for i in range(1, len(edges))]
    files = {}
    spell = iter(case.get("spell", []))
    if "spell" in case:
        files["d/x"] = ""
    for i, e in enumerate(edges):
        files[names[i]] = f"F{i} {{v}}\n\n" + "\n\n".join((f"----\n<< mau:{names[j]}\n----" if case["block"] else "<< mau:" + next(spell, "{}").format(names[j])) for j in e) + f"\n\nE{i}"
    expected, run = lock.agree(files["main.mau"], ENV, files)

    def cyclic(i, path):
        return i in path or any(cyclic(j, path + [i]) for j in edges[i])

    if cyclic(0, []) != (run.phase is not None):
        raise Violation(f"recursion: {cyclic(0, [])}, error: {run.phase}")
    if run.phase is not None and "recursion" not in run.messages[-1][1].text:
        raise Violation(f"error {run.messages[-1][1].text}")
    return lock.outcome(expected)


def linked(case):
    """Files that include each other through symbolic links."""
    edges, spell = case["edges"], iter(case["spell"])
    names = ["main.mau"] + [f"f{i}.mau" for i in range(1, len(edges))]
    files = {"d/x": ""}
    for i, e in enumerate(edges):
        files[names[i]] = f"F{i} {{v}}\n\n" + "\n\n".join("<< mau:" + next(spell).format(names[j]) for j in e) + f"\n\nE{i}"
    lock.write_files(files)
    links = {}
    for n in names:
        links.update({"s" + n: n, "d/t" + n: "../s" + n})
    links["e"] = "d"
    try:
        for link, target in links.items():
            os.symlink(target, link)
        run = impl.process(files["main.mau"], ENV)
    finally:
        for link in links:
            if os.path.islink(link):
                os.unlink(link)

    def cyclic(i, path):
        return i in path or any(cyclic(j, path + [i]) for j in edges[i])

    if cyclic(0, []):
        if run.phase != "parser" or "recursion" not in run.messages[-1][1].text:
            raise Violation(f"files include each other and the result is {run.phase} {[m.text[:200] for p, m in run.messages]}")
        return "recursion"
    # Without recursion a link is the same as a copy of the file.
    copies = dict(files)
    for n in names:
        copies["s" + n] = copies["d/t" + n] = copies["e/t" + n] = files[n]
    expected = ref.interpret(files["main.mau"], ENV, copies, "main.mau")
    lock.compare(expected, run)
    return lock.outcome(expected)


def families(tier):
    deep = tier == "thorough"
    subsets = lambda n: [[j for j in range(n) if m >> j & 1] for m in range(1 << n)]

    def graphs():
        for n in (1, 2, 3):
            for e in gen.seqs(subsets(n), n, n):
                for b in (0, 1):
                    yield {"edges": list(e), "block": b}
        # The order and the repetition of inclusions.
        for e in gen.seqs([[], [1], [2], [1, 2], [2, 1], [1, 1], [2, 2], [1, 2, 1]], 3, 3):
            yield {"edges": list(e), "block": 0}
        if deep:
            for e in gen.seqs(subsets(4), 4, 4):
                yield {"edges": list(e), "block": 0}

    def cycles():
        # A chain of files whose last one includes one of the others.
        for n in (*range(4, 17), *((24, 32, 48) if deep else (24,))):
            for k in [None, *range(n)]:
                for b in (0, 1):
                    edges = [[i + 1] for i in range(n - 1)] + [[] if k is None else [k]]
                    yield {"edges": edges, "block": b}
                    # The files of the chain are included more than once.
                    if k is not None and k + 2 < n:
                        yield {"edges": [e + [n - 1] * (i % 3 == 0) for i, e in enumerate(edges[:-1])] + [[]], "block": b}

    def paths():
        spell = ["{}", "./{}", "d/../{}", "././{}", "./d/.././{}"]
        for n, style in ((1, spell), (2, spell[:4])):
            for e in gen.seqs(subsets(n), n, n):
                for s in gen.seqs(style, sum(map(len, e)), sum(map(len, e))):
                    yield {"edges": list(e), "block": 0, "spell": list(s)}
        # Paths that grow at each inclusion.
        for grow in ("./{p}", "d/../{p}", "{p}", "./././{p}"):
            for inner in (f"[{grow}, call:p={grow}]\n<< mau", f":p:{grow}\n\n<< mau:{{p}}", f"----\n[{grow}, call:p={grow}]\n<< mau\n----", f"<< mau:{grow}, call:p={grow}", f"<< mau:./b.mau, call:p={grow}"):
                yield {"text": "[call:p=a.mau, uri=a.mau]\n<< mau", "files": {"a.mau": inner, "b.mau": "<< mau:{p}"}}

    def links():
        style = ["{}", "s{}", "d/t{}", "e/t{}"]
        for n in (1, 2, 3) if deep else (1, 2):
            for e in gen.seqs(subsets(n), n, n):
                total = sum(map(len, e))
                for s in gen.seqs(style, total, total) if total < 5 else ([style[(i + k) % 4] for i in range(total)] for k in range(4)):
                    yield {"edges": list(e), "spell": list(s)}
        if not deep:
            for e in gen.seqs(subsets(3), 3, 3):
                total = sum(map(len, e))
                for k in range(4):
                    for step in (1, 3):
                        yield {"edges": list(e), "spell": [style[(i * step + k) % 4] for i in range(total)]}

    def path(case):
        if "edges" in case:
            return graph(case)
        expected, run = lock.agree(case["text"], ENV, {"d/b.mau": "x", **case["files"]})
        return lock.outcome(expected)

    def fam(name, cases, rule):
        return Family(name, cases, check, rule)

    return [
        fam("includes", lambda: ({"text": b + i + a, "files": {"a.mau": c}} for i in INCLUDES for c in CONTENTS for b in BEFORE for a in AFTER) if deep else (
            {"text": b + i + a, "files": {"a.mau": c}} for i in INCLUDES for c in CONTENTS for b, a in [("", ""), *((b, "") for b in BEFORE[1:4]), *(("", a) for a in AFTER[1:4]), *zip(BEFORE[1:], AFTER[1:])]), "every include with every content"),
        fam("blocks", lambda: ({"text": w.replace("{}", i), "files": {"a.mau": c}} for i in INCLUDES for c in CONTENTS for w in ("++++\n{}\n++++", "[isolate=false]\n++++\n{}\n++++\n\n<< toc", "[footnote](q)\n\n[footnote=q]\n++++\n{}\n++++", "@if v==1\n++++\n{}\n++++", "* i\n\n{}\n\n* j",
                                                                                                               "x\n{}\ny")), "includes in blocks"),
        fam("two", lambda: ({"text": f"{i}\n\n{{v}}\n\n{j}", "files": {"a.mau": c}} for i in INCLUDES[:16] for j in INCLUDES[:16] for c in CONTENTS[::2]), "two includes of the same file"),
        fam("chains", lambda: ({"text": f"<< mau:a.mau{o}\n\n{{v}}", "files": {"a.mau": f"{x}\n\n<< mau:b.mau{p}\n\n{{v}}", "b.mau": f"{y}\n\n<< mau:c.mau{q}\n\n{{v}}", "c.mau": z}} for z in CONTENTS[2:18:2] for x in (":v:2", "a") for y in (":v:3", "b")
                               for o in ("", ", call:v=7", ", pass_environment=false, call:v=8") for p in ("", ", call:v=7", ", pass_environment=false, call:v=8") for q in ("", ", call:w=7", ", pass_environment=false, call:v=8, call:w=1")), "chains of includes and their variables"),
        Family("recursion", graphs, graph, "all the graphs of inclusions among at most 3 (thorough 4) files"),
        Family("cycles", cycles, graph, "chains of inclusions of any length that are closed at any point"),
        Family("paths", paths, path, "files that include each other with all spellings of their paths"),
        Family("links", links, linked, "files that include each other through symbolic links"),
        fam("lines", lambda: ({"text": "<< raw:a.mau\n\n<< mau:a.mau", "files": {"a.mau": s}} for s in gen.strings(["a", "\n", " ", "_", "// c", "----", "\u00e9", "\t"], 5 if deep else 4, 0)), "raw and Mau inclusion of all contents of at most 4 (thorough 5) pieces"),
        *large.families(PID, tier),
    ]
