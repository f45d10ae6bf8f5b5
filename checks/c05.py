"""C05: comments, empty lines, and the end of the text do not change the document."""

from mc import core, gen, impl, large, lock, ref
from mc.core import Family, Violation

PID = "C05"
LEVEL = "exploration"
RULE = (
    "Every insertion of an inert piece in every gap of every document of the family is executed; the tree (without positions) "
    "has to be the tree of the original document and of the reference. Distinct cases have distinct trees."
)
ASSUMPTIONS = []

# Each construct is a list of lines; an empty line cannot be inserted
# between a "+" line and the previous line.
CONSTRUCTS = [
    ["para one"],
    ["para _one_", "+second `x`"],
    ["= head"],
    ["== head", "=== sub"],
    ["* item", "+** sub", "+* item"],
    ["# item", "+#* sub"],
    ["---"],
    ["----", "inner", "+inner", "* l", "----"],
    ["====", "----", "deep", "----", "===="],
    ["[a, b=c]", "host"],
    [".role lab _x_", ".other y", "host"],
    ["@if v==1", "yes"],
    ["@if v==2", "no"],
    ["@if v==2", "[a]", "----", "no", "----"],
    [":w:2", "{w}"],
    ["<< toc"],
    ["<< image:u"],
    ["[u]", "<< image"],
    ["[footnote](n)"],
    ["[footnote=n]", "----", "body", "----"],
    ["<< footnotes"],
    ["<< mau:inc.mau"],
    ["[group=g,position=p]", "----", "x", "----"],
    ["<< blockgroup:g"],
]
# Contents that have to be taken literally.
LITERAL = [
    ["[engine=raw]", "----", "!a", "!", "!// b", "----"],
    ["[@source]", "----", "!a:m:", "!////", "!////", "----"],
]
INERT = {
    "comment": ["// c"], "comment0": ["//"], "comment-syntax": ["//= [x] {u} ----"], "block": ["////", "x", "////"], "block0": ["////", "////"],
    "block-blank": ["////", "", "  ", "////"], "block-syntax": ["////", "//// x", "/////", " ////", "////x", "///", "%%%%", "[a", "{u}", "// c", "@if", "////"], "two": ["// a", "// b"],
}
EMPTY = {"empty": [""], "spaces": ["   "], "two": ["", ""], "mixed": ["", "// c", " ", "////", "c", "////", ""]}
FILES = {"inc.mau": "included\n"}
ENV = {"v": "1"}


def join(parts):
    """The lines of a document, whether an empty line or a
    comment can be put before each of them."""
    lines = []
    gaps = []
    for n, part in enumerate(parts):
        if n:
            lines.append("")
            gaps.append((True, True))
        for m, l in enumerate(part):
            if l.startswith("+"):
                lines.append(l[1:])
                gaps.append((False, True))
            elif l.startswith("!"):
                lines.append(l[1:])
                gaps.append((False, False))
            else:
                lines.append(l)
                gaps.append((True, not (m and part[m - 1].startswith("!"))))
                if m and part[m - 1].startswith("!"):
                    gaps[-1] = (False, False)
    return lines, gaps + [(True, True)]


def outcome_of(text):
    lock.write_files(FILES)
    run = impl.process(text, ENV)
    if run.phase is not None:
        return ["error", run.phase, run.messages[-1][1].text]
    return impl.strip(run.tree)


_last = [None, None]


def check(case):
    base = case["base"]
    if _last[0] != base:
        _last[:] = [base, outcome_of(base)]
    expected, _ = lock.agree(case["text"], ENV, FILES, parents=True)
    core.expect(_last[1], outcome_of(case["text"]), "the tree changes")
    return lock.outcome(expected)


def variations(parts, full=True):
    lines, gaps = join(parts)
    base = "\n".join(lines)
    for g, (empty, comment) in enumerate(gaps):
        inert = {**(INERT if comment else {}), **(EMPTY if empty and comment else {})}
        for name, extra in inert.items():
            if not full and name not in ("comment", "block", "mixed", "spaces"):
                continue
            yield {"base": base, "text": "\n".join(lines[:g] + extra + lines[g:])}
    for end in ("\n", "\n\n", "\n  \n", "\n// c", "\n// c\n", "\n////\n////"):
        yield {"base": base, "text": base + end}
    yield {"base": base, "text": "\n" * 5 + base}


def everywhere(parts):
    """The inert piece in all the gaps at once."""
    lines, gaps = join(parts)
    base = "\n".join(lines)
    for extra in INERT.values():
        out = []
        for l, (_, comment) in zip(lines + [None], gaps):
            if comment:
                out.extend(extra)
            if l is not None:
                out.append(l)
        yield {"base": base, "text": "\n".join(out)}


def families(tier):
    deep = tier == "thorough"
    every = CONSTRUCTS + LITERAL
    return [
        Family("single", lambda: (c for p in every for v in (variations, everywhere) for c in v([p])), check,
               "every insertion in every construct"),
        Family("pairs", lambda: (c for p in gen.seqs(every, 2, 2) for c in (*variations(list(p), deep), *everywhere(list(p)))), check,
               "every insertion in every pair of constructs"),
        Family("triples", lambda: (c for p in gen.seqs(every if deep else every[::2], 3, 3) for c in (*everywhere(list(p)), *(
            variations(list(p), False) if deep else ()))), check, "insertions in every triple of constructs"),
        Family("nested", lambda: ({"base": w.replace("{}", c["base"]), "text": w.replace("{}", c["text"])}
                                  for w in ("++++\n{}\n++++", "++++\na\n\n!!!!\n{}\n!!!!\n++++", "[isolate=false]\n++++\n{}\n++++")
                                  for p in every if not p[0].startswith(("[footnote](", "<< blockgroup"))
                                  for v in (variations, everywhere) for c in v([p])), check,
               "every insertion in every construct inside blocks"),
        gen.lockstep("shapes", lambda: (w.replace("X", "/" * n + s) for n in (1, 2, 3, 4, 5) for s in gen.strings(["/", " ", "x", "\t", "\u00a0", "\\", "="], 4 if deep else 3) for w in (
            "a\n\nX\n\nb", "a\nX\nb", "X", "a\n\nX\nb\n////\nc", "////\nX\n////\nc", "[k]\nX\nb")), "lines that begin with slashes"),
        *large.families(PID, tier),
    ]
