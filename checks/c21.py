"""C21: raw and source blocks: lines, line numbers, language, markers, highlighting."""

from mc import gen, large, lock
from mc.core import Family

PID = "C21"
LEVEL = "exploration"
RULE = (
    "Every block of the family is executed by the implementation and by the reference interpreter, the trees (with the parents) "
    "have to be equal; distinct cases have distinct trees."
)
ASSUMPTIONS = []

LINES = ["a", "", " a", "a ", "a:1:", "a:@:", "a:@+:", "a:@-:", "a:@!:", "a:@x:", "a:@own:", ":1:", ":@:", "::", "a::", ":", "a:b", "a:b:c:", "a: 1 :", "a:1: ", "_a_ `b` {v} [m](x)", "= h", "* i", "// c", "////", "[x]", "\\:1:", "a\\:1:", "a:@@:", "a:+:", "@:", "d[1:2]:n:",
         "x = {\"a\": 1}", "\ta:1:", "\u00e9:\u00e9:", "---", "====", "@if v==2", "<< mau:zz", ":v:3", ".l x", "a:@{v}:", "a:{v}:"]
ARGS = ["@source", "@source, python", "@source, language=python", "engine=source", "engine=source, language=x", "engine=source, python", "@source, py, k=v, #t, *s", "@source, marker_delimiter=|", "@source, marker_delimiter=\"||\"", "@source, highlight_marker=#",
        "@source, highlight_marker=\">>\"", "@source, highlight_default_style=zz", "@source, highlight_default_style=+", "@source, marker_delimiter=@", "@source, highlight_marker=:", "@source, marker_delimiter=", "@source, classes=\"a,b\"", "@source, a, b",
        "@source, highlight_marker=", "@source, group=g, position=p", "@source, footnote=f", "@source, {v}", "@source, line=1", "@source, \"\"", "@source, language=", "@source, \" x \"", "@source, engine=raw", "@source, py, marker_delimiter=\" \"", "@source, highlight_default_style="]
MARKED = ["a|1|", "a|@|", "a||1||", "a||@x||", "a:#:", "a:#+:", "a:>>:", "a:>>-:", "a|#|", "a@1@", "a@@@", "a:::", "a:1:", "a||", "a|", "||1||", "a|||1|||", "a||:||", "a:zz:", "a:@zz:"]
ENV = {"v": "1"}
STYLES = {"v": "1", "mau": {"parser": {"source_highlight_style_aliases": {"+": "plus", "new": "fresh", "own": "mine", "default": "dflt", "none": ""}}}}


def check(case):
    expected, _ = lock.agree(case["text"], case["env"], {"r.txt": "x"}, parents=True)
    return lock.outcome(expected)


def families(tier):
    deep = tier == "thorough"

    def fam(name, texts, rule, env=ENV):
        return Family(name, lambda: ({"text": t, "env": env} for t in texts()), check, rule)

    def block(args, lines, d="++++"):
        return f"[{args}]\n{d}\n" + "\n".join(lines) + f"\n{d}"

    return [
        fam("source-lines", lambda: (block("@source", s) for s in gen.seqs(LINES, 3 if deep else 2)), "all source blocks of at most 2 (thorough 3) lines"),
        fam("source-3", lambda: (block("@source, x", s) for s in gen.seqs(["a", "", "a:1:", "a:@:", "a:@+:", " ", "b:b:"], 5 if deep else 4, 3)), "longer source blocks"),
        fam("raw-lines", lambda: (block("engine=raw", s) for s in gen.seqs(LINES, 3 if deep else 2)), "all raw blocks of at most 2 (thorough 3) lines"),
        fam("arguments", lambda: (block(a, s) + t for a in ARGS for s in gen.seqs(LINES[:16] + MARKED, 1) for t in ("", "\n\n[footnote](f)\n\n<< footnotes", "\n\n<< blockgroup:g")), "every argument with every line"),
        fam("arguments-2", lambda: (block(f"@source, {a}, {b}", [l]) for a in ("marker_delimiter=|", "marker_delimiter=\"||\"", "marker_delimiter=#", "marker_delimiter=@", "k=v") for b in ("highlight_marker=#", "highlight_marker=\">>\"", "highlight_marker=|", "highlight_default_style=q", "highlight_marker=a")
                                    for l in LINES[:16] + MARKED + ["a|#|", "a||>>||", "a|#+|", "a||>>x||", "#|#", "a#|#", "a#|+#", "a@|@", "a:|:", "a|||", "a:aa:", "a@a@"]), "pairs of options"),
        fam("markers", lambda: (block(a, [s]) for a in ("@source", "@source, marker_delimiter=aa, highlight_marker=:", "@source, highlight_marker=aa") for s in gen.strings([":", "@", "a", " ", "+"], 7 if deep else 5)), "all lines of at most 5 (thorough 7) characters"),
        fam("aliases", lambda: (block("@source" + a, [l, m]) for a in ("", ", highlight_default_style=+", ", highlight_default_style=own") for l in LINES[:16] + ["a:@new:", "a:@none:"] for m in ("", "a:@:", "a:@default:")), "aliases of styles in the environment", env=STYLES),
        fam("delimiters", lambda: (block(a, s, d) for a in ("@source", "engine=raw") for d in ("----", "====", "aaaa", "::::", "####", "[[[[", "    "[:0] + "....") for s in gen.seqs(["a", d, "---", "aaaaa", "", "////", " " + d, d + " ", "::", "x"], 3)), "contents that look like delimiters"),
        fam("contexts", lambda: (w.replace("{}", block(a, [l])) for a in ARGS[:8] + ["engine=raw", "engine=raw, classes=\"x,y\", k=v", "engine=default", "engine=zz", "engine="] for l in LINES[:12] for w in (
            "----\n{}\n----", ".l x\n{}\n\np", "x\n\n{}\ny", "@if v==1\n{}", "@if v==2\n{}\n\nz", "[isolate=false]\n----\n{}\n----", "[footnote](f)\n\n[footnote=f]\n----\n{}\n----")), "blocks in every context"),
        fam("empty", lambda: (f"[{a}]\n{b}" for a in ARGS + ["engine=raw"] for b in ("----\n----", "----\n\n----", "----\n \n----", "----\n\n\n----", "----\n\na:1:\n\n----", "p", "= h", "<< raw:r.txt", "---", "* i")), "empty blocks and other constructs"),
        *large.families(PID, tier),
    ]
