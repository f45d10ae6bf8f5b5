"""C14: inline macros: the node of each macro and its arguments."""

from mc import gen, large, lock
from mc.core import Family

PID = "C14"
LEVEL = "exploration"
RULE = (
    "Every macro of the family is executed by the implementation and by the reference interpreter, the trees (with the parents) "
    "have to be equal; distinct cases have distinct trees."
)
ASSUMPTIONS = []

NAMES = ["link", "mailto", "image", "class", "unicode", "raw", "header", "footnote", "m", "custom-name", "Link", "links", "x y", "1"]
ARGS = ["a", "b c", "_s_", "\"a, _b_ c\"", "`v`", "\"[link](x, y)\"", "text=t", "target=u", "email=e", "uri=i", "alt_text=\"x y\"", "width=1", "height=2", "value=w", "name=n", "header_id=n", "k=v", "#t", "*s", "",
        "\"\"", " ", "\"\\\"q\\\"\"", "\\)", "a=b", "@source", "classes=c", "https://x.y/z?q=1&r", "&amp;", "\"_\"", "\"`\""]
VALUES = ["mailto:a@b", "MAILTO:a", "mailto:", "http://a", "https://A.B/c?d#e", "//a", "/a", "./a", "a/../b", "#a", "?b", "a%20b", "a b", "U+263A", "u263a", "0x263A", "&#9786;", "263a", "&lt;", "<b>", "a'b", "\u00e9", "\u65e5", "\U0001f600", "100", "10px", "0", "-1", "01", "1.50",
          "None", "true", "A", "a@b@c", "file:a", "javascript:a", "a;b", "a|b", "a.", ".a", "a\tb", "\t", "footnote", "link", "text", "a" * 100]
TAIL = "\n\n[name=n]\n= Head _h_\n\n[footnote=n]\n----\nbody\n----\n\n[name=a]\n== A\n\n[footnote=a]\n----\nb\n----"
INNER = ["x", "_x_", "`x`", "[m](y)", "[unicode](y)", "[footnote](a)", "[header](a)", "[if:v==1](p, q)", "[link](u)", "[class](y, d)", " ", "\\_", "$_$", "*", "[", "]", "(", ", ", "=", "[image](i)"]


def check(case):
    expected, _ = lock.agree(case["text"], {"v": "1"}, parents=True)
    return lock.outcome(expected)


def families(tier):
    deep = tier == "thorough"

    def fam(name, texts, rule):
        return Family(name, lambda: ({"text": t} for t in texts()), check, rule)

    tail = lambda t: t + TAIL if ("[header]" in t or "[footnote]" in t) else t
    return [
        fam("macros", lambda: (tail(f"[{n}]({s.join(a)})") for n in NAMES for s in ([", ", ","] if deep else [", "]) for a in gen.seqs(ARGS, 3 if deep else 2)), "every macro with at most 2 (thorough 3) arguments"),
        fam("macros-3", lambda: (f"[{n}]({', '.join(a)})" for n in NAMES[:6] for a in gen.seqs(["a", "_s_", "text=t", "k=v", "#t", "\"b, c\"", "alt_text=z", "width=3"], 4, 3)), "longer lists of arguments"),
        fam("places", lambda: (tail(t) for t in gen.in_contexts(lambda: (f"{p}[{n}]({a}){q}" for n in NAMES for a in ARGS for p, q in (("", ""), ("x_", "_y"), ("_", "_"))))), "every macro in every place"),
        fam("nested-text", lambda: (tail(f"[{n}](\"{''.join(s)}\"{m})") for n, m in (("class", ", c"), ("class", ""), ("link\x00", "")) if "\x00" not in n for s in gen.seqs(INNER, 3 if deep else 2)), "markup in the text of the class macro"),
        fam("nested-text-2", lambda: (tail(f"[{n}]({u}, \"{''.join(s)}\")") for n, u in (("link", "u"), ("mailto", "u"), ("header", "n"), ("if:v==1", "\"[m](k)\""), ("if:v!=1", "f")) for s in gen.seqs(INNER, 3 if deep else 2)),
            "markup in the text of other macros"),
        fam("nested-twice", lambda: (tail(f"[class](\"[class](\\\"{s}\\\", c) {t}\", d)") for s in INNER for t in INNER), "macros in macros in macros"),
        fam("characters", lambda: (f"[{s}" for s in gen.strings(["m", "]", "(", ")", "\"", "\\", "[", "_", ",", " ", "`"], 6 if deep else 5)), "all texts of at most 5 (thorough 6) characters after a bracket"),
        fam("similar-names", lambda: (tail(t) for t in gen.in_contexts(lambda: (f"[{s}]({a})" for b in ("if", "ifeval", *NAMES[:8], "if:v==1", "ifeval:v==1", "if:zz", "ifx:v==1", "ifeval:v", "if:v!=1") for s in dict.fromkeys((b, b + "x", "x" + b, b.upper(), b.capitalize(), b[:-1], b + "s", b + "rame", b + " ", " " + b, b + ":", ":" + b, b + "-b", b + "_b", b + "1", b * 2, b + "#", b + ".a"))
            for a in ("a", "v, v", "n, \"t\"")))), "names that begin like the ones of the predefined macros"),
        fam("names", lambda: (f"[{s}](a)" for s in gen.strings(list("ab:-_. *\\`={}1\"$[]("), 3)), "all names of at most 3 characters"),
        fam("sequences", lambda: (tail("".join(s)) for s in gen.seqs(["[m](a)", "[link](u, _t_)", "[class](x, c)", "[unicode](v)", "x", "_", "[image](i)", "[footnote](a)", "[header](n)", "[raw](<b>)", "\\[m](a)", "[m](", ")"], 4 if deep else 3)),
            "sequences of macros"),
        fam("values", lambda: (f"[{n}]({a.replace('V', v).replace('W', w)})" for n in NAMES if n not in ("header", "footnote") for v in VALUES for a, ws in (("V", VALUES[:1]), ("V, t", VALUES[:1]), ("\"V\"", VALUES[:1]), ("u, V", VALUES[:1]), ("k=V", VALUES[:1]), ("u, t, V, W", VALUES if deep else VALUES[::7]))
                            for w in ws), "values that look like something else"),
        *large.families(PID, tier),
    ]
