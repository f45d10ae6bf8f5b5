"""C06: inline markup: styles, verbatim, literal text, and plain text when the markup is not complete."""

from mc import gen, large

PID = "C06"
LEVEL = "exploration"
RULE = (
    "Every text of the family is executed by the implementation and by the reference interpreter, the trees have to be equal; "
    "distinct cases have distinct trees."
)
ASSUMPTIONS = []

CHARS = list("_*^~`$%\\ a[]()\"") + ["bc"]
MARKS = ["_", "*", "^", "~", "`", "$", "%", "\\", " ", "a", "b"]
STYLE = ["_", "*", "^", "a", " "]
PIECES = ["_a_", "*b*", "^c^", "~d~", "`e`", "$f$", "%g%", "_", "*", "`", "$", "\\_", "\\`", "\\\\", " ", "x", "[m](a)", "[m", "](", ")",
          "_*i*_", "*_j_ k*", "`_*`", "$`$", "_`_`_", '"q"']
UNICODE = ["\u00e9", "\U0001f600", "\u3042", "\u00a0", "\t", "e\u0301", "0", "-", "=", "#", ":", "@", "<", ">", "&", "/", ".", ",", "|", "{{q}}", "\\{", "'"]


def families(tier):
    deep = tier == "thorough"
    return [
        gen.lockstep("characters", lambda: gen.strings(CHARS, 5 if deep else 4), "all texts of at most 4 (thorough 5) characters"),
        gen.lockstep("styles", lambda: gen.strings(STYLE, 9 if deep else 7), "all texts of at most 7 (thorough 9) style characters"),
        gen.lockstep("two-styles", lambda: gen.strings(["_", "*", "a"], 11 if deep else 9, 8), "longer texts with two styles"),
        gen.lockstep("literals", lambda: gen.strings(["`", "$", "\\", "_", "a"], 8 if deep else 6), "verbatim, escaped text and backslashes"),
        gen.lockstep("pieces", lambda: gen.strings(PIECES, 4 if deep else 3), "all texts of at most 3 (thorough 4) pieces"),
        gen.lockstep("contexts", lambda: gen.in_contexts(lambda: gen.strings(PIECES, 3 if deep else 2)), "all texts of at most 2 (thorough 3) "
                     "pieces in all places"),
        gen.lockstep("marks-in-contexts", lambda: gen.in_contexts(lambda: gen.strings(MARKS, 4 if deep else 3), (
            "header", "list-item", "label", "block", "footnote-body")), "all texts of at most 3 marks in the main places"),
        gen.lockstep("lines", lambda: ("\n".join(s) for s in gen.seqs(["_a", "a_", "_a_", "`b", "b`", "*", "\\", "[m](", ")", "a ", "  "], 3, 2)),
                     "markup does not extend to other lines"),
        gen.lockstep("unicode", lambda: (w.replace("X", s) for s in gen.strings(UNICODE + ["_", "`"], 2) for w in
                                         ("X", "_X_", "`X`", "$X$", "\\X", "aXb", "[m](X)", "_aX", "X _b_ X")), "other characters are text"),
        gen.lockstep("nesting", lambda: ("".join(s[:d]) + "x" + "".join(reversed(s[:d])) + tail for s in gen.seqs(["_", "*", "^", "~"], 6, 6)
                                         for d in range(1, 7) for tail in ("", "_", " y*")) if deep else
                     ("".join(s) + "x" + "".join(reversed(s)) + tail for n in range(1, 6) for s in gen.seqs(["_", "*", "^", "~"], n, n) for tail in ("", "_", " y*")),
                     "styles inside styles"),
        gen.lockstep("long", lambda: (" ".join([p] * n) + q for p in PIECES for q in ("", "_", "`", "_z_") for n in (1, 2, 3, 10, 33)), "long lines"),
        gen.lockstep("distance", lambda: (m.join(("", "a" + "".join(fill * n))) + tail for m in "_*`$" for fill in ("\\a", "-b ", "^c^", "(", " d") for n in range(0, 280 if deep else 140)
                                          for tail in ("_e_", "*e*", " `e` *f_ ")), "a mark, and complete markup at each distance from it"),
        gen.lockstep("long-lines", lambda: (b.join([a, c]) for n in (5, 11, 12, 21, 22, 33) for b in ("\n", "\n\n", "\n\n* ") for m in ("_", "*", "_a*", "`", "[m](_") for p in range(0, n, 1 if deep else 4)
                                            for a in ["$ " * p + m + " ( " * (n - p)] for c in ("_a_ " * n, "x *b* " * n, "\\x" * p + "_a_ *b* ^c^", "[class](" + "_a_ " * n + ", c)")), "pairs of long lines"),
        *large.families(PID, tier),
    ]
