"""C02: the kind of a line depends on its shape only and no text is lost."""

from mc import gen, large, lock
from mc.core import Family, Violation, expect
from mc import impl, ref

PID = "C02"
LEVEL = "exploration"
RULE = (
    "Every document of the family is executed by the implementation and by the reference interpreter, and the trees "
    "(or the errors) have to be equal; distinct cases have distinct trees."
)

SYNTAX = list("=*#.:@</[]- a1{")
LINE_CHARS = list(":=*#@<./[]- a1_+T\t")
PREFIXES = ["", " ", "  ", "=", "==", "= ", "*", "* ", "** ", "# ", "*# ", " * ", "#", ".", ". ", ".a ", ".a1-_ ", ".A ", ":", ":a",
            ":a:", ":a.b:", ":+a:", ":a b:", "@", "@if ", "@if", "@IF ", "@if x==", "<<", "<< ", "<<a", "<< a:", "<< A:", "<< a_#.:", "[",
            "[a", "[]", "/", "//", "///", "////", "-", "--", "---", "----", "-----", "===", "====", "=====", "---- ", " ----",
            " ---", "--- ", " = ", " .a ", " [", " //", " ////", "//// ", " :a:", " << a", "a"]
SUFFIXES = ["", " ", "x", " x", "x y", ":", "]", "] ", "x]", " ==1", "x:y", "//", "----", "-", "*", "  "]

BLOCKS = ["----", "====", "....", "::::", "****", "####", "[[[[", "]]]]", "<<<<", "@@@@", "aaaa", "1111", "\u00e9\u00e9\u00e9\u00e9",
          "////", "---", "-----", "-=-=", "\t\t\t\t"]
BODY = ["", "x", "= h", "* i", "// c", "////", "---", "----", "====", "[a]", ":a:1"]

# One line of each kind, changed in one position.
SHAPES = ["= Head x", "== H", "* item x", "** i", "# item", " * i", "---", "----\nb\n----", "====\n= h\n====", ":var:val x", ":+flag:", ":a.b:", "// note", "////\nb\n////", "[a, b=c]", "[]",
          ".lab text x", ". text", "@if x==1", "@if x!=1", "<< toc", "<< foo:bar", "<<foo", "<< a1_.#:b", "plain text"]
UNUSUAL = ["\t", "\x0b", "\x0c", "\r", "\x1c", "\x85", "\u00a0", "\u2003", "\u2028", "\u200b", "\ufeff", "\x00", "\u00e9", "\u00c9", "\u00df", "\u0130", "\u0660", "\uff11", "\u00b2", "\u2014",
           "\uff1d", "\uff1a", "\u201c", "\U0001f600", "e\u0301", "\\", "_", "-", "A", "0", "$", "'", "&", "!", "~", "^", "%", "|", "\"", "`", "(", "}", ">", ","]


def changed():
    for shape in SHAPES:
        for i in range(len(shape) + 1):
            for c in UNUSUAL:
                for s in (shape[:i] + c + shape[i:], shape[:i] + c + shape[i + 1:]):
                    yield s + "\n\nz"
                    yield "p\n" + s + "\nz"


def families(tier):
    deep = tier == "thorough"
    n = 5 if deep else 4
    return [
        gen.lockstep("line-shapes", lambda: gen.strings(SYNTAX, n), f"all single lines of at most {n} syntax characters",
                     env={"x": "1"}),
        gen.lockstep(
            "lines-in-context",
            lambda: (w(p + s) for p in PREFIXES for s in SUFFIXES for w in (
                lambda s: s, lambda s: "x\n" + s, lambda s: s + "\nx", lambda s: "x\n" + s + "\ny", lambda s: "[k]\n" + s,
                lambda s: "* i\n" + s, lambda s: s + "\n" + s, lambda s: s + "\n\n" + s, lambda s: "====\n" + s + "\n====", lambda s: s + "\n",
                lambda s: "= h\n" + s, lambda s: "\n\n" + s + "\n\n", lambda s: "////\n" + s + "\n////\nz", lambda s: "// c\n" + s + "\n// d",
                lambda s: "<< toc\n" + s, lambda s: ":q:\n" + s)),
            "lines made of one beginning and one end, in 16 places of a document", env={"x": "1"}),
        gen.lockstep("block-delimiters",
                     lambda: ("\n".join(t) for d in BLOCKS for e in BLOCKS for b in BODY
                              for t in ((d, b, d), (d, b, e, b, d), (d, e, b, e, d), (d, e, d, e), ("x", d, b, d, "y"), (d, d), (d, b, e))),
                     "blocks delimited by any character, nested, empty, and unclosed"),
        gen.lockstep("characters", lambda: gen.strings(LINE_CHARS + ["\n"], 4 if deep else 3),
                     "all texts of at most 3 (thorough 4) characters"),
        gen.lockstep("line-sequences",
                     lambda: gen.docs(["", "  ", "x", " y ", "= h", "* i", "# o", "---", "----", "====", "//c", "////", ":a:1",
                                       "[k]", ".l t", "@if x==1", "<< toc", "<< foo:b"], 4 if deep else 3),
                     "all sequences of at most 3 (thorough 4) lines of 18 kinds", env={"x": "1"}),
        gen.lockstep("separators",
                     lambda: (a + s + b for a in ("x", "= h", "* i", "----", "", ":a:1") for b in ("y", "----", "", "= h")
                              for s in ("\n", "\r\n", "\r", "\x0b", "\x0c", "\x85", "\u2028", "\u2029", "\x1c", "\t", "\n\n", "\n\t\n",
                                        "\n \n", "\u00a0", "\n\u00a0\n", "\\\n", "  \n", "\n\n\n")),
                     "only a line feed separates lines"),
        gen.lockstep("unusual-characters", changed, "one line of each kind with one unusual character put, or replaced, at each position", env={"x": "1"}),
        *large.families(PID, tier),
    ]
