"""C01: every text is either processed or rejected with one error message."""

from mc import core, gen, impl, lock
from mc.core import Family, Violation
from mau.visitors.jinja_visitor import JinjaVisitor
from mau.visitors.yaml_visitor import YamlVisitor

PID = "C01"
LEVEL = "exploration"
RULE = (
    "All character sequences and all line sequences up to the stated lengths are processed; a case is "
    "non-trivial when it produces a tree or an error, distinct cases have distinct trees or error texts."
)
ASSUMPTIONS = [
    "20 seconds of CPU time for texts shorter than 1 KiB count as no answer",
    "how deep a structure can be before it is rejected is not specified (the Python recursion limit)",
]

FILES = {"f.mau": "= F\n\ntext {v}\n", "r.txt": "a\n\nb"}


def total(case):
    lock.write_files(FILES)
    run = impl.process(case["text"], case.get("env"))
    if run.phase is None:
        if any(p != "debug" for p, _ in run.messages):
            raise Violation("an error was reported but the run succeeded")
        if not isinstance(run.tree, dict):
            raise Violation(f"the result is {run.tree!r}")
        return impl.strip(run.tree, False) or None
    errors = [m for p, m in run.messages if p != "debug"]
    if len(errors) != 1:
        raise Violation(f"{len(errors)} messages for one error")
    if not errors[0].text:
        raise Violation("an error without text")
    return "error " + errors[0].text


def rendered(case):
    """Other visitors do not fail on what the base visitor accepts."""
    lock.write_files(FILES)
    out = []
    for visitor in (YamlVisitor, JinjaVisitor):
        env = dict(case.get("env") or {})
        if visitor is JinjaVisitor:
            env.update(TEMPLATES)
        run = impl.process(case["text"], env, visitor=visitor)
        if run.phase is not None:
            errors = [m for p, m in run.messages if p != "debug"]
            if len(errors) != 1:
                raise Violation(f"{len(errors)} messages for one error")
            out.append("error " + errors[0].text)
        else:
            out.append(run.tree if isinstance(run.tree, str) else repr(run.tree))
    return out


KINDS = (
    "block blockgroup blockgroup-item document footnote footnotes footnotes-item header horizontal-rule include "
    "include-image include-mau include-raw label list list-item macro macro-class macro-footnote macro-header "
    "macro-image macro-link macro-raw macro-unicode paragraph paragraph-line raw raw-line source source-line "
    "source-marker style text toc toc-item verbatim value wrapper word"
).split()
TEMPLATES = {
    "mau": {"visitor": {"templates": {"custom": {f"{k}.j2": "({{ content }}{{ value }})" for k in KINDS}}}}
}

CHARS = list("[](){}_*`\\\"$:=.#@</-, a1\n")
WORDS = ["[", "]", "(", ")", "{", "}", "_", "*", "~", "`", "\\", '"', "$", "%", " ", ",", "=", "a", "if:", "==", "link",
         "footnote", "\n"]
ODD = ["\t", "\r", "\x00", "\x0b", "\x0c", "\x1c", "\x85", "\u2028", "\u00a0", "\ufeff", "\u0660", "\u00e9",
       "\U0001f600", "\u0301"]

LINES = [
    "", " ", "  x", "text", "{v}", "{u}", "// c", "////", "---", "----", "====", "@if v==1", "@if v!=1", "@if u==1", "@if",
    "@x v==1", "@if v", ":v:2", ":+f:", ":n:", ":n", "[a, b=c]", "[#t, *s]", "[@source]", "[@zz]", "[engine=raw]",
    "[engine=zz]", "[footnote=n]", "[isolate=false]", "[group=g, position=p]", "[name=h]", "[start=auto]", "[start=x]",
    "[a", "[\"]", ".", ".r t", ". [footnote](n)", "* i", "** i", "# i", "## i", "*", "= H", "=", "==",
    "<< toc", "<< footnotes", "<< toc:", "<< mau:f.mau", "<< mau:nofile", "<< mau:.", "<< raw:r.txt", "<< raw",
    "<< blockgroup:g", "<< blockgroup", "<< image:u", "<< image", "<< foo:a", "<< foo bar", "<<", "[footnote](n)",
    "[header](h)", "[if:v==1](a)", "[if:](a)", "[link]()", "[class](a, b)", "c:1:", "[raw]()",
]


HEADER_LINKS = ["H", "[header](a)", "[header](b)", "[header](a, x)", "_[header](b)_", "[header](b, \"[header](a)\")", "[class](\"[header](a)\", c)", "[if:v==1](\"[header](b)\")", "[link](u, \"[header](a)\")",
                "[header](b) [header](a)", "[footnote](n)", "[header](zz)"]


def nested(depth):
    """Deep structures of every kind."""
    delimiters = [c * 4 for c in "=*+-_~^!?&|;%$abcdefghijklmnopqrstuvwxyz"]
    yield "\n".join(delimiters[:depth] + ["x"] + delimiters[:depth][::-1])
    yield "\n".join(delimiters[:depth])
    yield "\n".join("*" * i + " x" for i in range(1, depth + 1))
    yield "\n".join("#" * i + " x" for i in range(depth, 0, -1))
    yield "\n".join("=" * i + " H" for i in range(1, depth + 1)) + "\n\n<< toc"
    yield "_*" * depth + "x" + "*_" * depth
    for p in ("_*", "_*^~", "_*^", "`$%", "_[a](", "[m](_", '["', "{", "{{", "}", "\\", "[link](", '[link]("', "_a*b^c~d ",
              '[class]("', "(", "[if:a==b](", "*_a ", "$_", "\\_*"):
        yield p * depth
        yield p * depth + "x" + ")" * depth
    yield ",".join(["a"] * depth).join("[]") + "\np"
    yield "".join(f"[footnote=n{i}]\n----\nx\n----\n\n" for i in range(depth)) + "".join(
        f"[footnote](n{i})" for i in range(depth)) + "\n\n<< footnotes"


def families(tier):
    deep = tier == "thorough"
    env = {"v": "1"}
    fams = []

    def family(name, check, texts, rule):
        fams.append(Family(name, lambda: ({"text": t, "env": env} for t in texts()), check, rule))

    family("characters", total, lambda: gen.strings(CHARS, 4 if deep else 3, 0),
           f"all texts of at most {4 if deep else 3} characters out of {len(CHARS)}")
    family("inline", total, lambda: gen.strings(WORDS, 4 if deep else 3),
           f"all texts of at most {4 if deep else 3} pieces out of {len(WORDS)}")
    family("macro-arguments", total,
           lambda: (f"[{m}]({t})" for m in ("m", "link", "class", "if:v==1", "ifeval:v!=1", "header", "image")
                    for t in gen.strings(["a", '"', "\\", ",", "=", " ", ")", "#", "*", "@"], 4 if deep else 3, 0)),
           "all macro arguments of at most 3 (thorough 4) pieces")
    family("arguments", total,
           lambda: (f"[{t}]\n{h}" for t in gen.strings(["a", '"', "\\", ",", "=", " ", "{v}", "#", "*", "@", "#mau:x"],
                                                       4 if deep else 3, 0)
                    for h in ("p", "----\nx\n----")),
           "all boxed arguments of at most 3 (thorough 4) pieces")
    family("lines", total, lambda: gen.docs(LINES, 3 if deep else 2),
           f"all documents of at most {3 if deep else 2} lines out of {len(LINES)} kinds")
    short = ["", "text", "----", "@if v!=1", ":v:2", "[a, b=c]", "[footnote=n]", "[isolate=false]", "[group=g, position=p]",
             "[name=h]", ".r t", "* i", "## i", "= H", "<< toc", "<< footnotes", "<< blockgroup:g", "[footnote](n)",
             "[header](h)", "<< mau:f.mau", "[engine=source]", "c:1:"]
    family("lines-3", total, lambda: gen.docs(short, 4 if deep else 3, 3),
           "all documents of 3 (thorough 4) lines out of the main kinds")
    family("odd-characters", total,
           lambda: (w.replace("X", t) for w in ("X", "aX", "Xa", "= X", "* X", "[X]\np", "[aX,b=X]\np", ":X:a", ":a:X", "{X}",
                                                ".X t", ".t X", "@if v==X", "@X", "<< X", "<< raw:X", "<< mau:X", "X" * 4 + "\nX\n" + "X" * 4,
                                                "////\nX\n////", "//X", "---X", "[m](X)", "[X](a)", "`X`", "_X_", "\\X",
                                                "[link](X, X)", "[@source, X]\n----\nX:X:\n----")
                    for t in gen.strings(ODD + ["a", " "], 2)),
           "unusual characters in every position of the syntax")
    family("deep", total, lambda: (t for d in ((1, 5, 10, 20, 30, 40, 60, 80, 100, 120, 150, 200, 300) if deep else (5, 20, 40, 100, 200))
                                for t in nested(d)),
           "deep and long structures")
    family("deep-visitors", rendered, lambda: (t for d in ((20, 40, 60, 80, 100, 150, 200) if deep else (20, 60, 100)) for t in nested(d)),
           "deep and long structures rendered as YAML and with templates")
    family("header-links-in-headers", total, lambda: (
        f"{d}[name=a{x}]\n{la}= {a}\n\n{d}[name=b]\n{lb}= {b}{t}"
        for a in HEADER_LINKS for b in HEADER_LINKS for la in ("", ".r [header](b)\n", ".r [header](a, x)\n") for lb in ("", ".s [header](a)\n")
        for d in ("", "[isolate=false]\n----\n") for x in ("", ",isolate=false") for t in ("", "\n\n<< toc")),
        "headers that link to themselves directly or through other headers")
    family("visitors", rendered,
           lambda: (t for t in gen.docs([l for l in short if l not in ("@if u==1",)], 2)),
           "all documents of at most 2 lines rendered as YAML and with templates")
    return fams
