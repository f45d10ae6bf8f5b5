"""C04: an error is reported once, for the right file, at the position of the construct that caused it."""

from mc import gen, impl, lock
from mc.core import Family, Violation

PID = "C04"
LEVEL = "exploration"
RULE = (
    "Every wrong construct is put in every place of a document; the error has to be the only message, name the right file, and "
    "its position has to fall on the construct (and on the same part of it wherever the construct is). A case is non-trivial "
    "when an error is reported; distinct cases have distinct messages or positions."
)
ASSUMPTIONS = ["a position is correct when it is contained in the text of the wrong construct (marked by hand in the families)"]

# The wrong construct is between « and ».
INLINE = [
    "«{zz}»", "«{}»", "«{a{b}»", "«[footnote](zz)»", "«[footnote]()»", "«[header](zz)»", "«[header]()»", "«[link]()»", "«[class]()»",
    "«[unicode]()»", "«[raw]()»", "«[image]()»", "«[mailto]()»", "«[if](a)»", "«[if:](a)»", "«[if:zz==1](a)»", "«[if:z_z == 1](a)»", "«[if:_a b](a)»", "«[if:a](a)»",
    "«[if:v==1]()»", "«[ifx:a==1](b)»", "«[ifeval:v==1](q)»", "«[ifeval:v!=1](q)»", "«[m](a=1, b)»", "«[m](@zz)»", "«[m](*a,*b)»",
    "«[if:v=1](a)»", "«[link](text=a)»", "«[image](alt_text=a)»", "«[m](a=1, b=2, c)»", "«[m](@source,@source)»", "«[m](@bad)»", "«[m](a, @bad2)»", "«[m](@bad3, b)»", "«[class](a, @bad)»",
]
LINES = [
    "«@if a»", "«@if»", "«@xx v==1»", "«@if zz==1»\nx", "@if «{zz}»==1\nx", "«@if zz==1\n~~~~\nx\n~~~~»", "«[a=1, b]»\np", "«[\"a]»\np", "«[@zz]»\np",
    "«[*a, *b]»\np", "[engine=zz]\n«~~~~\nx\n~~~~»", "«:w:»", "«:w»", "«:w:{zz}»", ":w:a «{zz}» b", "«<< toc:»", "«<< mau:nofile»", "«<< mau»",
    "«<< raw:nofile»", "«<< raw»", "«<< image»", "«<< blockgroup»", "«<< blockgroup:zz»", "[k]\n«<< toc:z»", "«[a=1, b]»", "«<< mau:main.mau»",
    "[start=x]\n«* i»", "* i\n«text»", "* i\n** j\n«= h»", "* i\n«---»", "* i\n«~~~~\nx\n~~~~»", "* i\n«[a]»", "* i\n«:w:1»",
    "[footnote=q]\n~~~~\nx\n~~~~\n[footnote=q]\n«~~~~\ny\n~~~~»", "[group=g,position=p]\n~~~~\nx\n~~~~\n[group=g,position=p]\n«~~~~\ny\n~~~~»",
    "[name=h]\n= A\n\n[name=h]\n«= B»", "[@source,marker_delimiter=]\n~~~~\n«x:»\n~~~~", "«[{zz}]»\np", "«<< image:{zz}»", "«<< image:a=1,b»",
    "«<< image:@zz»", "«[b=1,c]»\nq", "@if v==1\n@if v==1\n«[@zz]»\nx", ".l «{zz}»\nx", "[class=x]\n.l «[link]()»\nx",
    "«:w.»", "[«{zz}»]\np", "[k, j, «{zz}», b]\np", "[k=«{zz}»]\np", "[«a=1, b»]\np", "[«a=1, b, c»]\np", "[«@zz»]\np", "[«k, @zz»]\np", "[«*a, *b»]\np", "<< image:u, «{zz}»", "<< image:«{zz}»", "<< image:«@zz»", "<< toc:«a=1, b»",
    "«<< mau:a\0b»", "«<< raw:a\0b»", "«<< mau:./main.mau»", "«<< mau:nodir/../main.mau»", "«<< raw:.»", "«<< mau:.»", "«<< mau:sub/../main.mau»", "«<< mau:./main.mau, call:a=1»",
    "[«@bad»]\np", "[«a, @bad2»]\n= h", "[«@bad3»]\n~~~~\nx\n~~~~", "<< image:«@bad2»", ".l x\n[«@bad»]\n* i",
    "[name=h]\n= A «[header](h)» b", "[name=h]\n«= [header](k)\n\n[name=k]\n= b [header](h)»", "[name=h]\n= A _*«[header](h)»*_\n\n[header](h)", "[name=h]\n= [class](\"«[header](h)»\", c)\n\n<< toc",
    ".l x «{zz}»\np", "@if a«{zz}»==1\nx",
]
UNCLOSED = ["«////»\nx", "«----»\nx", "«====»", "====\nx\n====\n«....»\n====", "«////»\n----\n----", "«aaaa»\n\n\naaa", "----\n----\n«----»"]

INLINE_PLACES = {
    "alone": "{}", "before": "some text {}", "after": "{} text", "between": "a _b_ {} c", "style": "a _b *c {} d*_ e", "quoted": '[class]("a {} b", c)',
    "second": "line\n{}", "third": "line\n\nline\nline {} x\nline", "header": "== head {}", "item": "* item {}", "item2": "* item\n  ** sub {} b\n* c",
    "label": ".role text {}\nhost", "unclosed": "_a {} `b", "two": "`x` $y$ {} `z`", "escaped": "\\_ \\` {}", "after-macro": "[m](a, b) {}", "true-long": "[if:v == 1](\"t {} u\", f)", "true": "[if:v==1](\"t {} u\", f)",
    "false": "[if:v!=1](t, \"f {} g\")", "link": '[link](u, "t {}")',
}
PLACES = {
    "alone": "{}", "blank": "\n  \n{}", "after": "text\n\n{}", "after-header": "= h\n{}", "after-comment": "// c\n////\n\n////\n{}",
    "after-block": "::::\na\n\nb\n::::\n{}", "before": "{}\n\nmore", "block": "----\n{}\n----", "block2": "a\n\n====\nb\n\n****\n\n{}\n\n****\n====\nc",
    "list": "* a\n* b\n\n{}", "footnote": "[footnote=f]\n____\nab\n\n{}\n____", "group": "[group=pg,position=p]\n????\n{}\n????", "open": "[isolate=false]\n%%%%\na\n{}\n%%%%",
    "after-include": "<< mau:ok.mau\n\n{}", "after-raw": "[engine=raw]\n++++\nx\n++++\n\n{}", "args": "[k]\nhost\n\n{}", "var": ":u:1\n{}", "unclosed-style": "a _b\n\n{}",
}

# Settings that are wrong: an error only where they are used.
ENV = {"v": "1", "mau": {"parser": {"aliases": {"bad": 5, "bad2": {"args": "x"}, "bad3": {"names": 7}}}}}

SETTINGS = {
    "aliases": ["[«@source»]\np", "[«a, @x»]\n= h", "x «[m](a, @x)»", "<< image:«@x»", ".l «[class](a, @x)»\np"],
    "source_highlight_style_aliases": ["[engine=source]\n~~~~\n«a:@x:\n~~~~»", ".l x\n[python, engine=source]\n~~~~\n«a:@:\nb:1:\n~~~~»"],
}

# Correct constructs, around the wrong ones.
GOOD = [
    "x[footnote](ok) y", "x [header](ok) [header](ok, t)", "{v} _x_", "[link](u, t) [m](a, k=b) `x`", "[if:v==1](a, b) [ifeval:v==1](v)", "* i [footnote](ok)\n** [header](ok)", "[group=og,position=q]\n----\nx\n----",
    "<< blockgroup:og2", "<< footnotes", "<< toc", "[name=n1]\n.l x\n= H [footnote](ok)", "[footnote=o2]\n----\nx\n----", "<< mau:ok.mau", "<< raw:ok.mau", "[@source]\n----\nx:1:\n----", "[engine=raw]\n----\n{zz}\n----",
    "@if v==1\nx", "@if v==2\n{zz}", ".l x\n[#a, *b]\ny", ":o:{v}", "[isolate=false]\n----\nx[footnote](ok)\n\n[name=n2]\n= [header](ok)\n\n<< toc\n----", "[start=auto]\n# x\n## y",
]
TAIL = "\n\n[footnote=ok]\n----\nok\n----\n\n[name=ok]\n= OK\n\n[group=og2,position=p]\n----\nx\n----\n"


def locate(text):
    """The text without the marks, the two positions."""
    out = []
    where = []
    line = column = 0
    for c in text:
        if c in "«»":
            where.append((line, column))
            continue
        out.append(c)
        if c == "\n":
            line, column = line + 1, 0
        else:
            column += 1
    return "".join(out), where[0], where[1]


def relative(p, origin):
    return (p[0] - origin[0], p[1] - (origin[1] if p[0] == origin[0] else 0))


def report(files, main, env=None):
    lock.write_files(files)
    run = impl.process(main, env or ENV)
    if run.phase is None:
        raise Violation("no error is reported")
    if len(run.messages) != 1:
        raise Violation(f"{len(run.messages)} messages for one error")
    message = run.messages[0][1]
    if run.phase == "lexer":
        return message.text, message.source, message.position, message.position
    c = message.context
    if c is None:
        raise Violation(f"no position for {message.text}")
    return message.text, c.source, c.start_position, c.end_position


OK = {"ok.mau": "fine\n\n* list\n"}


def check(case):
    text, begin, end = locate(case["place"].replace("{}", case["wrong"]))
    wrong, b0, e0 = locate(case["wrong"])
    if case["include"] == 0:
        main, files, source = text, {**OK, "main.mau": text}, "main.mau"
    elif case["include"] == 1:
        main, files, source = "a\n\n<< mau:sub/inc.mau\n\nb", {**OK, "sub/inc.mau": text}, "sub/inc.mau"
    else:
        files = {**OK, "inc.mau": text, "mid.mau": "= m\n\n----\n<< mau:inc.mau\n----\n"}
        main, source = "----\nx\n\n====\n<< mau:mid.mau\n====\n----\n", "inc.mau"
    message, where, start, stop = report(files, main, case.get("env"))
    if where != source:
        raise Violation(f"{message}: reported in {where} and not in {source}")
    if not begin <= start <= stop <= end:
        raise Violation(f"{message}: reported at {start}-{stop}, the wrong text is at {begin}-{end}")
    if case["include"] == 0 and not case.get("first"):
        m0, _, s0, t0 = report(OK, wrong, case.get("env"))
        if (m0, relative(s0, b0), relative(t0, b0)) != (message, relative(start, begin), relative(stop, begin)):
            raise Violation(
                f"{message} at {relative(start, begin)}-{relative(stop, begin)} of the wrong text, but alone {m0} at "
                f"{relative(s0, b0)}-{relative(t0, b0)}")
    return [message, source, start, stop]


def families(tier):
    deep = tier == "thorough"

    def family(name, wrong, places, rule, includes=(0, 1, 2)):
        return Family(name, lambda: ({"wrong": w, "place": p, "include": i} for w in wrong for p in places() for i in includes), check, rule)

    both = lambda: (o.replace("{}", p) for o in PLACES.values() for p in INLINE_PLACES.values())
    twice = lambda: (o.replace("{}", p) for i, o in PLACES.items() for j, p in PLACES.items() if i != j or i == "alone")
    return [
        family("inline", INLINE, lambda: INLINE_PLACES.values(), "every wrong macro or variable in every place of a paragraph, header, list, label, macro"),
        family("lines", LINES, lambda: PLACES.values(), "every wrong construct in every place of a document"),
        family("inline-in-blocks", INLINE, both, "every wrong macro or variable in every place of every context", (0, 1, 2) if deep else (0,)),
        family("lines-in-blocks", LINES, twice, "every wrong construct in every pair of contexts", (0, 1, 2) if deep else (0,)),
        family("unclosed", UNCLOSED, lambda: [p for k, p in PLACES.items() if not p.split("{}")[1].strip("\n") or k == "before"],
               "blocks and comments that are never closed"),
        Family("settings", lambda: ({"wrong": w, "place": p, "include": i, "env": {"v": "1", "mau": {"parser": {k: v}}}} for k, l in SETTINGS.items() for v in (5, "x", [1]) for w in l for p in PLACES.values() for i in (0, 1, 2)), check,
               "settings that are wrong: the place where they are used"),
        Family("neighbours", lambda: ({"wrong": w, "place": g + "\n\n{}\n\n" + (h or "x") + TAIL, "include": i} for w in INLINE + LINES for g, h in (
            ((g, h) for g in GOOD for h in [None] + GOOD if deep and g != h or h is None)) for i in ((0, 1, 2) if deep else (0, 1))), check, "errors between correct constructs of each kind"),
        Family("far", lambda: ({"wrong": w, "place": p, "include": i, "first": 1} for n in ((9, 10, 11, 99, 100, 101, 255, 256, 257, 1000) if deep else (9, 10, 101, 257)) for w in INLINE[::3] + LINES[::3] for i in (0, 1) for p in (
            "x\n" * n + "\n{}", "x\n\n" * n + "{}", "\n" * n + "{}", "// c\n" * n + "{}", "----\nx\n----\n" * n + "{}", "* i\n" * n + "\n{}", ":u:1\n" * n + "{}", "////\n" + "x\n" * n + "////\n{}",
            *((("x" * n) + " {}", "_x_ " * n + "{}", "* " + "y " * n + "{}", "`" + "z " * n + "` {}", "{}" + " x" * n) if w in INLINE else ()))), check, "errors after any number of lines or characters"),
    ]
