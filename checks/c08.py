"""C08: variables are replaced by their value, whatever the place and the value."""

from mc import core, gen, impl, large, lock
from mc.core import Family, Violation

PID = "C08"
LEVEL = "exploration"
RULE = (
    "Every text of the family is executed by the implementation and by the reference interpreter with the same variables, the "
    "trees have to be equal; distinct cases have distinct trees."
)
ASSUMPTIONS = []

ENV = {
    "v": "value", "e": "", "n": 5, "t": True, "f": 1.5, "d": {"a": "da", "b": {"c": "dbc"}}, "style": "_s_", "tick": "`k`", "brace": "{v}",
    "macro": "[link](u, t)", "sp": "  x ", "args": "p, q=r", "cond": "v==value", "uni": "\u00e9 \U0001f600", "bs": "\\", "quote": "\"q\"", "x y": "spaced",
    "v-1": "dash", "+v": "plus", "none": None, "list": [1, 2], "eq": "= h", "item": "* i", "nl": "n",
}
CHARS = ["{", "}", "v", "`", "\\", " ", "z", "d.a"]
REFS = ["{v}", "{e}", "{n}", "{d.a}", "{d.b.c}", "{style}", "{tick}", "{brace}", "{macro}", "{sp}", "{args}", "{uni}", "{bs}", "{quote}", "{x y}", "{v-1}",
        "{+v}", "{t}", "{f}", "{none}", "{list}", "{eq}", "{item}", "{z}", "{}", "{ v}", "{v }", "{d}", "{d.z}", "\\{v\\}", "\\{v}", "`{v}`", "{{v}}", "$ {v}$", "{v", "v}",
        "{V}", "{d.a.x}"]
GLUE = ["", " ", "a", "_", "`", "\\", "$", "[m](", ")", "\"", ",", "="]

PLACES = [
    "{}", "a\n{}", "= {}", "* {}", "# a\n## {}", ".l {}\nh", ". {}\nh", "[{}]\nh", "[k={}]\nh", "[k=\"{}\"]\nh", "[x,{},y]\nh", "[#{}]\nh", "[*{}]\nh", "[@{}]\nh",
    ":w:{}\n\n`{w}` {w}", ":w:a{}\n\n{w}", "@if v=={}\nh", "@if {}==5\nh", "@if {}\nh", "@if v!={}\nh", "<< image:{}", "<< foo:a,{}", "<< foo:k={}", "<< mau:{}",
    "[{}]\n<< image", "[engine={}]\n----\nx\n----", "----\n{}\n----", "[engine=raw]\n----\n{}\n----", "[@source]\n----\n{}:{}:\n----", "[m]({})",
    "[link](u, {})", "[link]({}, t)", "[link](\"{}\", t)", "[if:v==value]({}, n)", "[if:v=={}](a, b)", "[ifeval:n==5]({}, v)", "[{}](u)", "[header]({})\n\n[name={}]\n= h",
    "[footnote]({})\n\n[footnote={}]\n----\nx\n----", "// {}\nx", "////\n{}\n////\nx", "<< {}", ":{}:x", "@{} v==1\nx", ".{} x\ny", "_{}_", "*a {} b*", "`{}`", "$ {} $", "\\{}",
    "[class](_{}_, {})", "[isolate=false]\n----\n= {}\n----\n\n<< toc", "[group={},position=p]\n----\nx\n----\n\n<< blockgroup:{}",
]

NAMED = {"v": "1", "vv": "2", "d": {"a": "3", "v": {"a": "4"}, "d": "5"}, "a.v": "6", "a": {"d": "7"}, "+a": "8", "d ": "9", "av": {" a": "10"}}
NAMES = ["{~}", "{v}{~} x", "[m]({~})", ":w:{~}\n{w}", ":~:1\n\n{~}{v}", "@if ~==1\nx", "[if:~==3](a, b)"]


def define(case):
    """A variable defined in the document and one of the
    environment are the same."""
    text, value = case["text"], case["value"]
    a = impl.process(text, {"q": value})
    b = impl.process(f":q:{value}\n" + text)
    if (a.phase, a.phase and a.messages[-1][1].text) != (b.phase, b.phase and b.messages[-1][1].text):
        raise Violation(f"environment: {a.phase} {a.messages}, definition: {b.phase} {b.messages}")
    if a.phase is None:
        core.expect(impl.strip(a.tree), impl.strip(b.tree), "the value defined in the document")
        return impl.strip(a.tree, False)
    return a.messages[-1][1].text


def families(tier):
    deep = tier == "thorough"
    return [
        gen.lockstep("characters", lambda: gen.strings(CHARS, 7 if deep else 5), "all texts of at most 5 (thorough 7) characters", env=ENV),
        gen.lockstep("references", lambda: (g + r + h + s for r in REFS for s in [""] + REFS for g in GLUE for h in GLUE), "pairs of references in all surroundings", env=ENV),
        gen.lockstep("places", lambda: (p.replace("{}", r) for p in PLACES for r in REFS), "every reference in every place of the syntax",
                     env=ENV, files={"value": "included {v}\n"}),
        gen.lockstep("places-glue", lambda: (p.replace("{}", g + r + h) for p in PLACES for r in (REFS if deep else REFS[:16] + ["`{v}`", "\\{v\\}"])
                                             for g in ("a", " ", "`", "\\", "_") for h in ("", "b", " ", "`", "_")), "references between other text", env=ENV,
                     files={"value": "included {v}\n"}),
        gen.lockstep("pairs-in-places", lambda: (p.replace("{}", r + g + s) for p in PLACES for r in REFS[:14] for s in REFS[:14] for g in ("", " ", ",")) if deep else
                     (p.replace("{}", r + g + s) for p in PLACES for r in ("{v}", "{style}", "{args}", "{sp}", "{tick}", "{bs}") for s in ("{v}", "{macro}", "{brace}", "{e}")
                      for g in ("", " ", ",")), "two references in every place", env=ENV, files={"value": "included {v}\n"}),
        Family("definitions", lambda: ({"text": p.replace("{}", "{q}"), "value": v} for p in PLACES if "{}" in p and not p.startswith((":w", ":{", ":"))
                                       for v in ("x", "_x_", "`x`", "a b", "x,y", "k=z", "\"x\"", "[m](a)", "5", "value", "\u00e9", "a:b", "// x", "= x", "#t", "*s", "a ` b", ")")), define,
               "a variable defined in the document is equivalent to one of the environment"),
        gen.lockstep("names", lambda: (t.replace("~", n) for n in gen.strings(["v", "d", "a", ".", " ", "+", "-"], 5 if deep else 4) for t in NAMES), "names of variables that look alike", env=NAMED),
        gen.lockstep("many", lambda: (("{v}" + g) * k for g in GLUE for k in (1, 2, 5, 20, 60)), "many references on a line", env=ENV),
        *large.families(PID, tier),
    ]
