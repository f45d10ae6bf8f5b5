"""C10: arguments: unnamed, named, tags, subtype, quotes."""

from mc import core, gen, impl, large
from mc.core import Family, Violation

PID = "C10"
LEVEL = "exploration"
RULE = (
    "Every list of arguments of the family is executed by the implementation and by the reference interpreter, the trees have "
    "to be equal; distinct cases have distinct trees."
)
ASSUMPTIONS = []

CHARS = ["a", "b", "=", ",", " ", "\"", "\\", "#", "*", "@", "#mau:"]
PIECES = ["a", "b", "k=v", "k=w", "j=v", "\"a, b\"", "k=\"a, b\"", "k= v", "k =v", "\"a\\\"b\"", "k=\"x=y\"", "#t", "#u", "#mau:i", "*s", "*r", "#t=1", "*s=1", "a=b=c", "\"#q\"",
          "\"*q\"", "", " ", "a b", "=v", "k=", "\"\"", "k=\"\"", "\u00e9", "1", "a\"b", "\"a\"b", "\\,", "k=\\,", "#", "*", "#*x", "#@x", "*#x", "*@source", "#mau:*x", "\"k\"=v", "'a'"]
SEPS = [", ", ",", " , ", ",  "]
HOSTS = ["p", "= h", "* i", "---", "----\nx\n----", "[engine=raw]", "<< foo", "<< image:u", "----\n----", "<< toc", "<< footnotes"]
# (prefix, suffix) of the place where arguments can be.
PLACES = {
    "paragraph": "[{}]\np", "header": "[{}]\n== h", "list": "[{}]\n# i\n## j", "rule": "[{}]\n---", "block": "[{}]\n----\nx\n----", "block0": "[{}]\n----\n----",
    "include": "<< foo:{}", "include2": "[{}]\n<< foo", "toc": "<< toc:{}", "toc2": "[{}]\n<< toc", "footnotes": "<< footnotes:{}", "image": "<< image:u,{}", "image2": "[u, {}]\n<< image",
    "macro": "[m]({})", "macro2": "a[m]({})b", "source": "[@source, {}]\n----\nx\n----", "raw": "[engine=raw, {}]\n----\nx\n----", "rawinclude": "<< raw:r.txt, {}", "mau": "<< mau:i.mau, {}",
    "nested": "----\n====\n[{}]\np\n====\n----", "group": "[group=g, position=p, {}]\n----\nx\n----\n\n<< blockgroup:g", "group2": "[group=g, position=p]\n----\nx\n----\n\n<< blockgroup:g, {}",
    "isolate": "[isolate=false, {}]\n----\nx\n----", "condition": "@if v==1\n[{}]\np", "raw-last": "[{}, engine=raw]\n----\nx\n----", "group-last": "[{}, group=g, position=p]\n----\nx\n----\n\n<< blockgroup:g", "isolate-last": "[{}, isolate=false]\n----\nx\n----", "footnote-last": "[{}, footnote=n]\n----\nx\n----\n\n[footnote](n)", "footnote": "[footnote=n, {}]\n----\nx\n----\n\n[footnote](n)",
}
FILES = {"r.txt": "r", "i.mau": "i"}


def families(tier):
    deep = tier == "thorough"
    env = {"v": "1"}
    fam = lambda name, texts, rule: gen.lockstep(name, texts, rule, env=env, files=FILES)
    return [
        fam("characters", lambda: (f"[{s}]\np" for s in gen.strings(CHARS, 5 if deep else 4)), "all arguments of at most 4 (thorough 5) pieces"),
        fam("characters-in-macros", lambda: (f"[m]({s})" for s in gen.strings(CHARS + [")"], 5 if deep else 4, 0)), "the same in macros"),
        fam("quotes", lambda: (p.replace("{}", s) for p in ("[{}]\np", "[m]({})", "[k={}]\np", "<< foo:{}") for s in gen.strings(["\"", "\\", ",", "a", "="], 7 if deep else 5)),
            "quotes, backslashes and commas"),
        fam("pieces", lambda: (f"[{sep.join(s)}]\np" for s in gen.seqs(PIECES, 3) for sep in (SEPS[:1] if len(s) > 2 and not deep else SEPS[:2])), "all lists of at most 3 arguments"),
        fam("places", lambda: (p.replace("{}", sep.join(s)) for p in PLACES.values() for s in gen.seqs(PIECES, 2) for sep in (SEPS if deep else SEPS[:1])),
            "all lists of at most 2 arguments in every place"),
        fam("places-3", lambda: (p.replace("{}", ", ".join(s)) for p in PLACES.values() for s in gen.seqs(["a", "k=v", "#t", "*s", "#mau:i", "\"x, y\"", "b", "j=\"1\"", "@source"], 4 if deep else 3, 3)),
            "all lists of 3 (thorough 4) main arguments in every place"),
        fam("hosts", lambda: (f"[{a}]\n{h}" + ("\n----\nx\n----" if h == "[engine=raw]" else "") for a in PIECES for h in HOSTS), "every argument with every construct"),
        fam("spaces", lambda: (f"[{a}{s}{b}{t}{c}]\np" for s in ("", " ", "  ", ",", " ,", ", ", "=", " =", "= ") for t in ("", " ", ",", " , ", "=") for a in ("", " ", "a", "\"a\"", "k=v")
                               for b in ("b", "j=v", "#t", "\"b c\"") for c in ("", " ", "c")), "spaces around arguments"),
        fam("many", lambda: (f"[{', '.join(f'{p}{i}{q}' for i in range(n))}]\np" for n in (1, 2, 5, 30) for p in ("", "#", "k", "#mau:") for q in ("", "=v", "=\"a, b\"", " x")), "long lists"),
        fam("unicode", lambda: (p.replace("{}", w.replace("X", c)) for p in ("[{}]\np", "[m]({})") for w in ("X", "X=v", "k=X", "\"X\"", "#X", "*X", "a,X,b", "Xa", "aX", "k=aX")
                                for c in ("\u00e9", "\U0001f600", "\t", "\u00a0", "[", "]", "(", "{", "`", "$", "'", ":", ";", "/", "<", "&", "%", "!", "?", ".", "-", "_", "~", "^", "|", "+")),
            "other characters"),
        *large.families(PID, tier),
    ]
