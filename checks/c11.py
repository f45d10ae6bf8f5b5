"""C11: aliases give default named arguments, positional names, and a subtype."""

from mc import gen, large

PID = "C11"
LEVEL = "exploration"
RULE = (
    "Every combination of alias and arguments is executed by the implementation and by the reference interpreter, the trees have "
    "to be equal; distinct cases have distinct trees."
)
ASSUMPTIONS = []

ARGS = [None, {}, {"k": "d"}, {"k": "d", "j": "e"}, {"engine": "raw"}, {"footnote": "f"}, {"group": "g", "position": "q"}, {"classes": "c1,c2"}, {"isolate": "false"}, {"k": 5, "isolate": False}, {"start": None, "k": 1.5}, {"k": ["a"], "j": {}}, "k", 5, ["k"]]
NAMES = [None, [], ["x"], ["x", "y"], ["k"], ["y", "k"], ["group", "position"], ["language"], ["x", 5], [True], "x", {"x": "y"}, 7]
SUBTYPES = [None, "", "sub", 5, False, ["s"]]
USES = ["@al", "@al, a", "@al, a, b", "@al, a, b, c", "a, @al", "a, @al, b", "@al, k=o", "@al, a, k=o", "@al, *own", "@al, *", "*own, @al, a", "@al, #t", "@al, x=o, a", "@al, a, y=o",
        "@al, @al", "@zz", "@", "\"@al\"", "@source", "@source, a, b", "@al, engine=default", "@al, group=h", "@Al", "@al "]
HOSTS = ["p", "= h", "* i", "---", "----\nx\n----", "----\n\n= h\n----\n\n<< toc", "<< foo", "<< blockgroup:g"]


def alias(args, names, subtype):
    a = {}
    if args is not None:
        a["args"] = args
    if names is not None:
        a["names"] = names
    if subtype is not None:
        a["subtype"] = subtype
    return a


def envs():
    for a in ARGS:
        for n in NAMES:
            for s in SUBTYPES:
                d = alias(a, n, s)
                if d:
                    yield {"mau": {"parser": {"aliases": {"al": d}}}}


def families(tier):
    deep = tier == "thorough"
    two = {"mau": {"parser": {"aliases": {"al": {"args": {"k": "1", "j": "2"}, "names": ["x"], "subtype": "s"}, "quote": {"subtype": "quote", "names": ["by", "in"]}, "bare": {"args": {"z": "0"}},
                                          "source": {"args": {"engine": "source", "extra": "1"}, "names": ["language", "file"]}}}}}
    return [
        gen.lockstep("definitions", lambda: ((f"[{u}]\n{h}" + ("\n\n<< blockgroup:g" if "group" in str(e) and "----" in h else ""), e) for e in envs() for u in USES
                                             for h in (HOSTS if deep else HOSTS[:1] + HOSTS[4:5])), "every alias with every use"),
        gen.lockstep("hosts", lambda: (f"[{u}]\n{h}" for u in USES + ["@quote, a, b, c", "@quote, in=1, a", "@bare", "@bare, z=1", "@source", "@source, py, f", "@source, py, engine=raw"] for h in HOSTS),
                     "every use with every construct", env=two),
        gen.lockstep("places", lambda: (p.replace("{}", u) for u in USES + ["@quote, a, b, c", "@bare", "@source, py, f"] for p in (
            "[m]({})", "a [m]({}) b", "<< foo:{}", "<< toc:{}", "<< image:u, {}", "[link]({})", "[class](a, {})", "----\n[{}]\np\n----", "<< mau:i.mau, {}", "[if:v==1]({})", "[unicode]({})")),
                     "every use in every place", env={**two, "v": "1"}, files={"i.mau": "[@quote, a]\nx"}),
        gen.lockstep("in-document", lambda: (f"{d}\n[{u}]\n{h}" for d in (":mau.parser.aliases.al.subtype:s", ":mau.parser.aliases.al.args.k:v", ":mau.parser.aliases.quote.subtype:x",
                                                                              ":mau.parser.aliases.al.args.engine:raw", ":mau.parser.aliases.new.subtype:n\n:mau.parser.aliases.new.args.k:z")
                                             for u in USES + ["@new", "@new, k=1", "@quote, a"] for h in HOSTS[:6]), "aliases defined in the document", env=two),
        gen.lockstep("many", lambda: (("[@quote, " + ", ".join(s) + "]\np") for s in gen.seqs(["a", "by=1", "in=2", "#t", "*s", "k=v"], 5 if deep else 4)),
                     "all lists of at most 4 (thorough 5) arguments with an alias", env=two),
        *large.families(PID, tier),
    ]
