"""Families of big documents and of unusual names.

`scales(n)` gives for each property the documents of size n: everything a
document can have in any number is there n times (nodes, levels, arguments,
characters, files). `names(x, y)` gives the documents where the two names are
used in each place where a name can be."""

from . import core, lock
from .core import Family

WORDS = ["alpha", "beta", "gamma", "delta", "eps", "zeta", "eta"]


def rng(n):
    return range(n)


def blocks(n, inner, first="", each=lambda i: ""):
    """n nested blocks around a text (the delimiters have to be distinct)."""
    marks = [c * 4 for c in "=*+_~^!?&|;%abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"]
    n = min(n, len(marks))
    return "\n".join([each(i) + marks[i] for i in rng(n)] + [inner] + marks[:n][::-1])


def c02(n):
    yield "\n".join(f"line {i}" for i in rng(n))
    yield "\n\n".join(f"par {i}" for i in rng(n))
    yield " ".join(f"w{i}" for i in rng(n))
    yield "x" * n
    yield "=" * n + " head"
    yield "=" * n
    yield "-" * n
    yield "-" * n + "\nx\n" + "-" * n
    yield "/" * n + " c\nx\n" + "/" * n
    yield " " * n + "x" + " " * n + "y" + " " * n
    yield "a" + "\n" * n + "b"
    yield "\n" * n + "b" + "\n" * n
    yield "a\n" + (" " * n + "\n") + "b"
    yield "\n".join(f"{'=' * (i % 4 + 1)} h{i}" for i in rng(n))
    yield "\n".join(("---", "p", "* i", "= h", ".l x", "<< foo:a", "// c", "", ":v:1", "----\nb\n----")[i % 10] + ("" if i % 10 in (0, 7, 9) else str(i)) for i in rng(n))
    yield "\n".join(("---", "p", "", "= h", ".l x", "<< foo:a", "// c", "", "* i", "", ":v:1", "----\nb\n----")[i % 12] + ("" if i % 12 in (0, 2, 7, 9, 11) else str(i)) for i in rng(n))
    yield "\n\n".join(f"----\nb{i}\n----" for i in rng(n))
    yield blocks(n, "in")
    yield "----\n" + "\n".join(f"x{i}" for i in rng(n)) + "\n----"
    yield "----\n" + "\n\n".join(f"x{i}" for i in rng(n)) + "\n----"


def c05(n):
    yield "a\n" + "// c\n" * n + "b"
    yield "a" + "\n" * n + "// c" + "\n" * n + "b"
    yield "\n\n".join(f"// c{i}\n\np{i}" for i in rng(n))
    yield "////\n" + "\n".join(f"c{i}" for i in rng(n)) + "\n////\nx"
    yield "////\n" + "\n" * n + "////\nx"
    yield "////\nx\n////\n" * n + "y"
    yield "//" + "/" * n + "\nx"
    yield "// " + "c " * n + "\nx"
    yield "[a]\n" + "// c\n" * n + ".l x\n" + "// d\n" * n + "p"


def c06(n):
    yield " ".join(f"_w{i}_" for i in rng(n))
    yield "".join(("_a_", "*b*", "~c~", "^d^", "`e`", "$f$", "%g%", "h")[i % 8] for i in rng(n))
    yield "_" + "a" * n + "_"
    yield "_" + " ".join(f"w{i}" for i in rng(n)) + "_"
    yield "_a" * n
    yield "`" * n
    yield "`" + "_" * n + "`"
    yield "$" * n + "x"
    yield "\\" * n + "_a_"
    yield "\\_" * n
    yield "_" * n
    yield "*_" * min(n, 20) + "x" + "_*" * min(n, 20)
    yield "\n".join(f"_l{i}_ *m{i}*" for i in rng(n))
    yield "_a *b* " + "c " * n + "d_"


def c08(n):
    yield "".join("{v%d}" % i for i in rng(n)), {f"v{i}": f"x{i} " for i in rng(n)}
    yield "{" + ".".join(f"n{i}" for i in rng(n)) + "}", nested([f"n{i}" for i in rng(n)], "deep")
    yield "{v}", {"v": "x" * n}
    yield "{v}", {"v": "_a_ " * n}
    yield "{v}", {"v": list(rng(n))}
    yield "{v}", {"v": 10 ** n}
    yield "x " * n + "{v}" + " y" * n, {"v": "1"}
    yield "`{v}` {v} " * n, {"v": "1"}
    yield "\\{a\\}{v}" * n, {"v": "1"}
    yield "\n\n".join("= {v} %d\n\n* {v}\n\n[k={v}]\n.l {v}\np {v}" % i for i in rng(n)), {"v": "1"}
    yield "[" + ", ".join("k%d={v%d}" % (i, i) for i in rng(n)) + "]\np", {f"v{i}": f"x{i}" for i in rng(n)}
    yield "{" + "a" * n + "}", {"a" * n: "long"}


def nested(names, value):
    for name in reversed(names):
        value = {name: value}
    return value


def c09(n):
    yield "\n".join(f":v{i}:x{i}" for i in rng(n)) + "\n" + " ".join("{v%d}" % i for i in rng(n))
    yield "\n".join(f":v:x{i}" for i in rng(n)) + "\n{v}"
    yield "\n\n".join(f":v:x{i}\n{{v}}" for i in rng(n))
    yield ":v0:a\n" + "\n".join(":v%d:{v%d}." % (i + 1, i) for i in rng(n)) + "\n{v%d}" % n
    yield ":v:a\n" + ":v:{v}b\n" * n + "{v}"
    name = ".".join(f"n{i}" for i in rng(n))
    yield f":{name}:x\n{{{name}}}"
    yield f":v:{'x' * n}\n{{v}}"
    yield f":{'v' * n}:1\n{{{'v' * n}}}"
    yield ":v:0\n" + blocks(n, ":w:{v}\n{w}", each=lambda i: ":v:%d\n{v}\n" % i) + "\n{v} {w}"
    yield "\n".join(f":{'+-'[i % 2]}v{i}:" for i in rng(n)) + "\n" + " ".join("{v%d}" % i for i in rng(n))
    yield "\n".join(f":ns.a{i}:x{i}" for i in rng(n)) + "\n" + " ".join("{ns.a%d}" % i for i in rng(n))


def c10(n):
    yield "[" + ", ".join(f"a{i}" for i in rng(n)) + "]\np"
    yield "[" + ", ".join(f"k{i}=v{i}" for i in rng(n)) + "]\np"
    yield "[" + ", ".join(f"#t{i}" for i in rng(n)) + "]\np"
    yield "[" + ", ".join(f"#mau:t{i}" for i in rng(n)) + "]\np"
    yield "[" + ", ".join(f"\"a, {i}\"" for i in rng(n)) + "]\np"
    yield "[" + ", ".join([f"a{i}" for i in rng(n)] + ["*sub"] + [f"#t{i}" for i in rng(n)] + [f"k{i}=\"v, {i}\"" for i in rng(n)]) + "]\np"
    yield "[m](" + ",".join([f"a{i}" for i in rng(n)] + [f"k{i}=v{i}" for i in rng(n)]) + ")"
    yield "<< foo:" + ",".join([f"a{i}" for i in rng(n)] + [f"k{i}=v{i}" for i in rng(n)])
    yield "[" + "a" * n + "]\np"
    yield "[\"" + "a, " * n + "\"]\np"
    yield "[k=\"" + "\\\"" * n + "\"]\np"
    yield "[" + "k" * n + "=" + "v" * n + ", #" + "t" * n + ", *" + "s" * n + "]\np"
    yield "[" + " " * n + "a" + " " * n + "," + " " * n + "k" + " " * n + "=" + " " * n + "v" + " " * n + "]\np"
    yield "\n\n".join(f"[a{i}, k=v{i}, #t{i}, *s{i}]\np{i}" for i in rng(n))


def alias(**aliases):
    return {"mau": {"parser": {"aliases": aliases}}}


def c11(n):
    names = [f"n{i}" for i in rng(n)]
    args = {f"k{i}": f"d{i}" for i in rng(n)}
    env = alias(al={"args": args, "names": names, "subtype": "s"})
    yield "[@al]\np", env
    for used in {1, n // 2, n - 1, n, n + 1} - {0}:
        yield "[@al, " + ", ".join(f"u{i}" for i in rng(used)) + "]\np", env
    yield "[@al, " + ", ".join(f"k{i}=x{i}" for i in reversed(rng(n))) + "]\np", env
    yield "\n\n".join(f"[@al, u{i}, k{i}=x{i}, #t]\np" for i in rng(n)), alias(al={"args": {"k0": "1", "k1": "2"}, "names": ["a"]})
    yield "\n\n".join(f"[@al{i}, u{i}]\np" for i in rng(n)), alias(**{f"al{i}": {"args": {f"k{i}": "1"}, "names": [f"a{i}"], "subtype": f"s{i}"} for i in rng(n)})
    yield "[@" + "a" * n + "]\np", alias(**{"a" * n: {"subtype": "long"}})


def c12(n):
    yield "\n".join(f".l{i} text {i}" for i in rng(n)) + "\np"
    yield "\n\n".join(f"[a{i}]\n.l x{i}\n@if v==1\np{i}" for i in rng(n))
    yield "\n\n".join(f"[a{i}]\n.l x{i}\n@if v=={i % 2}\np{i}" for i in rng(n))
    hosts = ["p", "= h", "* i", "---", "----\nx\n----", "<< foo:u", "<< toc", "[engine=raw]\n----\nr\n----"]
    yield "\n\n".join((f"[a{i}, k=v{i}]\n" if i % 8 not in (5, 7) else "") + f".l x{i}\n.m _y_ {i}\n" + hosts[i % 8] for i in rng(n))
    yield ".l " + "x " * n + "\np"
    yield "." + "l" * n + " x\np"
    yield blocks(n, "[z]\n.q w\nin", each=lambda i: f"[b{i}]\n.l y{i}\n")


def c13(n):
    yield "\n\n".join(f"@if v=={i % 2}\np{i}" for i in rng(n))
    yield "\n\n".join(f"@if v{i}!=x{i % 3}\n= h{i}" for i in rng(n)) + "\n\n<< toc", {f"v{i}": f"x{i}" for i in rng(n)}
    yield " ".join(f"[if:v=={i % 2}](t{i}, f{i})" for i in rng(n))
    yield "\n\n".join(f"@if v=={i % 2}\n[footnote=f{i}]\n----\nb{i}\n----\n\n[footnote](f{i})" if i % 2 else f"@if v=={i % 2}\n[footnote=f{i}]\n----\nb{i}\n----" for i in rng(n)) + "\n\n<< footnotes"
    yield f"@if v=={'x' * n}\np", {"v": "x" * n}
    yield f"@if v!={'x' * n}\np", {"v": "x" * n}
    yield f"@if {'v' * n}==1\np", {"v" * n: "1"}
    yield f"@if {'.'.join(['n'] * n)}==1\np", nested(["n"] * n, "1")
    yield blocks(n, "in", each=lambda i: "@if v==1\n")
    yield blocks(n, "in", each=lambda i: f"@if v=={1 if i < n // 2 else 2}\n") + "\n\nz"


def c14(n):
    yield " ".join(f"[m{i}](a{i}, k{i}=v)" for i in rng(n))
    yield " ".join(f"[link](u{i}, _t{i}_)" for i in rng(n))
    yield "[class](x, " + ", ".join(f"c{i}" for i in rng(n)) + ")"
    yield "[class](\"" + " ".join(f"_w{i}_" for i in rng(n)) + "\", c)"
    yield f"[link]({'u' * n}, {'t' * n})"
    yield f"[link](\"http://a.b/{'c,' * n}\")"
    yield f"[{'m' * n}](a)"
    yield f"[image]({'u' * n}, \"{'alt ' * n}\", \"{','.join(f'c{i}' for i in rng(n))}\", width={n}, height={n * 1000})"
    yield " ".join(f"[mailto](a{i}@b.c) [unicode](1F60{i}) [raw](<b{i}>)" for i in rng(n))
    yield "[m](" + "a" * n + "(" * n + ")"
    yield "[m](\"" + "a" + ")" * n + "\")"
    yield "".join("[class](x, c)_a_" for i in rng(n))


def c15(n):
    yield "\n".join(f"# i{i}" for i in rng(n))
    yield "\n".join(f"{'*' * (i + 1)} i{i}" for i in rng(min(n, 40)))
    yield "\n".join(f"{'#' * (n - i)} i{i}" for i in rng(n))
    yield "\n".join(f"{'#' * (i % 3 + 1)} i{i}" for i in rng(n))
    yield "\n".join(f"{'*#'[i // 2 % 2] * (i % 2 + 1)} i{i}" for i in rng(n))
    yield "\n\n".join(f"[start=auto]\n# i{i}\n# j{i}\n## k" for i in rng(n))
    yield f"[start={n}]\n# a\n# b\n\n[start=auto]\n# c\n\n[start={n * 1000}]\n# d\n## e\n\n[start=auto]\n# f"
    yield f"[start=-{n}]\n# a\n# b\n\n[start=auto]\n# c"
    yield f"[start=0{n}]\n# a\n\n[start=auto]\n# c"
    yield "\n".join(f"# i{i}" for i in rng(n)) + "\n\n[start=auto]\n# z"
    yield "* " + "word " * n
    yield "*" + " " * n + "x"
    yield "\n\n".join(f"* i{i}\n\np" for i in rng(n))


def c16(n):
    yield "\n\n".join(f"= h{i}" for i in rng(n)) + "\n\n<< toc"
    yield "<< toc\n\n" + "\n\n".join(f"{'=' * (i + 1)} h{i}" for i in rng(min(n, 60)))
    yield "<< toc\n\n" + "\n\n".join(f"{'=' * (n - i)} h{i}" for i in rng(n))
    yield "<< toc\n\n" + "\n\n".join(f"{'=' * (i % 4 + 1)} h{i}" for i in rng(n))
    yield "<< toc\n\n" + "\n\n".join(f"{'=' * (3 - i % 3)} h{i}" for i in rng(n))
    yield "<< toc\n\n" + "\n\n".join("= same" for i in rng(n))
    yield "\n\n".join(f"= h{i}\n\n<< toc" for i in rng(min(n, 30)))
    yield "<< toc\n\n= " + "a" * n
    yield "<< toc\n\n= " + "a " * n
    yield "<< toc\n\n= A\n\n" + blocks(n, "== in", each=lambda i: f"= o{i}\n\n[isolate=false]\n")
    yield "=" * n + " deep\n\n<< toc\n\n= up"


def c17(n):
    yield "\n\n".join(f"[name=h{i}]\n= H {i}" for i in rng(n)) + "\n\n" + " ".join(f"[header](h{i})" for i in reversed(rng(n)))
    yield " ".join(f"[header](h{i}, t{i})" for i in rng(n)) + "\n\n" + "\n\n".join(f"[name=h{i}]\n== H {i}" for i in reversed(rng(n)))
    yield "[name=h]\n= H\n\n" + "\n\n".join(f"[header](h) [header](h, x{i})" for i in rng(n))
    yield "\n\n".join(f"[name=h{i}]\n= H {i}" for i in rng(n)) + f"\n\n[header](h{n})"
    yield "\n\n".join(f"[name=h{i}]\n= H {i}" for i in rng(n)) + f"\n\n[name=h{n - 1}]\n= Again"
    yield f"[name={'h' * n}]\n= H\n\n[header]({'h' * n})"
    yield "[header](h)\n\n" + blocks(n, "[name=h]\n== in\n\n[header](h)", each=lambda i: "[isolate=false]\n")
    yield "\n\n".join(f"[name=h{i}, internal_id=id{i}]\n= H {i}\n\n[header](h{(i * 7) % n})" for i in rng(n)) + "\n\n<< toc"
    yield "[header](a)\n\n[name=a]\n= A " + " ".join(f"[header](b{i})" for i in rng(n)) + "\n\n" + "\n\n".join(f"[name=b{i}]\n= B [header](c)" for i in rng(n)) + "\n\n[name=c]\n= C"
    yield "[name=a]\n= A " + " ".join(f"[header](b{i})" for i in rng(n)) + "\n\n" + "\n\n".join(f"[name=b{i}]\n= B [header]({'a' if i == n - 1 else 'c'})" for i in rng(n)) + "\n\n[name=c]\n= C"
    m = min(n, 7)
    yield "\n\n".join(f"[name=h{i}]\n= H {i} [header](h{i + 1})" for i in rng(m)) + f"\n\n[name=h{m}]\n= Last\n\n[header](h0)"


def c18(n):
    yield "\n\n".join(f"[footnote](f{i})" for i in rng(n)) + "\n\n" + "\n\n".join(f"[footnote=f{i}]\n----\nb{i}\n----" for i in reversed(rng(n))) + "\n\n<< footnotes"
    yield "\n\n".join(f"[footnote=f{i}]\n----\nb{i}\n----" for i in rng(n)) + "\n\n<< footnotes\n\n" + "[footnote](f0) " * n + "\n\n<< footnotes"
    yield "\n\n".join(f"[footnote](f{i})\n\n[footnote=f{i}]\n----\nb{i}\n\n* i\n----" for i in rng(n)) + "\n\n<< footnotes"
    yield "\n\n".join(f"[footnote=f{i}]\n----\nb{i}\n----" for i in rng(n)) + f"\n\n[footnote](f{n})"
    yield "\n\n".join(f"[footnote=f{i}]\n----\nb{i}\n----" for i in rng(n)) + f"\n\n[footnote=f{n // 2}]\n----\nagain\n----"
    yield f"[footnote={'f' * n}]\n----\nx\n----\n\n[footnote]({'f' * n})"
    yield "<< footnotes\n\n" + blocks(n, "[footnote](f0)", each=lambda i: f"[footnote=f{i}]\n----\nb{i}\n----\n\n[footnote](f{i})\n\n[isolate=false]\n")
    yield "\n\n<< footnotes\n\n".join(f"[footnote=f{i}]\n----\nb{i}\n----" for i in rng(min(n, 30)))


def c19(n):
    yield "\n\n".join(f"[group=g, position=p{i}]\n----\nb{i}\n----" for i in rng(n)) + "\n\n<< blockgroup:g"
    yield "<< blockgroup:g\n\n" + "\n\n".join(f"[group=g, position={i}]\n----\nb{i}\n----" for i in reversed(rng(n)))
    yield "\n\n".join(f"[group=g{i}, position=p]\n----\nb{i}\n----" for i in rng(n)) + "\n\n" + "\n\n".join(f"<< blockgroup:g{i}" for i in reversed(rng(n)))
    yield "[group=g, position=p]\n----\nb\n----\n\n" + "\n\n".join("<< blockgroup:g" for i in rng(n))
    yield "\n\n".join(f"[group=g, position=p{i}]\n----\nb{i}\n----" for i in rng(n)) + f"\n\n[group=g, position=p{n - 1}]\n----\nz\n----"
    yield "\n\n".join(f"[group=g{i}, position=p]\n----\nb{i}\n----" for i in rng(n)) + f"\n\n<< blockgroup:g{n}"
    yield f"[group={'g' * n}, position={'p' * n}]\n----\nb\n----\n\n<< blockgroup:{'g' * n}"
    yield "\n\n".join(f"[group=g{i % 3}, position=p{i}]\n----\nb{i}\n----" for i in rng(n)) + "\n\n<< blockgroup:g0\n\n<< blockgroup:g1\n\n<< blockgroup:g2"


def c20(n):
    for isolate in ("", "[isolate=false]\n"):
        yield blocks(n, "= in\n\n<< toc", each=lambda i: f"= o{i}\n\n{isolate}") + "\n\n<< toc"
        yield "\n\n".join(f"{isolate}----\n= h{i}\n\n[start=auto]\n# x\n----" for i in rng(n)) + "\n\n[start=auto]\n# y\n\n<< toc"
        yield "<< footnotes\n\n" + "\n\n".join(f"{isolate}----\n[footnote=f{i}]\n====\nx\n====\n\n[footnote](f{i})\n----" for i in rng(n)) + "\n\n<< footnotes"
    yield blocks(n, "= in", each=lambda i: f"[isolate={['true', 'false'][i % 2]}]\n= o{i}\n\n" if False else f"= o{i}\n\n[isolate={['true', 'false'][i % 2]}]\n") + "\n\n<< toc"
    yield "----\n" + "\n\n".join(f"p{i}" for i in rng(n)) + "\n----"
    yield f"[classes=\"{','.join(f'c{i}' for i in rng(n))}\"]\n----\nx\n----"


def c21(n):
    yield "[engine=raw]\n----\n" + "\n".join(f"line {i} _x_" for i in rng(n)) + "\n----"
    yield "[@source, py]\n----\n" + "\n".join(f"line {i}" for i in rng(n)) + "\n----"
    yield "[@source, py]\n----\n" + "\n".join(f"line {i}:{i}:" for i in rng(n)) + "\n----"
    yield "[@source, py]\n----\n" + "\n".join(f"line {i}:@{'+-!x'[i % 4]}:" if i % 3 else f"line {i}" for i in rng(n)) + "\n----"
    yield "[@source]\n----\n" + "\n" * n + "x\n----"
    yield "[engine=raw]\n----\n" + "\n" * n + "----"
    yield "[@source]\n----\n" + " " * n + "x" + " " * n + "\n----"
    yield "[@source]\n----\n" + "x" * n + ":" + "m" * n + ":\n----"
    yield "[@source]\n----\nx" + ":" * n + "\n----"
    yield f"[@source, {'py' * n}]\n----\nx\n----"
    yield "[@source]\n----\n" + "\n".join("-" * i for i in rng(n) if i != 4) + "\n----"
    yield f"[@source, marker_delimiter={'|' * n}]\n----\na{'|' * n}m{'|' * n}\n----"


def c22(n):
    m = min(n, 25)
    files = {f"f{i}.mau": f"= F{i}\n\n:v:{i}\n<< mau:f{i + 1}.mau\n\n{{v}}" for i in rng(m)}
    yield "{v}\n\n<< mau:f0.mau\n\n{v}", {"v": "s"}, {**files, f"f{m}.mau": "last {v}"}
    yield "<< mau:f0.mau", {"v": "s"}, {**files, f"f{m}.mau": "<< mau:f0.mau"}
    yield "<< mau:f0.mau", {"v": "s"}, {**files, f"f{m}.mau": f"<< mau:f{m // 2}.mau"}
    yield "<< mau:f0.mau", {"v": "s"}, {**files, f"f{m}.mau": f"<< mau:f{m}.mau"}
    yield "\n\n".join(f"<< mau:a.mau, call:v={i}" for i in rng(n)), {"v": "s"}, {"a.mau": "= {v}\n\n:v:x{v}\n{v}\n\n<< toc"}
    yield "<< mau:a.mau", {"v": "s"}, {"a.mau": "\n\n".join(f"p{i}" for i in rng(n))}
    yield "<< raw:a.txt", {"v": "s"}, {"a.txt": "\n".join(f" l{i} _x_ " for i in rng(n))}
    yield "<< raw:" + ", ".join(f"a{i}.txt" for i in rng(n)), {"v": "s"}, {f"a{i}.txt": f"t{i}" for i in rng(n)}
    yield "<< mau:a.mau, " + ", ".join(f"call:v{i}=x{i}" for i in rng(n)), {"v": "s"}, {"a.mau": " ".join("{v%d}" % i for i in rng(n))}
    d = "/".join(["d"] * min(n, 30))
    yield f"<< mau:{d}/a.mau", {"v": "s"}, {f"{d}/a.mau": "x {v}"}


def c23(n):
    yield "<< foo:" + ", ".join(f"a{i}" for i in rng(n))
    yield "[" + ", ".join(f"a{i}" for i in rng(n)) + "]\n<< foo"
    yield f"<< image:u, alt, \"{','.join(f'c{i}' for i in rng(n))}\""
    yield f"[u, \"{'alt ' * n}\", \"{', '.join(f'c{i}' for i in rng(n))}\"]\n<< image"
    yield f"<< image:{'u/' * n}"
    yield f"<< {'foo' * n}:a"
    yield "\n\n".join(f"<< image:u{i}" for i in rng(n))
    yield "\n\n".join(f"[u{i}, alt{i}]\n<< image" for i in rng(n))


def c34(n):
    yield "\n\n".join(f"<< raw:a.txt\n\n<< image:u{i}" for i in rng(n)), {}, {"a.txt": "x"}
    yield "\n\n".join(f"<< mau:f{i}.mau" for i in rng(n)), {}, {f"f{i}.mau": f"= H{i}" for i in rng(n)}
    yield "\n\n".join(f"{'=' * (i % 5 + 1)} H{i}" for i in rng(n)), {}, {}
    yield "\n\n".join(f"{'=' * (i + 1)} H{i}" for i in rng(min(n, 60))), {}, {}


SCALES = {"C02": c02, "C05": c05, "C06": c06, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19,
          "C20": c20, "C21": c21, "C22": c22, "C23": c23}

NAMES = ["a", "b", "A", "aB", "a1", "1", "10", "01", "a-b", "a_b", "a.b", "a b", "é", "日", "None", "true", "false", "self", "name", "type", "content", "parent", "subtype", "tags", "args", "kwargs", "class", "document",
         "mau", "main", "default", "source", "toc", "footnotes", "x" * 40, "a/b", "a:b", "a+b", "a'b", "a&b", "<a>", "-", "_a_", "b!", "\\_", "a;b", "title", "uri", "target", "text", "items", "get", "__class__", "%s", "{}", "a|b"]
BASIC = ["a", "b", "A", "1", "10", "a-b", "a_b", "a.b", "é", "None", "true", "name", "type", "content", "class", "mau", "default", "source", "x" * 40, "a/b", "a:b", "text"]

# X and Y are the names.
NAMED = {
    "C08": ["{X} {Y}", "`{X}` {Y}", "= {X}{Y}", "[k={X}]\np {Y}", "* {X}\n** {Y}", "@if X==1\n{Y}"],
    "C09": [":X:1\n:Y:2\n{X} {Y}", ":+X:\n:-Y:\n{X} {Y}", ":X:1\n----\n:Y:2\n{X}\n----\n{X} {Y}", ":n.X:1\n:n.Y:2\n{n.X} {n.Y}", ":X.n:1\n:Y.m:2\n{X.n} {Y.m}", ":k:X\n:l:Y\n{k} {l}"],
    "C10": ["[X=1, Y=2]\np", "[#X, #Y]\np", "[*X, Y]\np", "[X, Y]\np", "[k=X, j=Y]\np", "[m](X, Y)", "[m](X=1, Y=2)", "[m](*X, #Y)", "<< foo:X=1, Y=2", "<< foo:X, Y", "<< X:Y", "[#mau:X, #Y]\n= h", "[X=1, Y=2]\n----\nx\n----", "[X=1, Y=2]\n* i",
            "[*X, Y=1]\n---", "[X=1]\n<< Y"],
    "C12": [".X a\n.Y b\np", ".X a\n.Y b\n= h", ".X a\n.Y b\n----\nx\n----", "[X]\n.Y b\n* i"],
    "C13": ["@if X==1\np\n\n@if Y!=1\nq", "@if k==X\np\n\n@if k!=Y\nq", "[if:X==1](a, b) [if:Y!=1](c, d)", "[if:k==X](a, b) [if:k!=Y](c, d)", "[ifeval:k==X](k, l)"],
    "C14": ["[X](a) [Y](b, k=1)", "[link](X, Y)", "[class](X, Y)", "[mailto](X, Y)", "[image](X, Y)", "[raw](X)[unicode](Y)", "[link](X, t, Y=1)", "[if:v==1](X, Y)"],
    "C16": ["= X\n\n== Y\n\n<< toc", "[internal_id=X]\n= h\n\n[internal_id=Y]\n= h\n\n<< toc", "[name=X]\n= Y\n\n[*Y]\n<< toc"],
    "C17": ["[name=X]\n= A\n\n[name=Y]\n= B\n\n[header](X) [header](Y)", "[header](X)\n\n[name=Y]\n= B\n\n[name=X]\n= A", "[name=X]\n= A\n\n[header](X, Y)"],
    "C18": ["[footnote=X]\n----\n1\n----\n\n[footnote=Y]\n----\n2\n----\n\n[footnote](Y) [footnote](X)\n\n<< footnotes", "[footnote](X)\n\n[footnote=Y]\n----\n2\n----"],
    "C19": ["[group=X, position=1]\n----\n1\n----\n\n[group=Y, position=2]\n----\n2\n----\n\n<< blockgroup:Y\n\n<< blockgroup:X", "[group=g, position=X]\n----\n1\n----\n\n[group=g, position=Y]\n----\n2\n----\n\n<< blockgroup:g"],
    "C20": ["[classes=\"X,Y\"]\n----\nx\n----", "[isolate=X]\n----\n= h\n----\n\n<< toc"],
    "C21": ["[@source, X]\n----\na:Y:\n----", "[@source, language=X]\n----\na:@Y:\nb\n----", "[@source, py, X=Y]\n----\na\n----", "[@source, X, Y]\n----\na\n----", "[engine=raw]\n----\nX\nY\n----", "[engine=X]\n----\nY\n----"],
    "C22": ["<< mau:i.mau, call:X=1, call:Y=2", "<< mau:i.mau, X=1, Y=2", "[call:X=1]\n<< mau:i.mau"],
    "C23": ["<< image:X, Y", "<< image:u, alt, \"X,Y\"", "<< X:Y", "<< X", "[X, Y]\n<< image", "<< image:u, X=Y"],
}
QUOTED = {"a b", "_a_", "\\_"}


def named(pid, alphabet):
    for doc in NAMED[pid]:
        for x in alphabet:
            for y in alphabet if "Y" in doc else alphabet[:1]:
                env = {"k": x, "l": "1"}
                if pid in ("C08", "C13"):
                    for part in (x, y):
                        if all(part.split(".")):
                            put(env, part.split("."), "1" if pid == "C13" else f"<{part}>")
                yield {"text": doc.replace("X", "\0").replace("Y", y).replace("\0", x), "env": env, "files": {"i.mau": "{%s} {k}" % x}}


def put(env, names, value):
    for name in names[:-1]:
        if not isinstance(env.get(name), dict):
            env[name] = {}
        env = env[name]
    if not isinstance(env.get(names[-1]), dict):
        env[names[-1]] = value


def aliases(alphabet):
    """Names of aliases, of their arguments and of their subtypes."""
    for x in alphabet:
        for y in alphabet:
            for t in ("[@X, 1, 2]\np", "[@X, Y=1]\np", "[@X, 1, Y=2]\n= h", "[@X]\n----\nx\n----", "[@Y, 1]\np", "[m](@X, 1)"):
                yield {"text": t.replace("X", "\0").replace("Y", y).replace("\0", x), "env": alias(**{x: {"args": {y: "d"}, "names": [y, "other"], "subtype": y}}), "files": {}}


def check(case):
    expected, _ = lock.agree(case["text"], case["env"], case["files"], compare_env=case.get("env_check", False))
    return lock.outcome(expected)


SIZES = (3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 26, 33, 51, 65, 101)
DEEP = tuple(range(1, 41)) + (50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 150, 200, 255, 256, 257)


def cases(pid, sizes):
    for n in sizes:
        for c in SCALES[pid](n):
            if isinstance(c, str):
                c = (c,)
            text, env, files = (*c, None, None)[:3]
            yield {"text": text, "env": env or {"v": "1"}, "files": files or {}}


def plain_texts(sizes, pids=None, most=None):
    """The documents that need no variables and no files."""
    for pid in pids or SCALES:
        for n in sizes:
            for c in SCALES[pid](n):
                if isinstance(c, str) and (most is None or len(c) <= most):
                    yield c


def families(pid, tier):
    deep = tier == "thorough"
    out = []
    if pid in SCALES:
        out.append(Family("sizes", lambda: cases(pid, DEEP if deep else SIZES), check, f"every element in any number from 1 to {(DEEP if deep else SIZES)[-1]}"))
    if pid in NAMED:
        out.append(Family("unusual-names", lambda: named(pid, NAMES if deep else BASIC), check, "pairs of unusual names in every place of a name"))
    if pid == "C11":
        out.append(Family("unusual-names", lambda: aliases(NAMES if deep else BASIC), check, "pairs of unusual names in aliases"))
    return out
