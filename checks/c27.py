"""C27: the YAML output is the tree, whatever the characters of the text."""

import yaml

from mc import core, gen, impl, large, lock, ref
from mc.core import Family, Violation
from mau.visitors.base_visitor import BaseVisitor
from mau.visitors.yaml_visitor import YamlVisitor

PID = "C27"
LEVEL = "exploration"
RULE = (
    "Every document of the family is processed by the base visitor and by the YAML visitor; the YAML text, loaded by a YAML parser, has "
    "to be the tree, and every character of the text has to be in it. Distinct cases have distinct trees."
)
ASSUMPTIONS = ["code points that are not characters (surrogates) are not explored", "the YAML library loads what it writes"]

ENV = {"v": "1", "n": 5, "f": 1.5, "t": True, "y": "yes", "nl": "a\\nb", "d": {"a": "x"}}
FILES = {"i.mau": "= Inc\n\np", "r.txt": "raw: [1]\n- x\n\t#c"}
WORDS = ["yes", "no", "null", "~", "1", "1.5", "0x1", "1e3", "true", "- a", "a: b", "# c", "&a", "*a", "!t", "%d", "@x", "'q'", "\"q\"", "[a]", "{a: b}", "|", ">", "? a", "2020-01-01", "=", "<<", "---", "...", " a", "a ", "a\\", ",", ":", "\t", "é", "😀", "\u2028", "\x85", "\ufeff", "\x07", "0", "on", "Off", "NaN", ".inf", "1_000", "0b1", "1:30"]
CHARS = [chr(c) for c in range(0x20)] + ["'", "\"", ":", "#", "-", "\\", "é", "\x7f", "\x85", "\xa0", "\u2028", "\ufeff", "\ufffe", "\uffff", "😀", "\U0010ffff", "a", " "]


def escape(text):
    return "".join("\\" + c if c in "\\_*^~`$%{}[]()\"" else c for c in text)


def values(tree):
    """All the strings found in the values of a tree."""
    if isinstance(tree, dict):
        for k, v in tree.items():
            if k != "_context":
                yield from values(v)
    elif isinstance(tree, (list, tuple)):
        for v in tree:
            yield from values(v)
    elif isinstance(tree, str):
        yield tree


def plain(tree):
    if isinstance(tree, dict):
        return {k: plain(v) for k, v in tree.items()}
    if isinstance(tree, (list, tuple)):
        return [plain(v) for v in tree]
    return tree


def check(case):
    lock.write_files(FILES)
    base = impl.process(case["text"], ENV)
    text = impl.process(case["text"], ENV, visitor=YamlVisitor)
    if base.phase is not None or text.phase is not None:
        if base.phase != text.phase:
            raise Violation(f"base visitor {base.phase}, YAML visitor {text.phase}")
        return "error"
    if not isinstance(text.tree, str):
        raise Violation(f"the output is {text.tree!r}")
    core.expect(plain(base.tree), yaml.safe_load(text.tree), "YAML")
    if "literal" in case and not any(case["literal"] in v for v in values(base.tree)):
        raise Violation(f"{case['literal']!r} is not in the tree {impl.strip(base.tree, False)}")
    return impl.strip(base.tree, False)


def check_reference(case):
    """As above, and the YAML is the tree of the reference."""
    lock.write_files(FILES)
    want = ref.interpret(case["text"], ENV, FILES)
    text = impl.process(case["text"], ENV, visitor=YamlVisitor)
    if want.error or text.phase is not None:
        if (want.error and want.error.phase) != text.phase:
            raise Violation(f"expected {want.error}, found {text.phase}")
        return "error"
    core.expect(want.tree(True), impl.strip(yaml.safe_load(text.tree)), "YAML")
    return impl.strip(yaml.safe_load(text.tree), False)


PLACES = {
    "paragraph": "a{}b", "verbatim": "`a{}b`", "header": "= a{}b", "item": "* a{}b", "label": ".l a{}b\np", "raw": "[engine=raw]\n----\na{}b\n----", "argument": "[\"a{}b\"]\np", "named": "[k=\"a{}b\"]\np", "macro": "[m](\"a{}b\")", "variable": ":x:a{}b\n{x}",
    "link": "[link](\"a{}b\", \"c{}d\")", "source": "[@source]\n----\na{}b\n----",
}
PARTS = ["p _x_", "= A", "[#t, *s, k=v]\n.l _x_\n* i\n** j", "[start=3]\n# o", "---", "----\nx\n----", "[engine=raw]\n----\n- a: b\n----", "[@source, py]\n----\na:@:\nb:1:\n----", "<< foo:1, k=~", "<< image:u", "<< mau:i.mau", "<< raw:r.txt", "<< toc", "<< footnotes", "[footnote](f)",
         "[footnote=f]\n----\nb\n----", "[group=g, position=1]\n----\nx\n----", "<< blockgroup:g", "[name=h]\n== H", "[header](h)", "`1` [link](u) {n} {f} {t} {y}", ":z:1", "[#mau:x]\np"]


def families(tier):
    deep = tier == "thorough"

    def characters():
        step = 48
        top = 0x110000 if deep else 0x3000
        points = [c for c in range(top) if not 0xD800 <= c < 0xE000 and c != 10]
        if not deep:
            points += list(range(0xF8F0, 0x10010)) + list(range(0x1F5F0, 0x1F650)) + [0x10FFFE, 0x10FFFF]
        for i in range(0, len(points), step):
            literal = "".join(chr(c) for c in points[i:i + step])
            for place in (PLACES if not deep else ("paragraph", "raw", "argument")):
                if place == "source" and ":" in literal:
                    continue
                raw = place in ("raw", "source")
                text = literal if raw else escape(literal) if place not in ("argument", "named") else literal.replace("\\", "\\\\").replace("\"", "\\\"").replace("{", "\\{").replace("}", "\\}").replace("`", "\\`")
                if place in ("verbatim", "argument", "named", "macro", "variable", "link"):
                    if any(c in literal for c in "\\\"`{}[]()_*^~$%"):
                        continue
                    text = literal
                yield {"text": PLACES[place].replace("{}", text), "literal": literal}

    return [
        Family("characters", characters, check, "all the characters, in groups, in all the places"),
        Family("strings", lambda: ({"text": p.replace("{}", s)} for s in gen.strings(CHARS, 2) for p in (PLACES.values() if deep else list(PLACES.values())[:6:3])), check, "all texts of at most 2 characters that are special in YAML"),
        Family("words", lambda: ({"text": p.replace("{}", w).replace("a" + w + "b", w)} for w in WORDS for p in PLACES.values()), check, "texts that look like other YAML values"),
        Family("documents", lambda: ({"text": "\n\n".join(s)} for s in gen.seqs(PARTS, 3 if deep else 2)), check_reference, "sequences of constructs"),
        Family("sizes", lambda: ({"text": t} for t in large.plain_texts(large.DEEP[5::9] if deep else (7, 33), most=1500 if deep else 200) if t.count("<<") < 5), check_reference, "every element in any number"),
    ]
