"""C32: the debug tag gives messages and changes nothing else; the log contains the messages."""

import logging
import re
from collections import Counter

from checks import c04, c31
from mc import core, gen, impl, large, lock, render
from mc.core import Family, Violation
from mc.impl import Environment
from mau import Mau
from mau.message import LogMessageHandler, MauException
from mau.visitors.base_visitor import BaseVisitor
from mau.visitors.jinja_visitor import JinjaVisitor
from mau.visitors.yaml_visitor import YamlVisitor

PID = "C32"
LEVEL = "exploration"
RULE = (
    "Every document is processed with and without the debug tag in each of its places, and with a recording logger; the outputs have to be the same, "
    "and the messages those of the nodes that have the tag. Distinct cases have distinct messages."
)
ASSUMPTIONS = []

ENV = {"v": "1"}
FILES = {"i.mau": "[#mau:debug]\n= Inc\n\np _x_", "r.txt": "raw\n\nx"}


class Visitor(JinjaVisitor):
    default_templates = Environment.from_dict({t + ".j2": render.UNIVERSAL for t in render.TYPES})


class OtherVisitor(JinjaVisitor):
    """The arguments are not shown, so that the tag cannot have an effect."""

    default_templates = Environment.from_dict({t + ".j2": "[{{ _type }} {{ args }} {{ kwargs }} {{ tags }} {{ subtype }} {{ value }} {{ content }}{% if header is mapping %}{{ header.content }}{% else %}{{ header }}{% endif %}{{ footnote }}{{ footnotes }}{{ nested_entries }}{{ plain_entries }}{{ entries }}{{ labels }}{{ items }}{{ block }}{{ internal_id }}]" for t in render.TYPES})


def tagged(tree, skip=False):
    """The nodes that have the debug tag, each time they are visited."""
    if isinstance(tree, dict):
        if not skip and "debug" in (tree.get("internal_tags") or ()):
            yield tree
        for key, value in tree.items():
            # The data of some nodes are available without a visit.
            if key != "parent":
                yield from tagged(value, key in ("block_data", "header", "footnote"))
    elif isinstance(tree, (list, tuple)):
        for value in tree:
            yield from tagged(value)


def bare(tree):
    """A tree without internal tags."""
    if isinstance(tree, dict):
        return {k: bare(v) for k, v in tree.items() if k != "internal_tags"}
    if isinstance(tree, (list, tuple)):
        return [bare(v) for v in tree]
    return tree


def key(kind, context):
    if isinstance(context, dict):
        return kind, context["source"], context["start_line"] + 1, context["start_column"], context["end_line"] + 1, context["end_column"]
    return kind, context.source, context.start_line, context.start_column, context.end_line, context.end_column


def check_debug(case):
    """«» is the place of the tag."""
    lock.write_files(FILES)
    runs = {}
    for tag in ("#mau:debug", case.get("other", "#mau:zz")):
        text = case["text"].replace("«»", tag)
        for visitor in (BaseVisitor, YamlVisitor, OtherVisitor):
            run = impl.process(text, ENV, visitor=visitor)
            runs[tag, visitor] = run
            debug = [m for p, m in run.messages if p == "debug"]
            if tag != "#mau:debug" and "«»" in case["text"] and "#mau:debug" not in case["text"]:
                shift = sum(m.context.source == "main.mau" for m in debug)
                if shift:
                    raise Violation("a debug message without the debug tag")
    yes, no = (runs[t, BaseVisitor] for t in ("#mau:debug", case.get("other", "#mau:zz")))
    if yes.phase != no.phase:
        raise Violation(f"with the tag {yes.phase}, without {no.phase}")
    if yes.phase is not None:
        return ["error", yes.messages[-1][1].text]
    core.expect(bare(impl.strip(no.tree)), bare(impl.strip(yes.tree)), "tree")
    if runs["#mau:debug", OtherVisitor].tree != runs[case.get("other", "#mau:zz"), OtherVisitor].tree:
        raise Violation("the output with templates depends on the tag")
    nodes = list(tagged(yes.tree))
    want = Counter(key(n["_type"], n["_context"]) for n in nodes)
    for visitor in (BaseVisitor, YamlVisitor, OtherVisitor):
        run = runs["#mau:debug", visitor]
        if any(p != "debug" for p, _ in run.messages):
            raise Violation("an error was reported but the run succeeded")
        found = Counter(key(m.node_type, m.context) for _, m in run.messages)
        if found != want:
            raise Violation(f"{visitor.__name__}: expected messages for {want}, found {found}")
    for _, m in runs["#mau:debug", BaseVisitor].messages:
        if not any(m.data == n for n in nodes):
            raise Violation(f"the data of the message are not the ones of the node: {m.data}")
    return sorted(map(list, want.elements())) or None


class Recorder(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        self.lines.append((record.levelno, record.getMessage()))


def position(context):
    """Lines from 1, with the source."""
    return f"{context.source}:{context.start_line + 1},{context.start_column}-{context.end_line + 1},{context.end_column}"


def logged(text, level, prefix, threshold, visitor, env=ENV):
    logger = logging.Logger("c32", threshold)
    recorder = Recorder()
    logger.addHandler(recorder)
    options = {}
    if prefix is not None:
        options["prefix"] = prefix
    if level is not None:
        options["debug_logging_level"] = level
    handler = LogMessageHandler(logger, **options)
    try:
        tree = Mau(handler, Environment.from_dict(env)).process(visitor, text, "main.mau")
    except MauException as exc:
        tree = "error"
        # The message can be handled again.
        lines = list(recorder.lines)
        recorder.lines.clear()
        handler.process(exc.message)
        if lines[len(lines) - len(recorder.lines):] != recorder.lines:
            raise Violation(f"the log of the same message is {lines} and then {recorder.lines}")
        return lines, tree
    return recorder.lines, tree


def check_log(case):
    """The log contains what the messages say."""
    lock.write_files(FILES)
    text = case["text"]
    visitor = {"base": BaseVisitor, "jinja": Visitor, "none": JinjaVisitor}[case.get("visitor", "base")]
    level, prefix, threshold = case.get("level"), case.get("prefix"), case.get("threshold", 1)
    env = ENV if "settings" not in case else c31.settings(case)
    run = impl.process(text, env, visitor=visitor)
    lines, tree = logged(text, level, prefix, threshold, visitor, env)
    if tree != ("error" if run.phase else run.tree):
        raise Violation("the result depends on the message handler")
    level = logging.INFO if level is None else level
    shown = [p for p, _ in run.messages if (logging.ERROR if p != "debug" else level) >= threshold]
    if bool(lines) != bool(shown):
        raise Violation(f"{len(run.messages)} messages, log {lines}")
    for kind, message in run.messages:
        want = logging.ERROR if kind != "debug" else level
        if want < threshold:
            continue
        mine = [l for n, l in lines if n == want]
        if not any(message.text in l for l in mine):
            raise Violation(f"{message.text} is not in the log {lines}")
        if kind == "lexer":
            line, column = message.position
            where = [f"({line + 1}, {column})", message.source]
        elif kind == "parser":
            where = [position(message.context)] if message.context else []
        else:
            where = [repr(message.context)] if message.context else []
        if kind == "parser" and message.help_text:
            where.append(message.help_text)
        if kind in ("lexer", "parser") and any(l.endswith("None") or not l.strip() for l in mine):
            raise Violation(f"empty lines in the log {lines}")
        if kind == "visitor":
            where += [str(x) for pair in (message.additional_info or {}).items() for x in pair]
        for w in where:
            if not any(w in l for l in mine):
                raise Violation(f"the position {w} is not in the log {lines}")
        if kind in ("debug", "visitor"):
            if message.node_type and not any(message.node_type in l for l in mine):
                raise Violation("the kind of the node is not in the log")
            if not all(l.startswith("[MAU] " if prefix is None else prefix) for n, l in lines):
                raise Violation(f"lines without the prefix in {lines}")
            for name, value in (message.data or {}).items():
                if not any(name in l and str(value) in l for l in mine):
                    raise Violation(f"the value of {name} is not in the log")
    if any(n not in (logging.ERROR, level) for n, l in lines):
        raise Violation(f"levels {[n for n, l in lines]}")
    return [l for n, l in lines] or None


PARTS = [
    "[«»]\np _x_", "[a, «», *s, #t, k=v]\n.l x\np\nq", "[«»]\n= A", "[«»]\n== B\n\n<< toc", "[«»]\n* i\n** j", "[«»]\n---", "[«»]\n----\nx\n\n[«»]\ny\n----", "[«», engine=raw]\n----\nx\n----", "[@source, py, «»]\n----\na:@:\nb:1:\n----",
    "<< foo:a, «»", "<< image:u, «»", "<< mau:i.mau, «»", "<< raw:r.txt, «»", "<< toc:«»", "[«»]\n<< toc\n\n= C", "<< footnotes:«»", "[footnote](f, «») [footnote](f)\n\n[«», footnote=f]\n----\n[«»]\nb\n----\n\n<< footnotes", "[«», group=g, position=p]\n----\n[«»]\nx\n----\n\n<< blockgroup:g, «»\n\n<< blockgroup:g",
    "[«», name=h]\n= H\n\n[header](h, «»)\n\n[header](h)", "[link](u, t, «»)", "[m](a, «») _[n](«»)_ `v`", "[class](\"_x_\", c, «»)", "[image](u, «») [unicode](263A, «») [raw](x, «») [mailto](e, «»)", "[if:v==1](\"[m](«»)\")", "[if:v!=1](\"[m](«»)\")",
    "@if v==2\n[«»]\nx", "[«»]\n.l [m](«»)\n* [n](«»)\n* p", "[«», isolate=false]\n----\n[«»]\n= In\n----\n\n<< toc", "[«», «»]\np", "[#mau:other, «»]\np", ":a:[m](«»)\n{a} {a}", "[\"«»\"]\np", "// «»", "[«», name=h]\n= [m](«») x\n\n<< toc\n\n[header](h)", "p",
]
ERRORS = [("[«»]\np {zz}", 1), ("[footnote](zz, «»)", 1), ("[«»]\np\n\n////\nx", 1)]


def families(tier):
    deep = tier == "thorough"
    wrap = ["{}", "====\n{}\n====", "a\n\n[isolate=false]\n====\n{}\n====", "[#mau:debug]\n====\n{}\n===="] if deep else ["{}", "====\n{}\n====", "a\n\n[isolate=false]\n====\n{}\n===="]
    wrong = lambda: (c04.locate(p.replace("{}", w))[0] for w in c04.INLINE + c04.LINES for p in (list(c04.PLACES.values()) if deep else ["{}", "text\n\n{}", "====\n{}\n===="]))
    full = [p.replace("«»", "#mau:debug") for p in PARTS]
    levels = [(l, p, t, v) for l in (None, logging.DEBUG, logging.WARNING, logging.ERROR) for p in (None, "x: ", "") for t in (1, logging.DEBUG, logging.INFO, logging.WARNING, logging.CRITICAL) for v in ("base", "jinja", "none") if p != ""]
    return [
        Family("tags", lambda: ({"text": w.replace("{}", p)} for p in PARTS + [e for e, _ in ERRORS] for w in wrap), check_debug, "the tag in every construct"),
        Family("names", lambda: ({"text": p, "other": t} for p in PARTS for t in ("#mau:", "#mau:Debug", "#mau:debugx", "#mau: debug", "#mau:xdebug", "#mau:debug debug")), check_debug, "other tags give no message"),
        Family("sequences", lambda: ({"text": "\n\n".join(s)} for s in gen.seqs(PARTS[:12] + ["[«»]\np [footnote](f, «»)", "[footnote=f]\n----\n[«»]\nb\n----", "<< footnotes:«»", "[«», name=h]\n== H", "[header](h, «»)"], 3 if deep else 2, 2)), check_debug, "sequences of constructs with the tag"),
        Family("log-debug", lambda: ({"text": t, "level": l, "prefix": p, "threshold": h, "visitor": v} for t in full for l, p, h, v in levels), check_log, "levels, prefixes, visitors"),
        Family("log-errors", lambda: ({"text": t} for t in [*wrong(), *UNCLOSED]), check_log, "the log of every error"),
        Family("log-settings", lambda: ({"text": t, "settings": [[n, v]], "visitor": k} for n in c31.PARSER + TEMPLATES for v in c31.VALUES if (n, v) != ("mau.parser.document_wrapper", "function") for t in ([*DOCUMENTS, "<< toc\n\n= A"] if deep else DOCUMENTS) for k in (("base", "jinja", "none") if n in TEMPLATES else ("base", "jinja") if deep else ("base",))), check_log, "the log of errors without a position"),
        Family("sizes", lambda: ({"text": t} for n in (large.DEEP[::2] if deep else large.SIZES[:-1:2]) for t in (
            "\n\n".join(f"[«»]\np{i}" for i in range(n)), "\n\n".join(f"[{'«»' if i % 3 else 'a'}, k{i}=v]\n= H{i}" for i in range(n)) + "\n\n<< toc", " ".join(f"[m{i}](a, «»)" for i in range(n)), "[" + ", ".join(f"#t{i}" for i in range(n)) + ", «»]\np",
            large.blocks(n, "[«»]\nin", each=lambda i: "[«»]\n"), "\n\n".join(f"[«», footnote=f{i}]\n----\nx\n----" for i in range(n)) + "\n\n<< footnotes:«»")), check_debug, "the tag any number of times"),
    ]


TEMPLATES = ["mau.visitor.templates.prefixes", "mau.visitor.templates.providers", "mau.visitor.templates.paths", "mau.visitor.templates.custom", "mau.visitor.templates.custom.text", "mau.visitor.templates.custom.text.j2"]
DOCUMENTS = ["= A\n\n[@al]\np [footnote](f)\n\n[@source, footnote=f]\n----\nx:@new:\n----"]

UNCLOSED = [c04.locate(p)[0] for p in c04.UNCLOSED]
