"""C34: what is given with a document: the list of the included files and the table of contents."""

from mc import core, gen, impl, large, lock, ref
from mc.core import Family, Violation
from mc.impl import Environment
from mau.visitors.base_visitor import BaseVisitor

PID = "C34"
LEVEL = "exploration"
RULE = (
    "Every document of the family is parsed; the list of the included files and the table of contents given with it have to be the ones of the "
    "reference interpreter, and positions have to be the ones of the inclusions in the text. Distinct cases have distinct lists."
)
ASSUMPTIONS = []

ENV = {"v": "1", "n": {"f": "a.mau"}}
FILES = {
    "a.mau": "a {x}\n\n= A", "b.mau": "p\n\n<< mau:a.mau, call:x=b\n\n== B", "c.mau": "----\n<< mau:b.mau\n----\n\n<< mau:a.mau, call:x=c", "e.mau": "", "d/f.mau": "[group=g, position=p]\n====\n<< mau:a.mau\n====\n\n<< blockgroup:g",
    "self.mau": "<< mau:self.mau", "back.mau": "<< mau:main.mau", "r.txt": "<< mau:a.mau", "x.mau": "{zz}", "vars.mau": "@if {x}=={w}\n<< mau:{x}.mau, {y}",
}
INCLUDES = [
    "<< mau:a.mau", "<< mau:b.mau", "<< mau:c.mau", "<< mau:e.mau", "<< mau:d/f.mau", "<< mau:d/../a.mau, call:x=1, call:y.z=2, call:x=3, k=v", "[a.mau, call:x=\"q, r\"]\n<< mau", "<< mau:uri=b.mau, pass_environment=false", "<< mau:{n.f}, call:v={v}",
    "@if v==2\n<< mau:a.mau", "@if v==1\n[a.mau]\n.l x\n<< mau", "----\n<< mau:a.mau\n\n<< mau:b.mau\n----", "[isolate=false]\n----\n<< mau:b.mau\n\n====\n<< mau:a.mau\n====\n----", "[footnote=f]\n----\n<< mau:a.mau, call:x=f\n----", "[footnote](f)",
    "[group=g, position=p]\n----\n<< mau:b.mau\n----", "<< blockgroup:g", "<< raw:r.txt", "<< image:a.mau", "<< other:a.mau", "[engine=raw]\n----\n<< mau:a.mau\n----", "// << mau:a.mau", "p\n<< mau:a.mau", "* i\n# j", "@if v==2\n----\n<< mau:a.mau\n----",
    "<< mau:vars.mau, call:x=a, call:w=a, call:y=k=1", "<< mau:vars.mau, call:x=a, call:w=b, call:y=1", "  << mau:a.mau", "<< mau:e.mau, call:=1, call:call:x=2", ":n.f:b.mau",
]
WRONG = ["<< mau:self.mau", "<< mau:back.mau", "<< mau:zz.mau", "<< mau:x.mau", "<< mau", "[a.mau]\n<< mau:a.mau", "{zz}"]
HEADERS = [
    "= A", "== B _c_", "=== C", "[internal_id=own]\n= D", "[name=h]\n.l lab\n== H", "[header](h)", "== [header](h)", "[a, #t, *s, k=v]\n= E", "----\n= In\n----", "[isolate=false]\n----\n== Out\n\n[isolate=false]\n====\n= Deep\n====\n----", "[isolate=false, group=g, position=p]\n----\n== G\n----",
    "<< mau:a.mau", "@if v==2\n= X", "<< toc", "p", "[isolate=false]\n----\n<< mau:b.mau\n\n<< toc\n----", "[isolate=false]\n----\n----", "= ",
]


def position(call):
    """The inclusion is in the text at its position."""
    context = call.info.context
    text = FILES_AND_MAIN.get(context.source)
    if text is None or context.source != call.caller_uri:
        raise Violation(f"the source of an inclusion is {context.source}, in {call.caller_uri}")
    lines = text.split("\n")
    line = lines[context.start_line] if context.start_line < len(lines) else ""
    if line[context.start_column:context.end_column] != "<< mau" or context.end_line != context.start_line:
        raise Violation(f"there is no inclusion at {context}")
    return context.source, context.start_line, context.start_column


FILES_AND_MAIN = {}


def check(case):
    files = case.get("files") or FILES
    lock.write_files(files)
    text = case["text"]
    FILES_AND_MAIN.clear()
    FILES_AND_MAIN.update({**files, "main.mau": text})
    expected = ref.interpret(text, ENV, files)
    output, handler = impl.parse(text, ENV)
    if expected.error is not None or output is None:
        if expected.error is None or output is not None:
            raise Violation(f"expected {expected.error}, found {[m.text for _, m in handler.messages]}")
        return ["error", handler.messages[-1][1].text]
    calls = [[c.caller_uri, c.callee_uri, c.call_arguments] for c in output.include_calls]
    core.expect([list(c) for c in expected.doc.calls], calls, "inclusions")
    where = [position(c) for c in output.include_calls]
    # The same inclusion can be executed more than once
    # only if its file is included more than once.
    if len(set(w for w in where if w[0] == "main.mau")) != len([w for w in where if w[0] == "main.mau"]):
        raise Violation(f"an inclusion is listed twice: {where}")
    if not expected.doc.nodes:
        if output.document is not None or output.toc is not None:
            raise Violation("an empty document has a content")
        return ["empty", calls] if calls else None
    want = {"nested": [e.project(False) for e in ref.nested(expected.doc.headers, None)], "plain": [h.project(False) for h in expected.doc.headers]}
    visitor = BaseVisitor(handler, Environment.from_dict(ENV))
    toc = output.toc
    found = {
        "nested": [impl.strip(visitor.visit(e), False) for e in toc.nested_entries],
        "plain": [impl.strip(visitor.visit(h), False) for h in toc.plain_entries],
    }
    core.expect(want, found, "table of contents")
    return [calls, found["nested"]] if calls or found["nested"] else None


def families(tier):
    deep = tier == "thorough"
    return [
        Family("inclusions", lambda: ({"text": "\n\n".join(s)} for s in gen.seqs(INCLUDES, 3 if deep else 2)), check, "sequences of inclusions of all kinds"),
        Family("inclusions-lines", lambda: ({"text": "\n".join(s)} for s in gen.seqs(INCLUDES, 2, 2)), check, "inclusions on consecutive lines"),
        Family("inclusions-3", lambda: ({"text": "\n\n".join(s)} for s in gen.seqs(INCLUDES[:17], 4 if deep else 3, 3)), check, "longer sequences of inclusions"),
        Family("wrong", lambda: ({"text": "\n\n".join(s)} for a in INCLUDES for w in WRONG for s in ((a, w), (w, a), (f"----\n{w}\n----", a))), check, "wrong inclusions"),
        Family("contents", lambda: ({"text": "\n\n".join(s)} for s in gen.seqs(HEADERS, 4 if deep else 3)), check, "headers in all places"),
        Family("nested", lambda: ({"text": f"{a}\n\n[{i}]\n====\n{b}\n====\n\n{c}"} for a in HEADERS for b in HEADERS + INCLUDES for c in HEADERS for i in ("isolate=false", "classes=c")), check, "blocks between headers"),
        Family("sizes", lambda: ({"text": c[0], "files": c[2]} for n in (large.DEEP if deep else large.SIZES) for c in large.c34(n)), check, "any number of inclusions and headers"),
    ]
