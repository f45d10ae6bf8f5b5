"""C29: the command line: environment, output, exit status, files touched."""

import contextlib
import io
import itertools
import logging
import os
import shutil
import subprocess
import sys

import yaml

from mc import core, impl, ref, render
from mc.core import Family, Violation
from mau import cli
from mau.visitors.yaml_visitor import YamlVisitor

PID = "C29"
LEVEL = "exploration"
RULE = (
    "Every command line of the family is run in a scratch directory; exit status, standard output and all the files of the directory "
    "have to be the ones computed from the options by a model of the command line. Distinct cases have distinct results."
)
ASSUMPTIONS = ["configuration files that are no dictionaries are not used", "the name of the output of a visitor whose extension starts with a dot is not judged", "names that are both variables and namespaces are not used", "an output file given explicitly is not the input file"]

SITE = {
    "mcvis-1.0.dist-info/METADATA": "Metadata-Version: 2.1\nName: mcvis\nVersion: 1.0\n",
    "mcvis-1.0.dist-info/entry_points.txt": "[mau.visitors]\nshort = mcvis:Visitor\nempty = mcvis:Empty\nbroken = mcvis:Broken\n",
    "mcvis.py": (
        "from mau.environment.environment import Environment\nfrom mau.visitors.yaml_visitor import YamlVisitor\nfrom mau.visitors.base_visitor import create_visitor_exception\nfrom mau.visitors.jinja_visitor import JinjaVisitor\n"
        "from mc import render\n"
        "class Visitor(JinjaVisitor):\n    extension = 'htm'\n    default_templates = Environment.from_dict({t + '.htm': ''.join('{{ ' + p[1:] + ' }}' if p[:1] == '=' else p for p in [t + '(', '=content', '=value', ')']) for t in render.TYPES})\n"
        "class Empty(Visitor):\n    extension = ''\n    default_templates = Environment.from_dict({t: 'e' for t in render.TYPES})\n"
        "class Broken(YamlVisitor):\n    extension = 'br'\n    def _visit_text(self, node, **kwargs):\n        raise create_visitor_exception('broken', node=node)\n"
    ),
}
SHAPES = {t: [t + "(", "=content", "=value", ")"] for t in render.TYPES}

CONFIGS = {
    None: None, "empty.yaml": "", "c.yaml": "a: 1\nb:\n  c: two\nvisitor:\n  templates:\n    custom:\n      text.htm: \"C{{ value }}\"\n", "al.yaml": "parser:\n  aliases:\n    al:\n      subtype: st\n      args: {k: v}\n", "env.yaml": "envvars:\n  a: from-config\nenvfiles:\n  x:\n    k: from-config\n",
    "wrong-c.yaml": "a: [\n", "null.yaml": "a: null\nb:\n  c: null\nenvfiles:\n  x: null\n",
    "j2.yaml": yaml.safe_dump({"visitor": {"templates": {"custom": {t: {"j2": "".join("{{ " + p[1:] + " }}" if p[:1] == "=" else p for p in ["J", t + "(", "=content", "=value", ")"])} for t in render.TYPES}}}}),
    "some.yaml": yaml.safe_dump({"visitor": {"templates": {"custom": {t: {"j2": t} for t in ("document", "paragraph", "paragraph-line", "text")}}}}),
}
CUSTOM = {"j2.yaml": {t: ["J", t + "(", "=content", "=value", ")"] for t in render.TYPES}, "some.yaml": {t: [t] for t in ("document", "paragraph", "paragraph-line", "text")}}
DATA = {"x.yaml": "k: v\nd:\n  e: 5\n", "x.y.yml": "k: w\nl: [1, 2]\n", "dir/x.yaml": "k: other\n", "list.yaml": "[1, 2]\n", "none.yaml": "", "wrong.yaml": "a: [\n", "text.txt": "just text\n", "uni.yaml": "k: é😀\n", "x=y.yaml": "k: equal\n", "nul.yaml": "k: null\n"}
TEXTS = {
    "plain": "p _x_ é", "config": "{mau.a} {mau.b.c}", "vars": "{mau.envvars.a} {mau.envvars.b.c}", "files": "{mau.envfiles.x.k} {mau.envfiles.x.d.e}", "alias": "[@al]\np", "ns": "{mau.n.a} {mau.n.m.x.k}", "include": "<< mau:inc.mau\n\n<< raw:text.txt",
    "lexer-error": "p\n\n----\nx", "nested-lexer-error": "p\n@if v", "parser-error": "p\n\n{zz}", "empty": "", "header": "[#t, k=v]\n= A\n\n<< toc\n\n[footnote](f)\n\n[footnote=f]\n----\nb\n----", "crlf": "a\r\nb\r\n", "source": "{mau.envvars.q}", "debug": "[#mau:debug]\np", "list": "{mau.envfiles.list} {mau.envfiles.k.k}", "null": "{mau.envfiles.none} {mau.envfiles.k.k}", "null-file": "{mau.envfiles.none}",
}


def snapshot():
    out = {}
    for base, dirs, files in os.walk("."):
        for f in files:
            path = os.path.normpath(os.path.join(base, f))
            with open(path, "rb") as h:
                out[path] = h.read()
    return out


def prepare(case):
    site = os.path.join(core.scratch(), "site")
    if site not in sys.path:
        for name, text in SITE.items():
            full = os.path.join(site, name)
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, "w") as f:
                f.write(text)
        sys.path.insert(0, site)
    run = os.path.join(core.scratch(), "run")
    os.chdir(core.scratch())
    shutil.rmtree(run, ignore_errors=True)
    os.makedirs(run)
    os.chdir(run)
    files = {case["input"]: TEXTS[case["text"]], "inc.mau": "inc {mau.envvars.a}" if case["text"] != "include" else "inc", **DATA, **{k: v for k, v in CONFIGS.items() if k}}
    for name, text in {**files, **case.get("existing", {})}.items():
        full = os.path.normpath(name)
        if os.path.dirname(full):
            os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, "w", encoding="utf-8", newline="") as f:
            f.write(text)
    return files


def arguments(case):
    args = ["-i", case.get("missing") or case["input"]]
    if case.get("config"):
        args += ["-c", case["config"]]
    for e in case.get("files", []):
        args += ["-e", e]
    for v in case.get("vars", []):
        args += ["-v", v]
    if case.get("files_ns"):
        args += ["--environment-files-namespace", case["files_ns"]]
    if case.get("vars_ns"):
        args += ["--environment-variables-namespace", case["vars_ns"]]
    if case.get("visitor"):
        args += ["-t", case["visitor"]]
    if case.get("output"):
        args += ["-o", case["output"]]
    return args + case.get("extra", [])


class Wrong(Exception):
    """The command line cannot be executed."""


def model(case):
    """(status, {file: text}, {text in the standard output})"""
    if "--version" in case.get("extra", []):
        return 0, None
    if case.get("visitor") not in (None, "core:YamlVisitor", "core:JinjaVisitor", "mcvis:Visitor", "mcvis:Empty", "mcvis:Broken"):
        return 2, None
    flat = {}
    if case.get("config") in ("missing-c.yaml", "wrong-c.yaml"):
        return 1, None
    config = CONFIGS[case.get("config")]
    nested = {"mau": (yaml.safe_load(config) or {}) if config is not None else {}}
    flat.update(ref.flatten(nested))
    loaded = {}
    for e in case.get("files", []):
        key, eq, path = e.partition("=")
        if not eq:
            path = e
            key = os.path.basename(path)
            key = key[:key.rindex(".")] if "." in key[1:] else key
        text = DATA.get(os.path.normpath(path))
        if text is None:
            return 1, None
        try:
            loaded[key] = yaml.safe_load(text)
        except yaml.YAMLError:
            return 1, None
    if loaded:
        flat.update(ref.flatten({"mau." + (case.get("files_ns") or "envfiles"): loaded}))
    given = {}
    for v in case.get("vars", []):
        key, eq, value = v.partition("=")
        if not eq:
            return 1, None
        given[key] = value
    if case.get("missing"):
        return 1, None
    if given:
        flat.update(ref.flatten({"mau." + (case.get("vars_ns") or "envvars"): given}))
    return None, flat


def judge(case, status, out, before, after, traceback):
    changed = {k: v.decode("utf-8") for k, v in after.items() if before.get(k) != v}
    gone = [k for k in before if k not in after]
    if gone:
        raise Violation(f"files removed: {gone}")
    want, flat = model(case)
    extra = case.get("extra", [])
    if want is not None:
        if status != want or changed:
            raise Violation(f"expected status {want} and no output, found status {status} and {changed}")
        return [status, out[:20]]
    text = TEXTS[case["text"]].replace("\r\n", "\n")
    result = ref.interpret(text, flat, {"inc.mau": "inc", **DATA}, case["input"])
    error = result.error.phase if result.error else None
    if not traceback and error is None and case.get("visitor") == "mcvis:Broken" and result.doc.nodes:
        error = "visitor"
    if error is None and case.get("visitor") == "core:JinjaVisitor" and result.doc.nodes:
        try:
            render.expected(result, CUSTOM.get(case.get("config"), {}))
        except render.NoTemplate:
            error = "visitor"
    if error and not ("--lexer-only" in extra and case["text"] != "lexer-error"):
        if status != 1 or changed:
            raise Violation(f"expected status 1 and no output because of an error, found status {status} and {changed}")
        if traceback:
            raise Violation(f"an error of the document is reported as {traceback}")
        return [status, error]
    if "--lexer-print-output" in extra and "TokenType" not in out and text:
        raise Violation(f"the tokens are not printed: {out!r}")
    if "--lexer-only" in extra:
        if status != 0 or changed:
            raise Violation(f"expected status 0 and no output, found {status} and {changed}")
        return [status, len(out)]
    if not case.get("visitor"):
        if status != 1 or changed or "usage" not in out:
            raise Violation(f"expected status 1 and the help, found {status} and {changed} and {out!r}")
        return [status, "help"]
    if status != 0:
        raise Violation(f"expected status 0, found {status} {traceback}\n{out[-500:]}")
    extension = {"core:YamlVisitor": "yaml", "mcvis:Visitor": "htm", "mcvis:Broken": "br", "mcvis:Empty": "", "core:JinjaVisitor": ".j2"}[case["visitor"]]
    name = case.get("output") or f"{case['input'].removesuffix('.mau')}.{extension}"
    name = name if name == "-" else os.path.normpath(name)
    if case["visitor"] == "core:YamlVisitor":
        rendered = impl.process(text, ref.nest(flat), case["input"], visitor=YamlVisitor).tree
        core.expect(result.tree(True), impl.strip(yaml.safe_load(rendered)), "YAML")
    elif case["visitor"] == "core:JinjaVisitor":
        rendered = render.expected(result, CUSTOM.get(case.get("config"), {}))
    elif case["visitor"] == "mcvis:Visitor":
        shapes = dict(SHAPES)
        if case.get("config") == "c.yaml":
            shapes["text"] = ["C", "=value"]
        rendered = render.expected(result, shapes)
    elif case["visitor"] == "mcvis:Broken":
        rendered = "{}\n" if not result.doc.nodes else impl.process(text, ref.nest(flat), case["input"], visitor=YamlVisitor).tree
    else:
        rendered = "e" if result.doc.nodes else ""
    if name == "-":
        if changed:
            raise Violation(f"files changed: {changed}")
        if not (out.endswith(rendered + "\n") if extra or "debug" in case["text"] else out == rendered + "\n"):
            raise Violation(f"expected the standard output {rendered!r}, found {out!r}")
    else:
        expected = {name: rendered + "\n"}
        have = dict(changed)
        if name in after and name not in have:
            have[name] = after[name].decode("utf-8")
        if have != expected:
            raise Violation(f"expected the files {expected!r}, found {have!r}")
    return [status, rendered, name]


def check(case):
    prepare(case)
    before = snapshot()
    out = io.StringIO()
    traceback = None
    argv = sys.argv
    logging.root.handlers.clear()
    logging.root.setLevel(logging.WARNING)
    sys.argv = ["mau", *arguments(case)]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            cli.main()
        status = 0
    except SystemExit as exc:
        status = exc.code if isinstance(exc.code, int) else 0 if exc.code is None else 1
    except Exception as exc:  # the interpreter exits with status 1
        status = 1
        traceback = repr(exc)
    finally:
        sys.argv = argv
        logging.root.handlers.clear()
    after = snapshot()
    result = judge(case, status, out.getvalue(), before, after, traceback)
    os.chdir(core.scratch())
    return result


def check_process(case):
    """As check, in a new process."""
    prepare(case)
    before = snapshot()
    code = "import sys; sys.dont_write_bytecode = True; sys.argv[0] = 'mau'; from mau.cli import main; main()"
    env = {**os.environ, "PYTHONPATH": os.pathsep.join([os.path.join(core.scratch(), "site"), impl.REPO, core.VERIF]), **case.get("process", {})}
    run = subprocess.run([sys.executable, "-c", code, *arguments(case)], env=env, capture_output=True, timeout=60)
    after = snapshot()
    err = run.stderr.decode("utf-8", "replace")
    result = judge(case, run.returncode, run.stdout.decode("utf-8"), before, after, err[-300:] if "Traceback" in err else None)
    os.chdir(core.scratch())
    return result


def families(tier):
    deep = tier == "thorough"
    yam, vis = "core:YamlVisitor", "mcvis:Visitor"

    def subsets(items, maximum, ordered=False):
        for n in range(maximum + 1):
            yield from (itertools.permutations if ordered else itertools.combinations)(items, n)

    def outputs():
        for text in TEXTS:
            for name in ("main.mau", "./main.mau", "main", "main.txt", "main.mau.mau", "sub/dir/main.mau", "a b.mau", ".mau", "main.yaml", "mau", "x.mau.txt", "main.htm", "a .mau", " é.mau", "main.MAU", "mau.mau", "a.mau.b.mau"):
                for output in (None, "-", "out.txt", "sub/dir/main.out" if name.startswith("sub") else "x.yaml.out"):
                    for visitor in (yam, vis, "mcvis:Empty", "mcvis:Broken", None, "zz"):
                        if text not in ("plain", "parser-error", "empty") and (name != "main.mau" or output == "out.txt"):
                            continue
                        if name == ".mau" and visitor == "mcvis:Empty":
                            continue
                        if output and os.path.normpath(output) == os.path.normpath(name):
                            continue
                        yield {"input": name, "text": text, "output": output, "visitor": visitor}

    def existing():
        for text in ("plain", "lexer-error", "parser-error", "vars", "empty"):
            for visitor in (yam, vis, "mcvis:Broken", None, "zz"):
                for output in (None, "-", "out.txt"):
                    for extra in ([], ["--lexer-only"]):
                        yield {"input": "main.mau", "text": text, "output": output, "visitor": visitor, "extra": extra, "existing": {n: "old" for n in ("out.txt", "main.yaml", "main.htm", "main.br", "main", "-")}}

    variables = ["a=1", "a=2", "b.c=x", "a=", "b.c=p=q", "a={mau.envvars.b.c}", "q=_s_", "q=é", "n", "q=\"x y\"", "a== 1"]
    files = ["x.yaml", "x=x.yaml", "x=dir/x.yaml", "dir/x.yaml", "x.y.yml", "x=x.y.yml", "list.yaml", "none.yaml", "wrong.yaml", "missing.yaml", "k=uni.yaml", "x.k=text.txt", "x=./x.yaml", "list=text.txt", "k=x.yaml", "k=x=y.yaml", "x=y.yaml", "k=nul.yaml", "none=none.yaml"]

    def environment():
        for text in ("vars", "source", "ns"):
            for vs in subsets(variables, 3 if deep else 2, True):
                for ns in (None, "n", "n.o") if text == "ns" else (None,):
                    yield {"input": "main.mau", "text": text, "vars": list(vs), "visitor": yam, "output": "-", "vars_ns": ns}
        for text in ("files", "list", "ns", "null", "null-file"):
            for fs in subsets(files, 3 if deep else 2, True):
                if "x.k=text.txt" in fs and len(fs) > 1:
                    continue
                for ns in (None, "n.m") if text == "ns" else (None,):
                    yield {"input": "main.mau", "text": text, "files": list(fs), "vars": ["a=1"], "vars_ns": "n" if text == "ns" else None, "visitor": yam, "output": "-", "files_ns": ns}

    def mixed():
        for text in ("config", "vars", "files", "alias", "plain"):
            for c in (None, "empty.yaml", "c.yaml", "al.yaml", "env.yaml", "null.yaml"):
                for v in ([], ["a=1", "b.c=2"], ["b.c=3"]):
                    for f in ([], ["x.yaml"], ["x=dir/x.yaml"]):
                        for visitor in (yam, vis):
                            yield {"input": "main.mau", "text": text, "config": c, "vars": v, "files": f, "visitor": visitor, "output": "-"}

    def settings():
        for text in TEXTS:
            for c in CONFIGS:
                for visitor in (yam, vis, "core:JinjaVisitor"):
                    for output in ("-", "out.txt"):
                        yield {"input": "main.mau", "text": text, "config": c, "vars": ["a=1", "b.c=2", "q=3"], "files": ["x.yaml"], "visitor": visitor, "output": output}

    def missing():
        for c in (*CONFIGS, "missing-c.yaml"):
            for name in (None, "missing.mau", "dir", "missing/main.mau"):
                for v in ([], ["a=1"], ["n"]):
                    for f in ([], ["x.yaml"], ["wrong.yaml"], ["dir"]):
                        for visitor in (yam, vis, None):
                            for output in (None, "-", "out.txt"):
                                if name or v == ["n"] or f not in ([], ["x.yaml"]) or (c or "").endswith("-c.yaml"):
                                    yield {"input": "main.mau", "missing": name, "text": "plain", "config": c, "vars": v, "files": f, "visitor": visitor, "output": output, "existing": {"main.yaml": "old", "out.txt": "old"}}

    def flags():
        for text in TEXTS:
            for extra in subsets(["--verbose", "--debug", "--lexer-print-output", "--lexer-only", "--version"], 3):
                for visitor in (yam, vis, None):
                    yield {"input": "main.mau", "text": text, "vars": ["a=1", "q=2"], "visitor": visitor, "extra": list(extra), "output": "-" if "--lexer-print-output" in extra else None}

    def processes():
        for process in ({}, {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "PYTHONIOENCODING": "utf-8"}):
            for text in TEXTS:
                for visitor in (yam, vis, "mcvis:Broken", None):
                    yield {"input": "main.mau", "text": text, "vars": ["a=1"], "files": ["k=uni.yaml"], "visitor": visitor, "output": None if visitor != vis else "-", "process": process}

    return [
        Family("outputs", outputs, check, "documents, names of the input, outputs, visitors"),
        Family("existing", existing, check, "files that exist already"),
        Family("environment", environment, check, "environment variables and files"),
        Family("mixed", mixed, check, "configuration, variables and files"),
        Family("settings", settings, check, "documents, configurations, visitors"),
        Family("missing", missing, check, "files that are missing or wrong"),
        Family("flags", flags, check, "flags"),
        Family("processes", processes, check_process, "complete processes"),
    ]
