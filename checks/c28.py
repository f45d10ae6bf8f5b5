"""C28: the result of a run depends on its input only: not on previous runs, on the process, on the hash seed, on the locale, on the directory."""

import copy
import hashlib
import itertools
import json
import os
import shutil
import subprocess
import sys

from mc import core, gen, impl, lock
from mc.core import Family, Violation
from mc.impl import Environment
from mau.visitors.base_visitor import BaseVisitor
from mau.visitors.jinja_visitor import JinjaVisitor
from mau.visitors.yaml_visitor import YamlVisitor

PID = "C28"
LEVEL = "exploration"
RULE = (
    "Every sequence of runs in one process is executed and each run has to give (result or error, messages, positions) what it gives "
    "alone in a new process; every run is repeated in processes with other settings. Distinct cases have distinct results."
)
ASSUMPTIONS = ["runs are sequential (the library has no concurrency)"]

FILES = {"i.mau": "= Inc {v}\n\n[footnote](f)\n\n[footnote=f]\n----\nin é\n----", "j.mau": "<< mau:j.mau", "r.txt": "raw é", "t/text.j2": "é{{ value }}", "t/document.j2": "D{{ content }}", "t/paragraph.j2": "P{{ content }}", "t/paragraph-line.j2": "L{{ content }}"}
ALIASES = {"v": "1", "mau": {"parser": {"aliases": {"al": {"args": {"k": "d", "j": "e"}, "names": ["x", "y"], "subtype": "st"}, "source": {"names": ["language", "name"], "args": {"engine": "source"}}}}}}
CUSTOM = {"mau": {"visitor": {"templates": {"custom": {"document.j2": "[{{ content }}]", "block.j2": "b{{ content }}{{ args }}", "paragraph.j2": "p{{ content }}", "paragraph-line.j2": "l{{ content }}", "text.j2": "{{ value }}", "block.s.j2": "s{{ content }}"}}}}}
PATHS = {"mau": {"visitor": {"templates": {"paths": ["t"]}}}}

# (text, environment, visitor)
RUNS = [
    ("p _x_ {v}", {"v": "1"}, "base"),
    (":v:2\n{v}\n\n[#t, k={v}]\n= A", {"v": "1"}, "base"),
    ("{v}", {}, "base"),
    ("[@al, 1, 2]\n= A\n\n[@al, 3, k=z]\n= A\n\n[@source, py, n]\n----\na:@:\n----", ALIASES, "base"),
    ("[@source, py]\n----\na:@+:\nb:1:\n----\n\n[@al]\np", {}, "base"),
    ("[@source, py]\n.l x\n----\na:@+:\nb:1:\n----", {}, "base"),
    ("[footnote](f) [footnote](f)\n\n[footnote=f]\n----\nb\n----\n\n<< footnotes", {}, "base"),
    ("[footnote=f]\n----\nb\n----", {}, "base"),
    ("[footnote](f)", {}, "base"),
    ("[name=h]\n= A\n\n== B\n\n[header](h)\n\n<< toc", {}, "base"),
    ("[header](h)", {}, "base"),
    ("[group=g, position=p]\n----\nx\n----\n\n<< blockgroup:g", {}, "base"),
    ("<< blockgroup:g", {}, "base"),
    ("# a\n# b\n\n[start=auto]\n# c", {}, "base"),
    ("[start=auto]\n# c", {}, "base"),
    ("<< mau:i.mau\n\n<< mau:i.mau, call:v=3", {"v": "2"}, "base"),
    ("<< mau:j.mau", {}, "base"),
    ("<< raw:r.txt\n\n[a, b]\n.l x\n@if v==1\n", {"v": "1"}, "base"),
    ("[isolate=false]\n----\n= A\n\n[k]\n.l y", {}, "base"),
    ("_a *b ^c ~d `e $f %g [link](h \"i", {}, "base"),
    ("_a " + "*b ( " * 12 + "`c", {}, "base"),
    ("_a_ *b* " + "_c_ d " * 12, {}, "base"),
    ("[#mau:debug]\np", {}, "base"),
    ("[*s, 1]\n----\nx\n----\n\n----\ny\n----", CUSTOM, "jinja"),
    ("a\n\nb", PATHS, "jinja"),
    ("a", {}, "jinja"),
    ("= A\n\n[k=v]\np é", {}, "yaml"),
    ("", {}, "yaml"),
    ("[k", {}, "base"),
    ("[engine=zz]\n----\nx\n----", {}, "base"),
]
VISITORS = {"base": BaseVisitor, "yaml": YamlVisitor, "jinja": JinjaVisitor}
STATELESS = [i for i, (t, e, v) in enumerate(RUNS) if ":v:" not in t and e in ({}, {"v": "1"}) and v == "base"]


def show(run):
    messages = []
    for phase, m in run.messages:
        messages.append([phase, m.text, str(getattr(m, "context", None)), str(getattr(m, "position", None)), getattr(m, "source", None) if phase == "lexer" else None])
    return [run.tree, run.phase, messages, run.env.asflatdict()]


def plain(value):
    return json.loads(json.dumps(value, default=repr))


def execute(number, environment=None, handler=None):
    lock.write_files(FILES)
    text, env, visitor = RUNS[number]
    given = copy.deepcopy(env)
    run = impl.process(text, given, visitor=VISITORS[visitor], environment=environment)
    if given != env:
        raise Violation(f"the dictionary of variables was changed: {core.diff(env, given)}")
    return plain(show(run))


def alone(numbers):
    """The results of some runs, each in a new process."""
    out = []
    for number in numbers:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                import tempfile

                core.setup_here(tempfile.mkdtemp(prefix="solo", dir="/dev/shm"), "w")
                with os.fdopen(w, "w") as f:
                    try:
                        f.write(json.dumps(execute(number)))
                    except Violation as exc:
                        f.write(json.dumps(str(exc)))
            finally:
                import shutil

                os.chdir("/")
                shutil.rmtree(os.path.dirname(core.SCRATCH), ignore_errors=True)
                os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            data = f.read()
        os.waitpid(pid, 0)
        out.append(json.loads(data) if data else "no result")
    return out


SOLO = None


def same(number, got, where):
    if got != SOLO[number]:
        raise Violation(f"{where}: run {RUNS[number][0]!r} ({RUNS[number][2]}) gives another result: {core.diff(SOLO[number], got)}")


def check_sequence(case):
    out = []
    for position, number in enumerate(case):
        got = execute(number)
        same(number, got, f"after {[RUNS[n][0] for n in case[:position]]}")
        out.append(got)
    return out


def check_shared(case):
    """Runs that do not define variables do not change the environment they share."""
    environment = Environment.from_dict({"v": "1"})
    out = []
    for position, number in enumerate(case):
        text, env, visitor = RUNS[number]
        fresh = Environment.from_dict({"v": "1"})
        want = plain(show(impl.process(text, None, environment=fresh)))
        got = plain(show(impl.process(text, None, environment=environment)))
        core.expect(want[:3], got[:3], f"environment used by {[RUNS[n][0] for n in case[:position]]}")
        out.append(got[:2])
    # Defaults are added to the environment, once.
    core.expect(environment.get("v"), "1", "the variable")
    return out


DEFINING = [
    ":v:3", ":n.a:{v}\n{n.a}", ":+v:\n@if v==true\np", ":-v:", ":#t:x", "----\n:v:4\n----\n{v}", "[k={v}]\n= H {v}\n\n[header](x)", "{v} {n.a}", ":v:5\n{nothing}",
    "[@al, 1]\np", "[@al, 1, 2, k=3]\n----\n[@al]\nx\n----\n\n[@al, {v}]\n= A", "[@source, py, n]\n----\na:@:\n----", "<< mau:i.mau, call:v=9\n\n{v}", "[start=auto]\n# x\n# y", "[footnote=f]\n----\n{v}\n----\n\n[footnote](f)",
    ":mau.parser.x:1\n{mau.parser.x}", "[engine=zz]\n----\n----", "[label](a)\n\n.l {v}\np",
]


def check_reuse(case):
    """After any runs, an environment (or an object) gives what a new one with its variables gives."""
    lock.write_files(FILES)
    start = {"v": "1", "mau": copy.deepcopy(ALIASES["mau"])}
    shared = Environment.from_dict(start)
    handler = impl.Recorder()
    m = impl.Mau(handler, Environment.from_dict(start))
    out = []
    for position, number in enumerate(case):
        text = DEFINING[number]
        where = f"used by {[DEFINING[n] for n in case[:position]]}"
        fresh = Environment.from_dict(copy.deepcopy(shared.asdict()))
        want = plain(show(impl.process(text, None, environment=fresh)))
        got = plain(show(impl.process(text, None, environment=shared)))
        core.expect(want, got, f"environment {where}")
        handler.messages.clear()
        try:
            tree = m.process(BaseVisitor, text, "main.mau")
        except impl.MauException:
            tree = None
        phases = [p for p, _ in handler.messages if p != "debug"]
        core.expect(want, plain(show(impl.Run(tree, phases[-1] if phases else None, handler.messages, m.environment))), f"object {where}")
        out.append(got)
    return out


def check_mau(case):
    """One Mau object used for all the runs, as for a set of pages."""
    lock.write_files(FILES)
    handler = impl.Recorder()
    m = impl.Mau(handler, Environment.from_dict({"v": "1"}))
    out = []
    for number in case:
        handler.messages.clear()
        text = RUNS[number][0]
        want = plain(show(impl.process(text, {"v": "1"})))
        try:
            tree = m.process(BaseVisitor, text, "main.mau")
        except impl.MauException:
            tree = None
        phases = [p for p, _ in handler.messages if p != "debug"]
        got = plain(show(impl.Run(tree, phases[-1] if phases else None, handler.messages, m.environment)))
        core.expect(want[:3], got[:3], f"object used by {[RUNS[n][0] for n in case]}")
        out.append(got[:2])
    return out


NAMES = ["paragraph.tg_a.j2", "paragraph.tg_b.j2", "paragraph.tg_c.j2", "paragraph/tg_a.j2", "paragraph/tg_d.j2", "paragraph.pt_document.j2", "paragraph/pt_document.j2", "paragraph.tg_a.tg_b.j2", "paragraph/tg_b/tg_a.j2", "paragraph.j2"]


def check_directory(case):
    """The order in which the files of a directory are created does not matter."""
    out = set()
    for names in itertools.permutations(case["names"]):
        shutil.rmtree("order", ignore_errors=True)
        for name in names:
            os.makedirs(os.path.dirname("order/" + name), exist_ok=True)
            with open("order/" + name, "w", encoding="utf-8") as f:
                f.write(name)
        run = impl.process(case["text"], {"mau": {"visitor": {"templates": {"paths": ["order"], "custom": {"document.j2": "{{ content }}", "paragraph-line.j2": "", "text.j2": ""}}}}}, visitor=JinjaVisitor)
        out.add(run.tree if run.phase is None else "error: " + run.messages[-1][1].text)
    if len(out) != 1:
        raise Violation(f"the order of the files changes the result: {sorted(out)}")
    return [case["text"], sorted(out)]


SETTINGS = [{"PYTHONHASHSEED": str(n)} for n in range(8)] + [
    {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"TZ": "Asia/Tokyo"}, {"PYTHONOPTIMIZE": "1"}, {"HOME": "/nonexistent"}, {"MC_CWD": "sub dir"}, {"MC_STDIN": "closed"}, {"MC_RECURSION": "3000"}, {"PYTHONHASHSEED": "4294967295"},
]


def check_setting(case):
    lock.write_files(FILES)
    cwd = core.scratch()
    if "MC_CWD" in case:
        cwd = os.path.join(core.scratch(), case["MC_CWD"])
        os.makedirs(cwd, exist_ok=True)
    env = {k: v for k, v in os.environ.items() if not k.startswith("MC_")}
    env.update({k: v for k, v in case.items() if not k.startswith("MC_")})
    code = (
        f"import sys; sys.dont_write_bytecode = True; sys.path.insert(0, {core.VERIF!r}); "
        + (f"sys.setrecursionlimit({case['MC_RECURSION']}); " if "MC_RECURSION" in case else "")
        + "from mc import core; import os, json; core.SCRATCH = os.getcwd(); from checks import c28; "
        "print(json.dumps([c28.execute(n) for n in range(len(c28.RUNS))]))"
    )
    result = subprocess.run([sys.executable, "-c", code], cwd=cwd, env=env, capture_output=True, text=True, timeout=120, encoding="utf-8", stdin=subprocess.DEVNULL)
    if result.returncode:
        raise Violation(f"with {case}: {result.stderr[-600:]}")
    for number, got in enumerate(json.loads(result.stdout)):
        same(number, got, f"with {case}")
    return [case, hashlib.sha1(result.stdout.encode()).hexdigest()]


def families(tier):
    global SOLO
    deep = tier == "thorough"
    if SOLO is None:
        SOLO = alone(range(len(RUNS)))
    numbers = range(len(RUNS))
    return [
        Family("sequences", lambda: (list(s) for s in gen.seqs(numbers, 2)), check_sequence, "all sequences of at most 2 runs"),
        Family("sequences-3", lambda: (list(s) for s in gen.seqs(numbers, 3, 3)), check_sequence, "all sequences of 3 runs"),
        *([Family("sequences-4", lambda: (list(s) for s in gen.seqs(numbers[::2], 4, 4)), check_sequence, "all sequences of 4 of a half of the runs")] if deep else []),
        Family("environment", lambda: (list(s) for s in gen.seqs(STATELESS, 3 if deep else 2)), check_shared, "sequences of runs that share the environment"),
        Family("object", lambda: (list(s) for s in gen.seqs(STATELESS, 3 if deep else 2)), check_mau, "sequences of runs of one object"),
        Family("reuse", lambda: (list(s) for s in gen.seqs(range(len(DEFINING)), 3, 2)) if deep else (list(s) for s in gen.seqs(range(len(DEFINING)), 2, 2)), check_reuse, "sequences of 2 (thorough 3) documents with definitions that share an environment and an object"),
        Family("directories", lambda: ({"names": list(n), "text": t} for k in ((2, 3, 4) if deep else (2, 3)) for n in itertools.combinations(NAMES, k) for t in ("[#a, #b, #c, #d]\np", "[#c, #b]\np")), check_directory, "directories of 2 to 3 (thorough 4) templates created in all orders"),
        Family("settings", lambda: iter(SETTINGS), check_setting, "other settings of the process"),
    ]
