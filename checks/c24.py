"""C24: the variables of an environment under sequences of operations."""

import collections
import copy

from mc import core, gen, large
from mc.core import Family, Violation
from mc.impl import Environment, process
from mau.visitors.jinja_visitor import JinjaVisitor

PID = "C24"
LEVEL = "model_checking"
RULE = (
    "Breadth-first search of the states of an environment (a flat dictionary) under all operations of the alphabet; each "
    "transition is executed by the implementation, replaying the history, and all observations are compared with the model after "
    "it. The families execute complete histories without merging states; distinct cases have distinct final contents."
)
ASSUMPTIONS = ["names are strings"]

DICTS = [{"a": 1}, {"a": {"b": 2}}, {"a.b": 3}, {"a": {"b": {"c": 4}, "d": 5}}, {"b": {}}, {"b": [1, {"x": 2}], "c": None}, {}, {"ab": 6, "a": {"c": False}}, {"a": {"b.c": 7, "": 8}}, {"b": {"a": {"": 0}}}]
NAMESPACES = [None, "", "a", "n.m"]
KEYS = ["a", "b", "a.b", "a.b.c", "n.m.a"]
VALUES = ["x", 0, {"b": 9}, {}, [1], None]
OBSERVED = ["a", "b", "c", "a.b", "a.b.c", "a.d", "a.c", "ab", "n", "n.m", "n.m.a", "n.m.a.b", "n.m.b", "a.", "", "zz", "a.a", "n.m.n.m", "a.a.b", "b.a", "n.m.ab"]


def operations(deep):
    ops = []
    for n in NAMESPACES:
        for i in range(len(DICTS)):
            ops.append(["dupdate", i, n])
            ops.append(["update", i, n, True])
            ops.append(["update", i, n, False])
    for k in KEYS:
        for i in range(len(VALUES)):
            ops.append(["set", k, i])
    for n in NAMESPACES[1:] if deep else ["a"]:
        ops.append(["copy", n])
        ops.append(["self-update", n, True])
        ops.append(["self-update", n, False])
    ops.append(["copy", None])
    for k in ("a", "n", "n.m", "a.b"):
        ops.append(["enter", k])
    return ops


# -- the model --------------------------------------------------------------


def flatten(d, namespace=None):
    out = {}

    def walk(prefix, value):
        if isinstance(value, dict) and value:
            for k, v in value.items():
                walk(f"{prefix}.{k}" if prefix else k, v)
        else:
            out[prefix] = value

    for k, v in d.items():
        walk(f"{namespace}.{k}" if namespace else k, v)
    if namespace and not d:
        out[namespace] = {}
    return out


def model_step(state, op):
    kind = op[0]
    new = dict(state)
    if kind == "dupdate":
        new.update(flatten(DICTS[op[1]], op[2]))
    elif kind == "update":
        add = flatten(flatten(DICTS[op[1]]), op[2])
        new = {**new, **add} if op[3] else {**add, **new}
    elif kind == "set":
        new.update(flatten({op[1]: VALUES[op[2]]}))
    elif kind == "copy":
        new = flatten(state, op[1])
    elif kind == "self-update":
        add = flatten(state, op[1])
        new = {**new, **add} if op[2] else {**add, **new}
    elif kind == "enter":
        got = model_get(state, op[1])
        if isinstance(got, tuple):
            new = got[1]
    return new


MISSING = object()


def model_get(state, key):
    if key in state and state[key] != {}:
        return state[key]
    sub = {k[len(key) + 1:]: v for k, v in state.items() if k.startswith(key + ".")}
    if sub:
        return ("environment", flatten(sub))
    return state.get(key, MISSING)


def nest(state):
    out = {}
    for k, v in state.items():
        d = out
        *path, last = k.split(".")
        for p in path:
            # A name that is both a variable and a namespace: the latest.
            if not isinstance(d.get(p, {}), dict):
                del d[p]
            d = d.setdefault(p, {})
        if v == {}:
            d.setdefault(last, {})
        else:
            d[last] = v
    return out


# -- the implementation -----------------------------------------------------


def impl_step(env, op):
    kind = op[0]
    if kind == "dupdate":
        arg = copy.deepcopy(DICTS[op[1]])
        env.dupdate(arg, op[2])
        if arg != DICTS[op[1]]:
            raise Violation(f"{op} changes its argument")
    elif kind == "update":
        other = Environment.from_dict(copy.deepcopy(DICTS[op[1]]))
        env.update(other, op[2], overwrite=op[3])
        core.expect(flatten(DICTS[op[1]]), dict(other.asflatdict()), f"{op} changes its argument")
    elif kind == "set":
        env[op[1]] = copy.deepcopy(VALUES[op[2]])
    elif kind == "copy":
        old = env
        before = dict(old.asflatdict())
        env = Environment.from_environment(old, op[1])
        env["zz.copy"] = 1
        core.expect(before, dict(old.asflatdict()), "a copy shares the variables of the original")
        old["zz.orig"] = 1
        if env.get("zz.orig", MISSING) is not MISSING:
            raise Violation("a copy shares the variables of the original")
        env = Environment.from_dict(before, op[1])
    elif kind == "self-update":
        env.update(env, op[1], overwrite=op[2])
    elif kind == "enter":
        got = env.get(op[1])
        if isinstance(got, Environment):
            before = dict(env.asflatdict())
            got["zz"] = 1
            core.expect(before, dict(env.asflatdict()), "a namespace shares the variables of the original")
            env = env.get(op[1])
    return env


def observe(env, state):
    core.expect(state, dict(env.asflatdict()), "asflatdict")
    for key in OBSERVED:
        want = model_get(state, key)
        got = env.get(key, MISSING)
        if isinstance(got, Environment):
            got = ("environment", dict(got.asflatdict()))
        if want is MISSING or got is MISSING:
            if want is not got:
                raise Violation(f"get({key!r}): expected {'nothing' if want is MISSING else want!r}, found {'nothing' if got is MISSING else got!r}")
            if env.get(key) is not None:
                raise Violation(f"get({key!r}): the default is not None")
        elif want != got or type(want) is not type(got):
            raise Violation(f"get({key!r}): expected {want!r}, found {got!r}")
        try:
            item = env[key]
        except KeyError:
            item = MISSING
        if (item is MISSING) != (key not in state) or (item is not MISSING and item != state[key]):
            raise Violation(f"[{key!r}]: expected {state.get(key, 'KeyError')!r}, found {item!r}")
    nested = nest(state)
    core.expect(nested, env.asdict(), "asdict")
    core.expect(flatten(nested), dict(Environment.from_dict(env.asdict()).asflatdict()), "asdict and back")
    core.expect(state, dict(env.asflatdict()), "asdict changes the variables")


def execute(history):
    env = Environment()
    state = {}
    for op in history:
        env = impl_step(env, op)
        state = model_step(state, op)
    observe(env, state)
    return state


def check_history(case):
    env = Environment()
    state = {}
    for op in case:
        env = impl_step(env, op)
        state = model_step(state, op)
        observe(env, state)
    return sorted(state.items(), key=str) or None


def check_scale(case):
    """Any number of variables, levels and names of any kind."""
    n, kind, namespace = case["n"], case["kind"], case["namespace"]
    names = case.get("names") or [f"k{i}" for i in range(n)]
    if kind == "flat":
        dicts = [{k: i for i, k in enumerate(names)}]
    elif kind == "one":
        dicts = [{k: i} for i, k in enumerate(names)]
    elif kind == "deep":
        value = 1
        for k in reversed(names):
            value = {k: value}
        dicts = [value]
    elif kind == "dotted":
        dicts = [{".".join(names[: i + 1]) + ".z": i} for i in range(len(names))]
    elif kind == "tree":
        dicts = [{k: {"p": i, "q": {k: [i]}}} for i, k in enumerate(names)]
    else:
        dicts = [{names[i % 2]: {"x": i}} for i in range(len(names))]
    env = Environment()
    state = {}
    for d in dicts:
        given = copy.deepcopy(d)
        if case["with"] == "dict":
            env.dupdate(given, namespace)
        elif case["with"] == "environment":
            env.update(Environment.from_dict(given), namespace)
        else:
            for k, v in flatten(d, namespace).items():
                env[k] = v
        core.expect(d, given, "the argument")
        state.update(flatten(d, namespace))
    env = Environment.from_environment(env)
    observe(env, state)
    for name in {k[:i] for k in state for i in range(len(k) + 1) if k[i:i + 1] in ("", ".")}:
        want = model_get(state, name)
        got = env.get(name)
        core.expect(want, ("environment", dict(got.asflatdict())) if isinstance(got, Environment) else got, f"get({name!r})")
    return [case["n"], kind, namespace, sorted(map(str, state))]


def check_start(case):
    """from_dict and from_environment are an update of an empty environment."""
    i, n, m = case
    env = Environment.from_dict(copy.deepcopy(DICTS[i]), n)
    state = flatten(DICTS[i], n)
    observe(env, state)
    env = Environment.from_environment(env, m)
    state = flatten(state, m)
    observe(env, state)
    return sorted(state.items(), key=str) or None


def check_config(case):
    """The variables in the templates are those of the environment."""
    state = flatten(case["env"])
    env = dict(case["env"])
    text = "".join(f":{k}:{v}\n" for k, v in case["define"]) + "\np"
    state.update(case["define"])
    env["mau"] = {"visitor": {"templates": {"custom": {"document.j2": "{% for k, v in config.items() if k != 'mau' %}{{ k }}={{ v }};{% endfor %}", "paragraph.j2": "p", "paragraph-line.j2": "p", "text.j2": "t"}}}}
    run = process(text, env, visitor=JinjaVisitor)
    if run.phase is not None:
        raise Violation(f"error {run.messages[-1][1]}")
    core.expect("".join(f"{k}={v};" for k, v in nest(state).items()), run.tree, "config")
    return run.tree


class Search:
    """Breadth-first search; a state is reached with its first history."""

    name = "states"

    def __init__(self, ops, depth):
        self.ops = ops
        self.depth = depth
        self.history = []

    def replay(self, case):
        return execute(case)

    def run(self):
        seen = {core.digest("{}")}
        frontier = collections.deque([([], {})])
        transitions = traces = 0
        deepest = 0
        while frontier:
            history, state = frontier.popleft()
            if len(history) >= self.depth:
                continue
            for op in self.ops:
                self.history = history + [op]
                new = model_step(state, op)
                transitions += 1
                key = core.digest(core.canon({k: [type(v).__name__, v] for k, v in new.items()}))
                known = key in seen
                got = execute(self.history)
                traces += 1
                if not known:
                    seen.add(key)
                    frontier.append((self.history, got))
                    deepest = max(deepest, len(self.history))
        return {"states": len(seen), "transitions": transitions, "traces": traces, "depth": deepest}


def families(tier):
    deep = tier == "thorough"
    ops = operations(deep)
    fams = [
        Family("start", lambda: ([i, n, m] for i in range(len(DICTS)) for n in NAMESPACES for m in NAMESPACES), check_start, "creation from dictionaries and environments"),
        Family("histories", lambda: (list(h) for h in gen.seqs(ops, 2)), check_history, "all histories of at most 2 operations"),
        Family(
            "histories-3",
            lambda: (list(h) for h in gen.seqs(ops if deep else ops[::4], 3, 3)),
            check_history,
            "all histories of 3 operations (quick: over every fourth operation)",
        ),
        Family("sizes", lambda: ({"n": n, "kind": k, "namespace": m, "with": w} for n in (large.DEEP if deep else large.SIZES) for k in ("flat", "one", "deep", "dotted", "tree", "again") for m in (None, "ns", "a.b.c") for w in ("dict", "environment", "set")
                                 if k != "dotted" or n < 70), check_scale, "any number of variables and levels"),
        Family("unusual-names", lambda: ({"n": 2, "names": [x, y], "kind": k, "namespace": m, "with": w} for x in [n for n in large.NAMES if "." not in n] for y in [n for n in large.NAMES if "." not in n][::1 if deep else 3] for k in ("flat", "deep", "tree")
                                         for m in (None, "ns") for w in ("dict", "environment", "set")), check_scale, "pairs of unusual names"),
        Family(
            "config",
            lambda: ({"env": e, "define": d} for e in ({}, {"a": "1"}, {"n": {"b": "1"}}, {"n": {"m": {"c": "2"}}, "k": "3"}) for d in ([], [["x", "1"]], [["n.c", "4"]], [["n.m.d", "5"], ["y", "6"]], [["n.b", "7"]])),
            check_config,
            "variables in the templates",
        ),
        Family(
            "conflicts",
            lambda: ({"env": {}, "define": [[k, str(i)] for i, k in enumerate(d)]} for d in gen.seqs(["a", "a.b", "a.b.c", "a.c", "b.a"], 3, 1)),
            check_config,
            "names that are both variables and namespaces",
        ),
    ]
    return fams


def models(tier):
    ops = operations(tier == "thorough")
    return [Search(ops, 3 if tier == "thorough" else 2)]
