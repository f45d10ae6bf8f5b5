"""Agreement between the reference interpreter and the implementation."""

import os

from . import core, impl, ref
from .core import Violation

_written = {}


def write_files(files):
    """Put files in the working directory (names are relative)."""
    for name in list(_written):
        if name not in files:
            os.unlink(name)
            del _written[name]
    for name, text in files.items():
        if _written.get(name) != text:
            d = os.path.dirname(name)
            if d:
                os.makedirs(d, exist_ok=True)
            with open(name, "w", encoding="utf-8", newline="") as f:
                f.write(text)
            _written[name] = text


def agree(text, env=None, files=None, source="main.mau", parents=False, compare_env=False):
    """Run a document with both, return the run of the
    implementation and the result of the reference."""
    write_files(files or {})
    expected = ref.interpret(text, env, files, source)
    run = impl.process(text, env, source)
    return compare(expected, run, parents, compare_env)


def compare(expected, run, parents=False, compare_env=False):
    if expected.error is not None:
        if run.phase is None:
            raise Violation(f"expected {expected.error}, found {impl.strip(run.tree, False)}")
        if run.phase != expected.error.phase:
            raise Violation(f"expected {expected.error}, found an error of phase {run.phase}")
        return expected, run
    if run.phase is not None:
        message = run.messages[-1][1] if run.messages else None
        raise Violation(f"expected {expected.tree(False)}, found error {run.phase} {message}")
    tree = impl.strip(run.tree, parents)
    want = expected.tree(parents)
    if tree != want:
        raise Violation(core.diff(want, tree))
    if arguments(tree) != arguments(want):
        raise Violation(f"the order of the named arguments, labels and items is {arguments(tree)}, expected {arguments(want)}")
    if compare_env:
        have = {k: v for k, v in run.env.asflatdict().items()}
        if have != expected.env:
            raise Violation("environment " + str(core.diff(expected.env, have)))
    return expected, run


def arguments(tree, out=None):
    """The named arguments, labels, and items of all nodes, in order."""
    out = [] if out is None else out
    if isinstance(tree, dict):
        node = "_type" in tree
        for field in ("kwargs", "labels", "items") if node else ():
            if isinstance(tree.get(field), dict) and len(tree[field]) > 1:
                out.append(list(tree[field]))
        for key in sorted(tree):
            if not (node and key == "parent") and isinstance(tree[key], (dict, list)):
                arguments(tree[key], out)
    elif isinstance(tree, list):
        for child in tree:
            arguments(child, out)
    return out


def outcome(expected):
    """What distinguishes executions."""
    if expected.error is not None:
        return "error " + expected.error.what
    t = expected.tree(False)
    return t or None


def doc_case(case):
    """A case {text, env, files} checked in lockstep."""
    expected, _ = agree(case["text"], case.get("env"), case.get("files"))
    return outcome(expected)
