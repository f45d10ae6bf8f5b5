"""Enumeration of bounded sets of documents."""

import itertools

from . import lock
from .core import Family


def seqs(alphabet, maximum, minimum=1):
    """All sequences of elements of the alphabet."""
    for n in range(minimum, maximum + 1):
        yield from itertools.product(alphabet, repeat=n)


def strings(alphabet, maximum, minimum=1):
    for s in seqs(alphabet, maximum, minimum):
        yield "".join(s)


def docs(alphabet, maximum, minimum=1, prefix="", suffix="", join="\n"):
    for s in seqs(alphabet, maximum, minimum):
        yield prefix + join.join(s) + suffix


def lockstep(name, texts, rule, env=None, files=None):
    """A family of documents executed by both the implementation and the
    reference. `texts` is a function that returns an iterable of texts or of
    (text, env) pairs."""

    def cases():
        for t in texts():
            if isinstance(t, tuple):
                yield {"text": t[0], "env": t[1], "files": files or {}}
            else:
                yield {"text": t, "env": env or {}, "files": files or {}}

    return Family(name, cases, lock.doc_case, rule)


# The places where text can appear in a document. Each is a function from
# the text to the document.
CONTEXTS = {
    "paragraph": lambda s: s,
    "second-line": lambda s: "x\n" + s,
    "header": lambda s: "== " + s,
    "list-item": lambda s: "* " + s,
    "nested-item": lambda s: "# i\n## " + s,
    "label": lambda s: ".role " + s + "\nhost",
    "block": lambda s: "----\n" + s + "\n----",
    "block2": lambda s: "====\n****\n" + s + "\n****\n====",
    "footnote-body": lambda s: "p[footnote](fn)\n\n[footnote=fn]\n----\n" + s + "\n----",
    "group": lambda s: "[group=g,position=p]\n----\n" + s + "\n----\n\n<< blockgroup:g",
    "true-branch": lambda s: ":t:1\n@if t==1\n" + s,
}


def in_contexts(texts, contexts=None):
    for name, wrap in CONTEXTS.items():
        if contexts is None or name in contexts:
            for t in texts():
                yield wrap(t)
