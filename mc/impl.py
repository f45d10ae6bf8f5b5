"""Access to the implementation under test (/repo)."""

import os
import sys

REPO = os.environ.get("MAU_REPO", "/repo")
sys.dont_write_bytecode = True
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)

from mau import Mau  # noqa: E402
from mau.environment.environment import Environment  # noqa: E402
from mau.message import BaseMessageHandler, MauException  # noqa: E402
from mau.visitors.base_visitor import BaseVisitor  # noqa: E402

import mau  # noqa: E402

assert os.path.realpath(mau.__file__).startswith(os.path.realpath(REPO) + os.sep), mau.__file__


class Recorder(BaseMessageHandler):
    type = "recorder"

    def __init__(self):
        self.messages = []

    def process_lexer_error(self, message):
        self.messages.append(("lexer", message))

    def process_parser_error(self, message):
        self.messages.append(("parser", message))

    def process_visitor_error(self, message):
        self.messages.append(("visitor", message))

    def process_visitor_debug(self, message):
        self.messages.append(("debug", message))


class Run:
    """The outcome of a run: tree (or None), phase of the error (or None)."""

    def __init__(self, tree, phase, messages, env):
        self.tree = tree
        self.phase = phase
        self.messages = messages
        self.env = env


def process(text, env=None, source="main.mau", visitor=BaseVisitor, environment=None):
    handler = Recorder()
    if environment is None:
        environment = Environment.from_dict(env or {})
    m = Mau(handler, environment)
    try:
        tree = m.process(visitor, text, source)
    except MauException:
        phases = [p for p, _ in handler.messages if p != "debug"]
        return Run(None, phases[-1] if phases else "unreported", handler.messages, environment)
    return Run(tree, None, handler.messages, environment)


def parse(text, env=None, source="main.mau"):
    """The node tree (not visited)."""
    handler = Recorder()
    environment = Environment.from_dict(env or {})
    m = Mau(handler, environment)
    try:
        lexer = m.run_lexer(m.init_text_buffer(text, source))
        parser = m.run_parser(lexer.tokens)
    except MauException:
        return None, handler
    return parser.output, handler


def strip(tree, parents=True):
    """Remove the source positions (and the parents)."""
    if isinstance(tree, dict):
        # Arguments, labels and groups can have any name.
        node = "_type" in tree
        return {
            k: strip(v, parents)
            for k, v in tree.items()
            if not node or k != "_context" and (parents or k != "parent")
        }
    if isinstance(tree, (list, tuple)):
        return [strip(v, parents) for v in tree]
    return tree
