"""C30: the nodes of a document form one tree, and a copy of it is independent."""

from copy import deepcopy

from mc import core, gen, impl, large, lock
from mc.core import Family, Violation
from mau.nodes.node import Node
from mau.visitors.base_visitor import BaseVisitor

PID = "C30"
LEVEL = "exploration"
RULE = (
    "Every document of the family is parsed; all the nodes are visited and the structure judged, then the document is copied and "
    "the copy judged and changed. Distinct cases have distinct trees."
)
ASSUMPTIONS = []

FILES = {"i.mau": "= Inc\n\n<< toc", "r.txt": "raw"}
PARTS = [
    "p _x_\ny", "[a, #t, *s, k=v]\n.l lab _x_\np", "[name=h]\n.l x\n= A _c_", "== B", ".l x\n* i\n** _j_\n# k", "---", ".l x\n---", "----\nx _y_\n\n= in\n\n<< toc\n----", "[isolate=false]\n.l x\n----\n= out\n\n[footnote](f)\n----", "[engine=raw]\n----\na\nb\n----",
    "[@source, py]\n.l x\n----\na:@:\nb:1:\n----", ".l x\n<< foo:a", "<< image:u", "<< mau:i.mau", "<< raw:r.txt", ".l x\n<< toc", ".l x\n<< footnotes", "[footnote](f) _[footnote](f)_", "[footnote=f]\n----\nbody _b_\n\n* i\n----", "[group=g, position=p]\n.l x\n----\nx\n----", "[group=g, position=q]\n----\n[isolate=false]\n====\n_y_\n====\n----",
    ".l x\n<< blockgroup:g", "[header](h) [header](h, \"_t_\")", "[name=x]\n.l [header](h)\n== [header](h) [header](h, \"_t_\")", "[class](\"_c_ [link](u, v)\", d) [link](u, \"_t_\") [m](a)", "[if:v==1](\"_y_ [footnote](f)\", n)",
    "[start=4]\n# i\n## j\n# k", "[start=3]\n* i\n## j", "[*s, classes=\"c,d\", k=v]\n----\nx\n----", "[classes=e, footnote=g]\n----\n[classes=\"e,f\"]\n&&&&\nx\n&&&&\n----\n\n[footnote](g)", "[a]\n<< image:u, alt, \"c,d\"", "[image](u, a, w, h) [unicode](263A) [raw](x) [mailto](e) `v` [m](a, k=v)",
    "[@source, py, *s]\n----\na:@add:\nb:1:\n\nc\n----", "[internal_id=own, k=v]\n=== C", ".l\n.m \n.n $$\np", "[link](u, \"\") _\\a_ [class](\"\", c) __ ``", "[class](a)[class](\"b\", c, d)",
]
INLINE = [
    "`v`", "[m](a)", "[image](u)", "[unicode](263A)", "[raw](x)", "[link](u, t)", "[link](u)", "[mailto](e)", "[mailto](e, t)", "[class](a, c)", "[footnote](f)", "[header](h)", "[header](h, t)", "_x_", "*x*", "$x$", "%x%", "[if:v==1](x)",
    "[if:v==2](x, y)", "^x^", "~x~", "x",
]
PLACES = [
    "a X b", "= X", "* X\n** X", ".l X\np", "[isolate=false]\n----\nX\n----", "_X_", "*_X_*", '[class]("X", c)', '[link](u, "X")', '[header](h, "X")', '[mailto](e, "X")', '[if:v==1]("X")', '[if:v==2](y, "X")', "[footnote=g]\n----\nX\n----\n\n[footnote](g)", '* _[class]("X", c)_',
    ".l _X_\n---", '[name=z]\n= _X_\n\n[header](z)\n\n<< toc',
]
CHILDREN = ["content", "labels", "items", "block", "entries", "nested_entries", "plain_entries", "footnotes", "marker"]
REFERENCES = ["header", "footnote"]


def owned(node):
    """(field, child) for the nodes contained in a node."""
    for field in CHILDREN:
        value = getattr(node, field, None)
        if isinstance(value, Node):
            yield field, value
        elif isinstance(value, dict):
            for k, v in value.items():
                yield f"{field}.{k}", v
        elif isinstance(value, (list, tuple)):
            for i, v in enumerate(value):
                yield f"{field}.{i}", v


def walk(root):
    """All the nodes, with their path; every node has one place."""
    seen = {}
    stack = [("", root)]
    while stack:
        path, node = stack.pop()
        if not isinstance(node, Node):
            raise Violation(f"{path} is {node!r}")
        if id(node) in seen:
            if path.endswith("blockgroup-item.block") and seen[id(node)][0].endswith("blockgroup-item.block"):
                # A group can be included many times.
                continue
            raise Violation(f"the node at {path} ({node.type}) is the same as the one at {seen[id(node)][0]}")
        seen[id(node)] = (path, node)
        for field, child in owned(node):
            stack.append((f"{path}/{node.type}.{field}", child))
    return seen


def parenthood(root):
    """The parent of each node is one of the nodes that contain it."""
    stack = [(root, None)]
    while stack:
        node, chain = stack.pop()
        if chain is not None:
            here = chain
            while here is not None and here[0] is not node.parent:
                here = here[1]
            # The nodes of an included file belong to its document, and
            # a block to one of the places that include its group.
            other = {"include-mau": "document", "blockgroup-item": "blockgroup-item"}.get(chain[0].type)
            if here is None and (node.parent is None or node.parent.type != other):
                raise Violation(f"the parent of a node ({node.type}) contained in {chain[0].type} is {node.parent.type if node.parent else None}")
        for _, child in owned(node):
            stack.append((child, (node, chain)))


def references(nodes):
    for path, node in nodes.values():
        for field in REFERENCES:
            value = getattr(node, field, None)
            if isinstance(value, Node):
                yield f"{path}/{node.type}.{field}", value


def structure(root, what):
    nodes = walk(root)
    # The nodes that are referred to are either in the tree
    # or trees themselves.
    for path, target in list(references(nodes)):
        if id(target) not in nodes:
            nodes.update(walk(target))
            parenthood(target)
    for path, node in list(nodes.values()):
        steps = 0
        here = node
        while here.parent is not None:
            here = here.parent
            steps += 1
            if steps > 200:
                raise Violation(f"{what}: the parents of {path} do not end")
        if node is root:
            if node.parent is not None:
                raise Violation(f"{what}: the document has a parent")
    return nodes


def visited(node):
    return BaseVisitor(impl.Recorder()).process(node)


def change(value, depth=0):
    """Change everything that belongs to a node, in place."""
    for name, inner in list(vars(value).items()):
        if name == "parent" or name in REFERENCES:
            continue
        if isinstance(inner, list):
            inner.append("changed")
            del inner[:-1]
        elif isinstance(inner, dict):
            inner.clear()
            inner["changed"] = "changed"
        elif isinstance(inner, str):
            setattr(value, name, inner + "changed")
        elif isinstance(inner, int):
            setattr(value, name, inner + 1)
        elif hasattr(inner, "__dict__") and not isinstance(inner, Node) and depth < 3:
            # The arguments and the position.
            change(inner, depth + 1)


def bare(tree):
    """The tree without the parents: the text nodes of a paragraph have
    the paragraph as parent, in a copy the parent is the line."""
    if isinstance(tree, dict):
        return {k: bare(v) for k, v in tree.items() if k != "parent"}
    if isinstance(tree, list):
        return [bare(v) for v in tree]
    return tree


def check(case):
    lock.write_files(FILES)
    tree, handler = impl.parse(case["text"], {"v": "1"})
    if tree is None:
        return "error"
    root = tree.document
    if root is None:
        return None
    nodes = structure(root, "document")
    parenthood(root)
    # The result can contain the lists of the nodes.
    before = deepcopy(visited(root))
    copy = root.deepcopy()
    core.expect(bare(before), bare(visited(copy)), "copy")
    # The nodes of the copy are new.
    fresh = walk(copy)
    for key, (path, node) in fresh.items():
        if key in nodes:
            raise Violation(f"the copy shares {path} ({node.type})")
        if node is not copy and node.parent is not None and id(node.parent) in nodes:
            raise Violation(f"the parent of the copy of {path} ({node.type}) is in the original")
    # A change in the copy is not seen.
    for path, node in fresh.values():
        change(node)
        node.parent = None
    core.expect(before, visited(root), "original after a change in the copy")
    return impl.strip(before, False)


def families(tier):
    deep = tier == "thorough"
    tail = "\n\n[footnote=f]\n----\nfb\n----\n\n[name=h]\n= H"

    def fam(name, texts, rule):
        return Family(name, lambda: ({"text": t} for t in texts()), check, rule)

    wraps = ["{}", "&&&&\n{}\n&&&&", "[isolate=false]\n&&&&\n{}\n&&&&", "[group=w, position=p]\n&&&&\n{}\n&&&&\n\n<< blockgroup:w", "[footnote](w)\n\n[footnote=w]\n&&&&\n{}\n&&&&\n\n<< footnotes"]
    return [
        fam("singles", lambda: (w.replace("{}", p) + t for p in PARTS for w in wraps for t in ("", tail, tail + "\n\n<< toc\n\n<< footnotes")), "every construct in every container"),
        fam("inline", lambda: (p.replace("X", j.join(x)) + tail for p in PLACES for x in gen.seqs(INLINE, 2, 1) for j in (("", " ") if deep and len(x) == 2 else (" ",))), "every kind of text, alone and next to another, in every place"),
        fam("sequences", lambda: ("\n\n".join(s) + tail for s in gen.seqs(PARTS, 3 if deep else 2)), "sequences of constructs"),
        fam("groups", lambda: ("\n\n".join(s) for s in gen.seqs([PARTS[i] for i in (7, 8, 17, 18, 19, 20, 21, 16, 15)], 4 if deep else 3)), "sequences of constructs that refer to each other"),
        fam("sizes", lambda: large.plain_texts(large.DEEP[::3] if deep else large.SIZES[::4], most=None if deep else 2000), "every element in any number"),
    ]
