"""P05 mask group = ordered tree of named masks, under any history."""
import collections

import numpy as np

from . import core, gens

RULE = (
    "a case is a mask group driven through a random history of mapping and tree "
    "operations next to a dictionary model, compared in full after every step; "
    "non-trivial when at least one name was present; distinct by final state and history"
)
ASSUMPTIONS = [
    "flattening by name is judged where names are unique across the flattened masks",
    "aggregates of empty groups are undefined",
]
REQUIRED = {
    "op:insert": 100, "op:replace": 50, "op:delete": 50, "op:update": 50, "op:copy": 30, "op:keylist": 50,
    "op:array": 50, "op:drop": 50, "op:drop-inplace": 20, "flatten:rise": 50, "flatten:agg": 50,
    "flatten:leaves": 50, "equal:true": 100, "equal:false": 100, "serialize": 200, "reject:key": 30,
}
NAMES = ["W+", "W-", "t", "t~", "b", "b:0", "b:1", "latent", "latent:0", "latent heat", "e-", "nu(e)", "", "h 1"]


class Node:
    def __init__(self, agg="and"):
        self.agg, self.kids = agg, collections.OrderedDict()

    def clone(self):
        out = Node(self.agg)
        for k, v in self.kids.items():
            out.kids[k] = v.clone() if isinstance(v, Node) else v.copy()
        return out

    def __repr__(self):
        return f"{self.agg}{[(k, v if isinstance(v, Node) else v.astype(int).tolist()) for k, v in self.kids.items()]}"


def build(node):
    import graphicle as gcl

    return gcl.MaskGroup(
        collections.OrderedDict(
            (k, build(v) if isinstance(v, Node) else gcl.MaskArray(v.copy())) for k, v in node.kids.items()
        ),
        node.agg,
    )


def judge(mon, g, node, what):
    import graphicle as gcl

    mon.check(isinstance(g, gcl.MaskGroup), what + ": not a group", got=type(g))
    names = list(node.kids)
    mon.check(list(g) == names, what + ": names", got=list(g), want=names)
    mon.check(list(g.keys()) == names and len(g) == len(names), what + ": keys or length")
    mon.check(g.agg_op.value == node.agg, what + ": aggregation setting", got=g.agg_op, want=node.agg)
    vals = list(g.values())
    items = list(g.items())
    mon.check([k for k, _ in items] == names, what + ": items")
    for (k, v), val, (ik, iv) in zip(node.kids.items(), vals, items):
        mon.check(k in g, what + f": {k!r} not contained")
        for got in (g[k], val, iv):
            if isinstance(v, Node):
                mon.check(isinstance(got, gcl.MaskGroup), what + f": {k!r} is not a group")
            else:
                mon.check(isinstance(got, gcl.MaskArray), what + f": {k!r} is not a mask")
                mon.same(got.data, v, what + f": contents of {k!r}")
        if isinstance(v, Node):
            judge(mon, g[k], v, what + f".{k}")
    if hasattr(g, "to_dict") and all(reducible(v) for v in node.kids.values() if isinstance(v, Node)):
        plain_dict = g.to_dict()
        mon.check(isinstance(plain_dict, dict) and list(plain_dict) == names, what + ": names in the dictionary", got=plain_dict, want=names)
        for k, v in node.kids.items():
            mon.same(np.asarray(plain_dict[k]), values(v) if isinstance(v, Node) else v, what + f": {k!r} in the dictionary")
        mon.obs("dictionaries")
    if not node.kids:
        mon.check(bool(g) is False, what + ": an empty group is true")
        mon.obs("truth")
    elif reducible(node):
        mon.check(bool(g) is bool(np.size(leaf_of(node))), what + ": truth of a group", got=bool(g))
        mon.obs("truth")
    mon.obs("states-compared")


def reducible(node):
    """No level without masks or aggregation."""
    return node.agg != "none" and bool(node.kids) and all(reducible(v) for v in node.kids.values() if isinstance(v, Node))


def leaf_of(node):
    v = next(iter(node.kids.values()))
    return leaf_of(v) if isinstance(v, Node) else v


def bits(rng, n):
    return rng.random(n) < rng.choice([0.1, 0.5, 0.9])


def random_node(rng, n, depth, lo=0):
    node = Node(str(rng.choice(["and", "or", "none"])))
    k = int(rng.integers(lo, 4))
    pool = NAMES
    if rng.random() < 0.1:  # a crowd on one level
        k, pool = int(rng.integers(5, 40)), [*NAMES, *(f"pcl {j}" for j in range(40))]
    for nm in rng.choice(pool, k, replace=False):
        node.kids[str(nm)] = random_node(rng, n, depth - 1) if depth and rng.random() < 0.4 else bits(rng, n)
    return node


def pick_level(rng, g, node):
    """Some level of nesting, root included: (group, node)."""
    while True:
        subs = [k for k, v in node.kids.items() if isinstance(v, Node)]
        if not subs or rng.random() < 0.5:
            return g, node
        k = subs[rng.integers(len(subs))]
        g, node = g[k], node.kids[k]


def drop(node, key):
    node.kids.pop(key, None)
    for v in node.kids.values():
        if isinstance(v, Node):
            drop(v, key)


def take(node, pk):
    out = Node(node.agg)
    for k, v in node.kids.items():
        out.kids[k] = take(v, pk) if isinstance(v, Node) else np.atleast_1d(v[pk])
    return out


def step(mon, rng, g, node, n):
    import graphicle as gcl

    lg, ln = pick_level(rng, g, node)
    op = str(rng.choice(["insert"] * 4 + ["replace", "delete", "update", "update", "copy", "keylist", "array",
                         "drop", "drop-inplace", "agg", "write", "pop", "setdefault", "badkey", "missing", "clear"]))
    names = list(ln.kids)
    mon.obs("op:" + op)
    held = [(k, v, core.snap(v)) for k, v in lg.items()] if op in ("insert", "replace", "update", "delete", "pop", "setdefault", "clear") else []
    if op == "insert" or (op == "replace" and names):
        nm = str(rng.choice(NAMES)) if op == "insert" else names[rng.integers(len(names))]
        r = int(rng.integers(4))
        if r == 0:
            sub = random_node(rng, n, 1)
            lg[nm] = build(sub)
            ln.kids[nm] = sub
        else:
            b = bits(rng, n)
            lg[nm] = [gcl.MaskArray(b.copy()), b.copy(), b.tolist()][r - 1]
            ln.kids[nm] = b
    elif op == "delete" and names:
        nm = names[rng.integers(len(names))]
        del lg[nm]
        del ln.kids[nm]
    elif op == "update":
        new = {str(k): bits(rng, n) for k in rng.choice(NAMES, int(rng.integers(0, 4)), replace=False)}
        if rng.random() < 0.3:
            src = gcl.MaskGroup({k: gcl.MaskArray(v.copy()) for k, v in new.items()})
        else:
            src = {k: (gcl.MaskArray(v.copy()) if rng.random() < 0.5 else v.copy()) for k, v in new.items()}
        lg.update(src)
        for k, v in new.items():
            ln.kids[k] = v
    elif op == "copy":
        old, s = g, core.snap(g)
        g = mon.call("copy", g.copy)
        keep = node.clone()
        # the abandoned original must not follow later changes of the copy
        g["probe"] = bits(rng, n)
        mon.check(core.snap(old) == s, "insertion into a copy shows in the original")
        del g["probe"]
        node = keep
    elif op == "keylist":
        k = int(rng.integers(0, len(names) + 1))
        sel = [str(x) for x in rng.permutation(names)[:k]] if names else []
        got = mon.call("keylist", lambda: lg[sel], pure=False)
        want = Node(ln.agg)
        for nm in sel:
            want.kids[nm] = ln.kids[nm]
        judge(mon, got, want, f"subset {sel}")
        if lg is g and sel and rng.random() < 0.3:
            g, node = got.copy(), want.clone()
    elif op == "array":
        key, pk, lab = gens.keys_for(rng, n)
        if isinstance(key, list):
            key = np.array(key)
        got = mon.call("array", lambda: lg[key])
        judge(mon, got, take(ln, pk), f"array subscript {lab}")
    elif op == "drop":
        nm = str(rng.choice(NAMES + ["latent"] * 6))
        s = core.snap(lg)
        got = mon.call("recursive_drop", lg.recursive_drop, *([] if nm == "latent" and rng.random() < 0.5 else [nm]))
        want = ln.clone()
        drop(want, nm)
        judge(mon, got, want, f"recursive_drop({nm!r})")
        mon.check(core.snap(lg) == s, "recursive_drop changed its source")
        if rng.random() < 0.2 and lg is g:
            g, node = got, want
    elif op == "drop-inplace":
        nm = str(rng.choice(NAMES + ["latent"] * 6))
        got = mon.call("recursive_drop", lambda: lg.recursive_drop(nm, inplace=True), pure=False)
        drop(ln, nm)
        judge(mon, got, ln, "in-place drop result")
    elif op == "agg":
        a = str(rng.choice(["and", "or", "none"]))
        lg.agg_op = a
        ln.agg = a
    elif op == "write" and n:
        leaves = [k for k, v in ln.kids.items() if not isinstance(v, Node)]
        if leaves:
            nm = leaves[rng.integers(len(leaves))]
            j = int(rng.integers(n))
            lg[nm][j] = not ln.kids[nm][j]
            ln.kids[nm] = ln.kids[nm].copy()
            ln.kids[nm][j] ^= True
    elif op == "pop" and names:
        nm = names[rng.integers(len(names))]
        got = lg.pop(nm)
        want = ln.kids.pop(nm)
        if not isinstance(want, Node):
            mon.same(got.data, want, "popped mask")
        mon.check(lg.pop(nm, None) is None, "pop of an absent name")
    elif op == "setdefault":
        nm = str(rng.choice(NAMES))
        b = bits(rng, n)
        lg.setdefault(nm, gcl.MaskArray(b.copy()))
        ln.kids.setdefault(nm, b)
    elif op == "badkey":
        mon.raises("key", lambda: lg.__setitem__(int(rng.integers(5)), bits(rng, n)), types=(KeyError, TypeError))
    elif op == "missing":
        nm = "no such name"
        mon.raises("key", lambda: lg[nm], types=(KeyError,))
        mon.raises("key", lambda: lg.__delitem__(nm), types=(KeyError,))
        mon.raises("key", lambda: lg[[nm]], types=(KeyError,))
        if any(not isinstance(v, Node) for v in ln.kids.values()):
            mon.raises("key", lambda: lg[np.array([n])], types=(IndexError,))
            mon.raises("key", lambda: lg[np.ones(n + 1, bool)], types=(IndexError,))
        mon.check(nm not in lg and lg.get(nm) is None, "absent name reported present")
    elif op == "clear" and rng.random() < 0.2:
        lg.clear()
        ln.kids.clear()
    for k, v, was in held:
        # a mask somebody already holds is not rewritten when its name is reassigned or removed
        mon.obs("held-masks")
        mon.check(core.snap(v) == was, f"the mask previously read under {k!r} changed when the group did ({op})")
    return g, node


def values(node):
    """Aggregate, or None where undefined."""
    vals = [values(v) if isinstance(v, Node) else v for v in node.kids.values()]
    if not vals or node.agg == "none" or any(v is None for v in vals):
        return None
    return (np.logical_or if node.agg == "or" else np.logical_and).reduce(vals)


def tree_views(mon, rng, g, node):
    import graphicle as gcl

    # rise
    names, ok = [], True

    def visit(nd):
        nonlocal ok
        for k, v in nd.kids.items():
            if k == "latent":
                continue
            if isinstance(v, Node):
                names.append((k, values(v)))
                ok = ok and values(v) is not None
                visit(v)
            else:
                names.append((k, v))

    visit(node)
    flat = [k for k, _ in names]
    if ok and len(set(flat)) == len(flat):
        got = mon.call("flatten rise", g.flatten, *([] if rng.random() < 0.3 else ["rise"]))
        mon.obs("flatten:rise")
        want = Node(node.agg)
        for k, v in names:
            want.kids[k] = v
        judge(mon, got, want, "flatten rise")
    # agg
    tops = [(k, values(v) if isinstance(v, Node) else v) for k, v in node.kids.items()]
    if all(v is not None for _, v in tops):
        got = mon.call("flatten agg", g.flatten, "agg")
        mon.obs("flatten:agg")
        want = Node("or")
        want.kids.update(tops)
        judge(mon, got, want, "flatten agg")
    # leaves
    leaf = []

    def leaves(nd, top):
        for k, v in nd.kids.items():
            if k == "latent":
                continue
            if isinstance(v, Node):
                leaves(v, False)
            else:
                leaf.append((k, v))

    leaves(node, True)
    lf = [k for k, _ in leaf]
    if len(set(lf)) == len(lf) and "latent" not in node.kids:
        want = Node(node.agg)
        want.kids.update(leaf)
        for how, fn in (("flatten", lambda: g.flatten("leaves")), ("leaf_masks", lambda: gcl.select.leaf_masks(g))):
            got = mon.call(how + " leaves", fn)
            mon.obs("flatten:leaves")
            judge(mon, got, want, how + " leaves")


def plain(node):
    return {k: plain(v) if isinstance(v, Node) else tuple(v.tolist()) for k, v in node.kids.items()}


def shuffled(rng, node):
    out = Node(node.agg)
    ks = list(node.kids)
    for j in rng.permutation(len(ks)):
        v = node.kids[ks[j]]
        out.kids[ks[j]] = shuffled(rng, v) if isinstance(v, Node) else v.copy()
    return out


def order(node):
    return [(k, order(v) if isinstance(v, Node) else None) for k, v in node.kids.items()]


def identity(mon, rng, g, node, n):
    import graphicle as gcl

    ser = mon.call("serialize", g.serialize)
    mon.obs("serialize")
    mon.check(ser == plain(node) and _order(ser) == order(node), "serialize", got=ser, want=plain(node))
    back = mon.call("rebuild", gcl.MaskGroup, ser)
    mon.check(g.equal_to(back) is True or bool(g.equal_to(back)), "group rebuilt from its serialization differs")
    mon.check(bool(back.equal_to(g, check_order=True)), "rebuilt group differs in order")
    mon.check(bool(g.equal_to(g.copy(), check_order=True)), "group not equal to its copy")
    mon.obs("equal:true", 3)
    sh = shuffled(rng, node)
    shg = build(sh)
    mon.check(bool(g.equal_to(shg)), "group not equal to itself in other order")
    same_order = order(sh) == order(node)
    mon.check(bool(g.equal_to(shg, check_order=True)) is same_order, "order-sensitive equality", same=same_order)
    # structural differences
    for kind in ("bit", "rename", "extra", "missing", "wrap", "length"):
        other = node.clone()
        lvl = pick_level(rng, build(other), other)[1]
        names = list(lvl.kids)
        if kind == "bit":
            c = [k for k in names if not isinstance(lvl.kids[k], Node)]
            if not c or n == 0:
                continue
            lvl.kids[c[rng.integers(len(c))]][int(rng.integers(n))] ^= True
        elif kind == "rename":
            if not names:
                continue
            j = int(rng.integers(len(names)))
            lvl.kids = collections.OrderedDict((k + "'" if k == names[j] else k, v) for k, v in lvl.kids.items())
        elif kind == "length":  # the same values, but another number of them
            c = [k for k in names if not isinstance(lvl.kids[k], Node)]
            if not c:
                continue
            k = c[rng.integers(len(c))]
            old = lvl.kids[k]
            lvl.kids[k] = [np.append(old, bool(rng.integers(2))), old[:-1] if n else np.ones(1, bool), old[:1] if n > 1 else old.repeat(2) if n else np.zeros(1, bool)][rng.integers(3)]
        elif kind == "extra":
            lvl.kids["only here"] = bits(rng, n)
        elif kind == "missing":
            if not names:
                continue
            del lvl.kids[names[int(rng.integers(len(names)))]]
        else:
            c = [k for k in names if not isinstance(lvl.kids[k], Node)]
            if not c:
                continue
            k = c[rng.integers(len(c))]
            inner = Node("or")
            inner.kids[k] = lvl.kids[k]
            lvl.kids[k] = inner
        og = build(other)
        mon.obs("equal:false", 2)
        mon.check(not bool(g.equal_to(og)), f"different groups ({kind}) reported equal")
        mon.check(not bool(og.equal_to(g, check_order=True)), f"different groups ({kind}) reported equal, swapped")


def _order(d):
    return [(k, _order(v) if isinstance(v, dict) else None) for k, v in d.items()]


def g_histories(mon, rng, i):
    n = int(rng.choice([0, 1, 2, 5, 9]))
    node = random_node(rng, n, 2)
    g = build(node)
    judge(mon, g, node, "fresh group")
    log = []
    for _ in range(int(rng.integers(3, 14))):
        before = dict(mon.counts)
        g, node = step(mon, rng, g, node, n)
        log.append(next((k for k in mon.counts if k.startswith("op:") and mon.counts[k] != before.get(k, 0)), "?"))
        judge(mon, g, node, "after " + " ".join(log[-3:]))
    s = core.snap(g)
    tree_views(mon, rng, g, node)
    identity(mon, rng, g, node, n)
    mon.check(core.snap(g) == s, "reading the group changed it")
    mon.sig(repr(node), log, nontrivial=len(node.kids) > 0)
    mon.sample(f"n={n} ops={log} final={node!r}")
    mon.state("op-sequence", tuple(log[-3:]))


def g_views(mon, rng, i):
    """Trees with unique names, so every flattening is defined."""
    n = int(rng.integers(1, 8))
    c = [0]

    def mk(depth):
        node = Node(str(rng.choice(["and", "or"])))
        for _ in range(int(rng.integers(1, 4))):
            c[0] += 1
            node.kids[f"p{c[0]}"] = mk(depth - 1) if depth and rng.random() < 0.5 else bits(rng, n)
        if rng.random() < 0.6:
            at = int(rng.integers(2))
            node.kids["latent"] = bits(rng, n)
            if at:
                node.kids.move_to_end("latent", last=False)
        return node

    node = mk(3)
    if rng.random() < 0.7:
        node.kids.pop("latent", None)
    g = build(node)
    judge(mon, g, node, "tree")
    tree_views(mon, rng, g, node)
    identity(mon, rng, g, node, n)
    mon.sig("views", repr(node), nontrivial=len(node.kids) > 0)
    mon.sample(f"tree {node!r}")


def g_build(mon, rng, i):
    """Mappings of several kinds become the same group."""
    import graphicle as gcl

    n = int(rng.integers(1, 8))
    node = random_node(rng, n, 2, lo=1)

    def mapping(nd):
        out = {}
        for k, v in nd.kids.items():
            if isinstance(v, Node):
                v.agg = "and"
                out[k] = mapping(v)
            else:
                out[k] = [gcl.MaskArray(v.copy()), v.copy(), v.tolist(), tuple(v.tolist())][rng.integers(4)]
        return out

    node.agg = str(rng.choice(["and", "or", "none"]))
    g = mon.call("MaskGroup(mapping)", gcl.MaskGroup, mapping(node), agg_op=node.agg)
    judge(mon, g, node, "group from a plain mapping")
    # field names of any length, in any order
    flat = {str(k): bits(rng, n) for k in rng.permutation(["f0", "f1", "zz", "latent", "a long field name", "B"])[: int(rng.integers(1, 6))]}
    arr = np.zeros(n, dtype=[(k, "?") for k in flat])
    for k, v in flat.items():
        arr[k] = v
    got = mon.call("from_numpy_structured", gcl.MaskGroup.from_numpy_structured, arr)
    want = Node("and")
    want.kids.update(flat)
    judge(mon, got, want, "group from a structured array")
    mon.sig("build", repr(node), sorted(flat))


GROUPS = [("histories", g_histories, 500), ("views", g_views, 200), ("build", g_build, 100)]
