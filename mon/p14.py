"""P14 edge lists and their graph views."""
import numpy as np

from . import core, event, gens

RULE = (
    "a case is one edge list (or matrix) whose vertices, roots, leaves, dense and "
    "sparse views are recomputed with dictionaries; non-trivial with at least one edge; "
    "distinct by edges and weights"
)
ASSUMPTIONS = [
    "matrix rows and columns number the vertices in ascending order of their id",
    "vertices of equal magnitude (+k, -k) may be listed in either order",
    "self-loops requested together with weights are outside the claim",
]
REQUIRED = {"edges": 5000, "parallel-edges": 200, "weighted": 100, "unweighted": 100, "from_matrix": 100,
            "self_loop": 12, "to_sparse:data": 80, "history": 50, "event-graph": 20, "self-edge": 20, "empty-list": 10, "great-graph": 4}


def edges_for(rng, kind=None):
    r = int(rng.integers(6)) if kind is None else kind
    n = int(rng.integers(1, 30))
    if r == 0:
        return gens.dag(rng, n)
    if r == 1:  # arbitrary directed multigraph, self-edges and cycles included
        ids = rng.choice(np.arange(-40, 41), int(rng.integers(1, 12)), replace=False)
        return ids[rng.integers(0, len(ids), (n, 2))].astype(np.int32)
    if r == 2:  # many parallel edges
        ids = rng.choice(np.arange(-9, 10), 3, replace=False)
        k = int(rng.choice([n, 150, 300, 1200, 1200]))
        if rng.random() < 0.3:
            return np.repeat(ids[None, :2], k, axis=0).astype(np.int32)
        return ids[rng.integers(0, 3, (k, 2))].astype(np.int32)
    if r == 5:  # the ids are one after the other, or nearly
        k = int(rng.integers(20, 130))
        ids = np.delete(np.arange(1, k + 1) + int(rng.choice([0, 0, 1, -1, 5])), rng.choice(np.arange(1, k - 1), int(rng.integers(0, 4)), replace=False))
        at = np.arange(len(ids) - 1) if rng.random() < 0.5 else (rng.random(len(ids) - 1) * np.arange(1, len(ids))).astype(int)
        edges = np.column_stack([ids[at], ids[1:]])
        return edges[rng.permutation(len(edges))].astype(np.int32)
    if r == 3:  # widely spaced ids
        ids = np.unique(np.concatenate([rng.integers(-(2**31) + 1, 2**31 - 1, 8), [0, -1, 1, 2**31 - 1, -(2**31) + 1]]))
        return ids[rng.integers(0, len(ids), (n, 2))].astype(np.int32)
    return event.Event(rng).edges


def dense(edges, data, dtype=float):
    ids = sorted({int(v) for e in edges for v in e})
    pos = {v: k for k, v in enumerate(ids)}
    out = np.zeros((len(ids), len(ids)), dtype)
    for (a, b), w in zip(edges.tolist(), data):
        out[pos[a], pos[b]] += w
    return out, ids, pos


def judge(mon, adj, edges, w, what):
    """Every view of ``adj`` against ``edges`` and weights ``w`` (or None)."""
    n = len(edges)
    mon.check(len(adj) == n and bool(adj) == (n > 0), what + ": length")
    mon.check([tuple(e) for e in adj] == [tuple(e) for e in edges.tolist()], what + ": edges in order")
    got = adj.nodes
    ids = sorted({int(v) for e in edges.tolist() for v in e})
    mon.check(sorted(got.tolist()) == ids, what + ": distinct vertices", got=got)
    mag = np.abs(got.astype(np.int64))
    mon.check(bool(np.all(mag[1:] >= mag[:-1])), what + ": vertices ordered by magnitude", got=got)
    srcs, dsts = {int(a) for a, _ in edges}, {int(b) for _, b in edges}
    roots, leaves = adj.roots, adj.leaves
    import graphicle as gcl

    mon.check(isinstance(roots, gcl.MaskArray) and isinstance(leaves, gcl.MaskArray), what + ": root and leaf masks")
    mon.same(roots.data, [int(a) not in dsts for a, _ in edges], what + ": roots", edges=edges)
    mon.same(leaves.data, [int(b) not in srcs for _, b in edges], what + ": leaves", edges=edges)
    got = adj.matrix
    if w is None:
        want, ids, pos = dense(edges, [1] * n, np.int64)
        mon.check(np.asarray(got).dtype.kind in "iu", what + ": unweighted matrix holds counts", dtype=np.asarray(got).dtype)
        mon.same(np.asarray(got), want, what + ": dense matrix", edges=edges)
    else:
        want, ids, pos = dense(edges, w)
        mon.close(np.asarray(got), want, what + ": weighted dense matrix", rtol=1e-12, atol=1e-12 * (1 + float(np.abs(w).sum())), edges=edges)
    mon.check(np.shape(got) == (len(ids), len(ids)), what + ": matrix shape")
    counts = dense(edges, [1] * n, np.int64)[0]
    mon.obs("parallel-edges", int((counts > 1).sum()))
    mon.obs("self-edge", int((np.diag(counts) > 0).any()))
    mon.obs("edges", n)
    mon.obs("empty-list", int(n == 0))
    return ids, pos


def order(entry):
    row, col, val = entry
    return (row, col, val.real, val.imag)


def sparse(mon, rng, adj, edges, pos, what):
    n = len(edges)
    s = mon.call("to_sparse", adj.to_sparse)
    size = len(pos)
    row = [pos[int(a)] for a, _ in edges]
    col = [pos[int(b)] for _, b in edges]

    def entries(sp):
        return sorted(zip(np.asarray(sp.row).tolist(), np.asarray(sp.col).tolist(), np.asarray(sp.data).tolist()), key=order)

    mon.check(s.shape == (size, size), what + ": sparse shape", got=s.shape)
    mon.check(entries(s) == sorted(zip(row, col, [bool(b > 0) for _, b in edges.tolist()])), what + ": sparse entries", edges=edges)
    for data in (rng.normal(size=n), rng.integers(-5, 6, n), np.arange(n).astype(np.int32), rng.normal(size=n) + 1j * rng.normal(size=n),
                 rng.random(n) < 0.5, rng.normal(size=n).astype(np.float32), rng.integers(-(2**62), 2**62, n)):
        s = mon.call("to_sparse", adj.to_sparse, data)
        mon.check(s.shape == (size, size) and entries(s) == sorted(zip(row, col, data.tolist()), key=order), what + ": sparse entries with supplied data", edges=edges)
        mon.obs("to_sparse:data")


def g_views(mon, rng, i):
    import graphicle as gcl

    edges = edges_for(rng, i % 6)
    if rng.random() < 0.04:
        edges = edges[:0]
    n = len(edges)
    w = None
    if n and rng.random() < 0.5:
        w = rng.normal(size=n) if rng.random() < 0.6 else rng.integers(-3, 4, n).astype(float)
    mon.obs("unweighted" if w is None else "weighted")
    src, how = gens.layout_2d(rng, edges, ["src", "dst"], "<i4", alt=gens.EDGE_ALT)
    adj = gcl.AdjacencyList(src) if w is None else gcl.AdjacencyList(src, w.copy())
    order = int(rng.integers(3))
    if order == 0:
        _ = adj.matrix
    elif order == 1:
        _ = (adj.leaves, adj.to_sparse())
    ids, pos = judge(mon, adj, edges, w, "edge list")
    sparse(mon, rng, adj, edges, pos, "edge list")
    judge(mon, adj, edges, w, "edge list, read again")
    if w is not None:
        mon.same(adj.weights, w, "weights after reading the views")
    if i % 5 == 4:
        mon.obs("event-graph")
    mon.sig(edges, w)
    mon.sample(f"{n} edges over {len(ids)} vertices given as {how}, weights={w is not None}")


def g_history(mon, rng, i):
    """Views of derived lists (subscripts, copies) after the source's were read."""
    import graphicle as gcl

    edges = edges_for(rng, int(rng.integers(6)))
    w = rng.normal(size=len(edges)) if rng.random() < 0.5 else None
    adj = gcl.AdjacencyList(edges.copy()) if w is None else gcl.AdjacencyList(edges.copy(), w.copy())
    steps = []
    for _ in range(int(rng.integers(1, 5))):
        if len(edges) == 0:
            w = None
        if rng.random() < 0.7:
            judge(mon, adj, edges, w, "before a step")
        r = int(rng.integers(4))
        if r == 0:
            adj = adj.copy()
            steps.append("copy")
        elif r == 1:  # weights replaced on the object
            w = rng.normal(size=len(edges))
            adj.weights = w.copy()
            steps.append("weights")
        else:
            key, nkey, lab = gens.keys_for(rng, len(edges))
            adj, edges = adj[key], edges[nkey].reshape(-1, 2)
            w = None if w is None else np.atleast_1d(w[nkey])
            steps.append(lab)
        mon.obs("history")
    w = None if len(edges) == 0 else w
    ids, pos = judge(mon, adj, edges, w, "after " + ",".join(steps))
    sparse(mon, rng, adj, edges, pos, "after a history")
    mon.state("steps", ",".join(steps))
    mon.sig("h", edges, w, steps)
    mon.sample(f"history {steps} ends with {len(edges)} edges")


def g_matrix(mon, rng, i):
    import graphicle as gcl

    n = int(rng.integers(1, 14))
    r = int(rng.integers(4))
    keep = rng.random((n, n)) < rng.choice([0.1, 0.4, 0.9])
    if r == 0:
        m = keep.copy()
    elif r == 1:
        m = keep * rng.integers(1, 5, (n, n)).astype(np.int32)
    else:
        m = keep * rng.normal(size=(n, n))
    if rng.random() < 0.5:
        np.fill_diagonal(m, 0)
    if rng.random() < 0.2:
        m = np.asfortranarray(m)
    weighted = bool(rng.random() < 0.5)
    loop = bool(rng.random() < 0.35) and not weighted
    kw = {}
    if weighted or rng.random() < 0.5:
        kw["weighted"] = weighted
    if loop or rng.random() < 0.5:
        kw["self_loop"] = loop
    adj = mon.call("from_matrix", gcl.AdjacencyList.from_matrix, m, **kw)
    want = {(a, b): m[a, b].item() for a in range(n) for b in range(n) if m[a, b] != 0}
    if loop:
        mon.obs("self_loop")
        for a in range(n):
            want[a, a] = 1
    got = [tuple(e) for e in adj]
    mon.check(sorted(got) == sorted(want), "edges from a matrix", m=m, got=got, kw=kw)
    if weighted:
        mon.check(len(adj.weights) == len(got), "one weight per edge from a matrix")
        mon.check({e: float(w) for e, w in zip(got, adj.weights)} == {e: float(v) for e, v in want.items()}, "weights from a matrix", m=m)
    else:
        mon.check(len(adj.weights) == 0, "an unweighted list has no weights")
    used = sorted({v for e in want for v in e})
    if want:
        back = np.asarray(adj.matrix)
        ref = np.zeros((n, n), back.dtype)
        for (a, b), v in want.items():
            ref[a, b] = v if weighted else 1
        mon.same(back, ref[np.ix_(used, used)], "matrix rebuilt from a matrix", m=m)
    mon.obs("from_matrix")
    mon.sig("m", m, kw, nontrivial=bool(want))
    mon.sample(f"{n}x{n} {m.dtype} matrix with {len(want)} edges, {kw}")


def g_great(mon, rng, i):
    """More vertices than a short integer counts: all but the dense views."""
    import graphicle as gcl

    n = int(rng.choice([33_500, 40_000, 70_000]))
    par = np.minimum(rng.integers(0, np.maximum(np.arange(1, n), 1)), np.arange(1, n) - 1) if rng.random() < 0.5 else np.arange(n - 1)
    ids = -rng.permutation(n).astype(np.int64) - 1 if rng.random() < 0.5 else -np.arange(1, n + 1)
    edges = np.column_stack([ids[par], ids[1:]]).astype(np.int32)
    last = rng.random(n - 1) < 0.3
    edges[last, 1] *= -1
    edges = edges[rng.permutation(n - 1)]
    adj = gcl.AdjacencyList(edges.copy())
    srcs, dsts = set(edges[:, 0].tolist()), set(edges[:, 1].tolist())
    every = sorted(srcs | dsts)
    pos = {v: k for k, v in enumerate(every)}
    mon.check(sorted(adj.nodes.tolist()) == every, "vertices of a great graph")
    mon.same(adj.roots.data, [a not in dsts for a in edges[:, 0].tolist()], "roots of a great graph")
    mon.same(adj.leaves.data, [b not in srcs for b in edges[:, 1].tolist()], "leaves of a great graph")
    sparse(mon, rng, adj, edges, pos, "great graph")
    key = np.flatnonzero(rng.random(n - 1) < 0.01)
    sub = adj[key]
    used = {v: k for k, v in enumerate(sorted({v for e in edges[key].tolist() for v in e}))}
    sparse(mon, rng, sub, edges[key], used, "part of a great graph")
    mon.obs("great-graph")
    mon.sig("great", n, edges[:50])
    mon.sample(f"graph of {len(every)} vertices")


GROUPS = [("great", g_great, 5), ("views", g_views, 300), ("history", g_history, 150), ("matrix", g_matrix, 250)]
