"""P15 descendant masks are graph reachability."""
import numpy as np

from . import core, event, gens
from .p14 import edges_for

RULE = (
    "a case is one edge list with several start vertices and edges whose descendants "
    "are found again by depth-first search over dictionaries; non-trivial when some "
    "queried descent contains at least two edges; distinct by edges"
)
ASSUMPTIONS = ["edge ids are int32; records may contain cycles and self-edges only in the 'general' group"]
REQUIRED = {"vertex-queries": 2000, "edge-queries": 1000, "leaf-vertex": 100, "absent-vertex": 50,
            "merging": 50, "parallel": 50, "deep": 2, "wide": 1, "reordered": 100, "relabelled": 100}


def table_reach(edges, v):
    return gens.desc_vertex(edges.tolist(), int(v))


def queries(mon, rng, adj, edges, limit=25):
    import graphicle as gcl

    sel = gcl.select
    ids = np.unique(edges)
    pick = ids if len(ids) <= limit else rng.choice(ids, limit, replace=False)
    most = 0
    for v in pick.tolist():
        arg = [int, np.int32, np.int64][rng.integers(3)](v)
        got = mon.call("vertex_descendants", sel.vertex_descendants, adj, arg)
        mon.check(isinstance(got, gcl.MaskArray), "descendants are a mask")
        want = table_reach(edges, v)
        mon.same(got.data, want, "vertex descendants", vertex=v, edges=edges)
        mon.obs("vertex-queries")
        most = max(most, int(want.sum()))
        if v not in set(edges[:, 0].tolist()):
            mon.obs("leaf-vertex")
    absent = int(ids.max()) // 2 + 12345
    if absent not in set(ids.tolist()):
        got = mon.call("vertex_descendants", sel.vertex_descendants, adj, absent)
        mon.check(not got.data.any(), "descendants of an absent vertex", vertex=absent)
        mon.obs("absent-vertex")
    rows = rng.permutation(len(edges))[: limit // 2]
    for r in rows.tolist():
        pair = (int(edges[r, 0]), int(edges[r, 1]))
        arg = pair if rng.random() < 0.5 else gcl.data.VertexPair(*pair)
        got = mon.call("edge_descendants", sel.edge_descendants, adj, arg)
        want = table_reach(edges, pair[1]) | (edges == pair).all(1)
        mon.same(got.data, want, "edge descendants", edge=pair, edges=edges)
        mon.obs("edge-queries")
    return most


def structure(mon, edges):
    _, counts = np.unique(edges, axis=0, return_counts=True)
    if (counts > 1).any():
        mon.obs("parallel")
    dst, c = np.unique(np.unique(edges, axis=0)[:, 1], return_counts=True)
    if (c > 1).any():
        mon.obs("merging")


def g_random(mon, rng, i):
    import graphicle as gcl

    general = i % 6 == 5
    edges = edges_for(rng, 1) if general else gens.dag(rng, int(rng.integers(1, 40)))
    structure(mon, edges)
    adj = gcl.AdjacencyList(gens.layout_2d(rng, edges, ["src", "dst"], "<i4", alt=gens.EDGE_ALT)[0])
    if rng.random() < 0.3:
        _ = (adj.matrix, adj.leaves)
    if rng.random() < 0.3:
        adj = adj.copy()
    if rng.random() < 0.2:
        adj = gcl.AdjacencyList(edges.copy(), rng.normal(size=len(edges)))
    most = queries(mon, rng, adj, edges)
    # another record order and another numbering of the same graph
    perm = rng.permutation(len(edges))
    queries(mon, rng, adj[perm], edges[perm], 6)
    mon.obs("reordered")
    ids = np.unique(edges)
    new = rng.choice(np.arange(-500, 500), len(ids), replace=False).astype(np.int32)
    lab = new[np.searchsorted(ids, edges)].reshape(-1, 2)
    queries(mon, rng, gcl.AdjacencyList(lab), lab, 6)
    mon.obs("relabelled")
    mon.state("largest-descent", most)
    mon.sig(edges, nontrivial=most > 1)
    mon.sample(f"{len(edges)} edges, general={general}: largest descent {most}")


def g_event(mon, rng, i):
    ev = event.Event(rng, max_branch=int(rng.integers(2, 6)))
    g = ev.graph()
    most = queries(mon, rng, g.adj, ev.edges, 20)
    structure(mon, ev.edges)
    mon.obs("events")
    mon.state("largest-descent", most)
    mon.sig(ev.edges, nontrivial=most > 1)
    mon.sample(f"{ev.template} event of {ev.n} particles: largest descent {most}")


def g_deep(mon, rng, i):
    """Chains and ladders far deeper than any recursion limit."""
    import graphicle as gcl

    depth = [3000, 6000, 1500][i % 3]
    v = rng.permutation(np.arange(1, 2 * depth + 2))[: depth + 1]
    chain = np.stack([v[:-1], v[1:]], 1)
    if i % 2:
        extra = np.stack([v[:-2], v[2:]], 1)
        chain = np.concatenate([chain, extra])
    chain = chain[rng.permutation(len(chain))].astype(np.int32)
    chain *= np.int32(rng.choice([-1, 1]))
    v = v * np.sign(chain[0, 0])
    adj = gcl.AdjacencyList(chain)
    for at in (0, depth // 2, depth - 1, depth):
        got = mon.call("vertex_descendants", gcl.select.vertex_descendants, adj, int(v[at]), pure=False)
        mon.same(got.data, table_reach(chain, int(v[at])), "descendants in a deep chain", at=at)
        mon.obs("vertex-queries")
    mon.obs("deep")
    mon.sig("deep", chain)
    mon.sample(f"chain of depth {depth}, {len(chain)} edges")


def g_wide(mon, rng, i):
    """More vertices than 16 bits can count."""
    import graphicle as gcl

    n = [66000, 70000, 131100, 90000][i % 4]
    # several levels, many branches; numbered in no particular order
    par = np.maximum((np.arange(1, n) * rng.random(n - 1) ** 0.3).astype(np.int64), 0)
    if i % 2:
        par = np.maximum(np.arange(1, n) - 1 - rng.integers(0, 3, n - 1), 0)
    lab = rng.permutation(n).astype(np.int64) - (n // 2 if i % 3 == 0 else 0)
    edges = np.stack([lab[par], lab[np.arange(1, n)]], 1)[rng.permutation(n - 1)].astype(np.int32)
    adj = gcl.AdjacencyList(edges)
    kids = np.bincount(par, minlength=n)
    starts = [0, int(n * 0.3), n - 2] + rng.choice(np.flatnonzero(kids), 4).tolist() + [65535, 65536, 32768]
    at = np.empty(n, np.int64)
    at[lab + (n // 2 if i % 3 == 0 else 0)] = np.arange(n)
    off = n // 2 if i % 3 == 0 else 0
    for v in starts:
        reach = np.zeros(n, bool)
        reach[v] = True
        for k in range(v + 1, n):  # parents come first
            reach[k] = reach[par[k - 1]]
        src = at[edges[:, 0].astype(np.int64) + off]
        want = reach[src] if kids[v] else edges[:, 1] == lab[v]
        got = mon.call("vertex_descendants", gcl.select.vertex_descendants, adj, int(lab[v]), pure=False)
        mon.same(got.data, want, "descendants among very many vertices", vertices=n, at=v)
        mon.obs("vertex-queries")
        mon.state("largest-descent", int(want.sum()))
    mon.obs("wide")
    mon.sig("wide", edges[:50], n)
    mon.sample(f"tree of {n} vertices")


GROUPS = [("random", g_random, 150), ("event", g_event, 40), ("deep", g_deep, 6), ("wide", g_wide, 2)]
