"""P18 vertex queries."""
import numpy as np

from . import core, event, gens

RULE = (
    "a case is one event or random record with vertex searches answered again by "
    "dictionaries of incoming and outgoing codes; non-trivial when some search matches; "
    "distinct by record"
)
ASSUMPTIONS = ["records are compared as sets of vertex ids; each id must appear once"]
REQUIRED = {"search": 400, "search:in": 80, "search:out": 80, "search:both": 80, "matches": 300, "no-match": 20,
            "boundary-vertex": 50, "blank": 20, "hadron-vertices": 100, "crowded": 5, "twins": 100, "wide-ids": 10, "nuclei": 10, "many-matches": 10, "outermost": 30}


def vertex_codes(edges, pdg):
    inc, out = {}, {}
    for (a, b), c in zip(edges.tolist(), pdg.tolist()):
        out.setdefault(a, set()).add(c)
        inc.setdefault(b, set()).add(c)
        inc.setdefault(a, set())
        out.setdefault(b, set())
    return inc, out


def search(mon, rng, g, edges, pdg, times):
    import graphicle as gcl

    inc, out = vertex_codes(edges, pdg)
    verts = sorted(inc)
    codes = np.unique(pdg)
    total = 0
    for _ in range(times):
        rim = rng.random() < 0.3  # the outermost ids, by the commonest codes
        v = verts[[0, -1, 1, -2][rng.integers(4)] % len(verts)] if rim else verts[rng.integers(len(verts))]

        def request(have):
            have = sorted(have)
            r = rng.random()
            if rim and have:
                pick = {max(have, key=lambda c: int((pdg == c).sum()))}
            elif r < 0.2 or not have:
                pick = set(rng.choice(codes, 1).tolist())
            else:
                pick = set(rng.choice(have, int(rng.integers(1, len(have) + 1)), replace=False).tolist())
            if rng.random() < 0.1:
                pick.add(int(rng.choice([21, -5, 6, 9999])))
            return {int(c) for c in pick}

        kw = {}
        r = int(rng.integers(4))
        if r in (0, 2):
            kw["pdgs_in"] = request(inc[v])
        if r in (1, 2):
            kw["pdgs_out"] = request(out[v])
        if r == 3:
            kw = {"pdgs_in": request(inc[v]), "pdgs_out": set()} if rng.random() < 0.5 else {"pdgs_in": set(), "pdgs_out": request(out[v])}
        mon.obs("search:" + ("both" if len(kw) == 2 else next(iter(kw))[5:]))
        got = mon.call("find_vertex", gcl.select.find_vertex, g, **kw)
        want = [u for u in verts if kw.get("pdgs_in", set()) <= inc[u] and kw.get("pdgs_out", set()) <= out[u]]
        mon.check(isinstance(got, np.ndarray) and got.ndim == 1, "vertices are an array", got=got)
        mon.check(sorted(int(u) for u in got) == want, "vertices found", got=sorted(int(u) for u in got), want=want, request=kw)
        mon.obs("search")
        mon.obs("matches", len(want))
        mon.obs("no-match", int(not want))
        mon.obs("many-matches", int(len(want) > 30))
        mon.obs("outermost", int(bool(want) and len(want) > 1 and want[-1] == verts[-1]) + int(bool(want) and len(want) > 1 and want[0] == verts[0]))
        mon.obs("boundary-vertex", sum(1 for u in want if not inc[u] or not out[u]))
        total += len(want)
    mon.raises("find_vertex", gcl.select.find_vertex, g, types=(ValueError,))
    mon.obs("blank")
    return total


def hadron(mon, rng, edges, status, adj, st):
    import graphicle as gcl

    got = mon.call("hadron_vertices", gcl.select.hadron_vertices, adj, st)
    want = sorted({int(a) for (a, _), s in zip(edges.tolist(), status.tolist()) if 80 <= abs(int(s)) <= 90})
    mon.check(isinstance(got, tuple), "hadronisation vertices are a tuple")
    mon.check(sorted(got) == want, "hadronisation vertices", got=sorted(got), want=want)
    mon.obs("hadron-vertices", len(want))


def g_event(mon, rng, i):
    ev = event.Event(rng, hadronise=bool(rng.random() < 0.9))
    g = ev.graph()
    total = search(mon, rng, g, ev.edges, ev.pdg, 4)
    hadron(mon, rng, ev.edges, ev.status, g.adj, g.status)
    mon.sig(ev.edges, ev.pdg, nontrivial=total > 0)
    mon.sample(f"{ev.template} event of {ev.n}: {total} matches over 4 searches")


def g_random(mon, rng, i):
    import graphicle as gcl

    edges = gens.dag(rng, int(rng.integers(1, 25)))
    n = len(edges)
    if rng.random() < 0.3:  # ids far apart
        ids, inv = np.unique(edges, return_inverse=True)
        new = np.sort(rng.choice([rng.integers(-(2**31) + 1, 2**31 - 1, len(ids)), rng.integers(-70000, 70000, len(ids))], axis=0))
        if len(np.unique(new)) == len(ids):
            edges = new[inv.reshape(-1, 2)].astype(np.int32)
            mon.obs("wide-ids")
    pool = [1, -1, 21, 211, -211, 22, 6, 2212]
    if rng.random() < 0.35:  # codes no shorter number type can tell apart
        pool = [1000020040, -1000020040, 1000020041, 1000020030, 1000822080, 1000822081, 1000822082, 9000111, 65536 + 211, 211]
        mon.obs("nuclei")
    pdg = rng.choice(pool, n).astype(np.int32)
    status = rng.choice([-91, -90, -85, -80, -79, 79, 80, 84, 90, 91, 23, 0], n).astype(np.int16)
    g = gcl.Graphicle.from_numpy(pdg=pdg, edges=edges, status=status)
    total = search(mon, rng, g, edges, pdg, 4)
    # the same codes dealt out otherwise, and the same vertices otherwise joined
    deal = rng.permutation(n)
    search(mon, rng, gcl.Graphicle.from_numpy(pdg=pdg[deal], edges=edges, status=status), edges, pdg[deal], 2)
    flip = edges[:, ::-1].copy() if rng.random() < 0.5 else np.column_stack([edges[:, 0], edges[rng.permutation(n), 1]])
    search(mon, rng, gcl.Graphicle.from_numpy(pdg=pdg, edges=flip, status=status), flip, pdg, 2)
    mon.obs("twins", 2)
    hadron(mon, rng, edges, status, g.adj, g.status)
    if rng.random() < 0.2:
        many = rng.integers(-400, 400, (int(rng.integers(100, 1500)), 2)).astype(np.int32)
        stage = rng.choice([*range(77, 94), *range(-93, -76)], len(many)).astype(np.int16)
        hadron(mon, rng, many, stage, gcl.AdjacencyList(many), gcl.StatusArray(stage))
        mon.obs("many-hadron-vertices")
    mon.state("vertices", len(np.unique(edges)))
    mon.sig(edges, pdg, status, nontrivial=total > 0)
    mon.sample(f"random record of {n}: {total} matches over 4 searches")


def g_crowd(mon, rng, i):
    """Vertices with hundreds of particles, and thousands of vertices."""
    import graphicle as gcl

    if i % 3 < 2:
        n_in, n_out = int(rng.choice([1, 70, 130, 300])), int(rng.choice([1, 70, 130, 300]))
        edges = [(k + 10, 1) for k in range(n_in)] + [(1, k + 1000) for k in range(n_out)]
        pdg = np.where(rng.random(len(edges)) < 0.97, 211, rng.choice([22, 21, -211, 5, -5, 1000022], len(edges)))
        pdg[n_in - 1], pdg[-1] = 6, 13
    else:
        n = int(rng.integers(2000, 5000))
        par = (np.arange(1, n) * rng.random(n - 1)).astype(int)
        if rng.random() < 0.4:
            par = np.arange(n - 1)
        edges = [(int(p) - 700, k - 700) for k, p in enumerate(par, 1)]
        pdg = np.full(n - 1, 21) if rng.random() < 0.3 else rng.choice([1, -1, 21, 211, -211, 22, 6, 2212], n - 1)
    order = np.arange(len(edges)) if i % 2 else rng.permutation(len(edges))
    edges = np.array(edges, np.int32)[order]
    pdg = pdg.astype(np.int32)[order]
    g = gcl.Graphicle.from_numpy(pdg=pdg, edges=edges)
    if i % 3 < 2:
        for want in ({"pdgs_out": {13}}, {"pdgs_in": {6}}, {"pdgs_in": {6}, "pdgs_out": {13}}, {"pdgs_in": {6, 211} if 211 in pdg[edges[:, 1] == 1] else {6}}):
            got = mon.call("find_vertex", gcl.select.find_vertex, g, **want)
            mon.check(1 in [int(v) for v in got], "crowded vertex found", request=want)
    total = search(mon, rng, g, edges, pdg, 5)
    mon.obs("crowded")
    mon.sig(edges, pdg)
    mon.sample(f"record of {len(edges)} with up to {int(np.unique(edges[:, 0], return_counts=True)[1].max())} leaving a vertex: {total} matches")


GROUPS = [("event", g_event, 30), ("random", g_random, 110), ("crowd", g_crowd, 12)]
