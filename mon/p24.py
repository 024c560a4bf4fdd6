"""P24 adjacency matrix builders."""
import numpy as np

from . import core, gens, kin, p09

RULE = (
    "a case is one adjacency or distance matrix recomputed entry by entry; non-trivial when it has at least one "
    "off-diagonal edge and one missing edge; distinct by affinities and options"
)
ASSUMPTIONS = [
    "the diagonal of nearest-neighbour affinities is no larger than any entry of its row, as for distances; a requested self "
    "edge counts as one of the k; between equally near others either may be the neighbour",
    "a requested self edge of a cut adjacency has weight one",
]
REQUIRED = {"cut": 200, "knn": 200, "fc": 40, "distance": 60, "cut-on-entry": 30, "cut:max": 60, "cut:min": 60,
            "knn:row": 60, "knn:col": 60, "knn:weighted": 60, "asymmetric": 60, "rejected": 60, "self-loops": 100,
            "infinite": 6, "unknown": 100, "steep": 15, "all-but-tied": 30, "coincident": 12, "tied": 30, "delta_R": 30}


def affinity(mon, rng, n, inf=True):
    import graphicle as gcl

    r = rng.random()
    if r < 0.35 and n:
        pm = gcl.MomentumArray(gens.momenta(rng, n, "collider"))
        return np.array(pm.delta_R(pm))
    m = rng.permutation(n * n).reshape(n, n).astype(float) * 10.0 ** rng.uniform(-3, 2) + 0.5
    if r > 0.85:  # distinct by the last few bits only
        m = 2.0 ** float(rng.integers(-8, 8)) * (1 + m.argsort(axis=None).reshape(n, n) * 2.0**-52)
        mon.obs("all-but-tied")
    if rng.random() < 0.3:
        m = np.triu(m) + np.triu(m, 1).T
    else:
        mon.obs("asymmetric")
    if rng.random() < 0.3:
        m -= m.mean() if n else 0
        m[np.diag_indices(n)] = m.min() - 1 if n else 0
    else:
        m[np.diag_indices(n)] = 0.0
    return m


def lay(rng, m):
    r = rng.integers(4)
    if r == 0:
        return np.asfortranarray(m)
    if r == 1:
        big = np.full((m.shape[0] * 2, m.shape[1] * 2), -7.0)
        big[::2, ::2] = m
        return big[::2, ::2]
    if r == 2:
        m = m.copy()
        m.flags.writeable = False
    return m


def g_cut(mon, rng, i):
    import graphicle as gcl

    n = int(rng.choice([0, 1, 2, 4, 9, 25]))
    m = affinity(mon, rng, n)
    if n > 1 and rng.random() < 0.25:
        m[0, 1:] = np.inf
        mon.obs("infinite")
    if n > 1 and rng.random() < 0.2:  # affinities unknown are on neither side of the cut
        m = m.copy()
        m[rng.random((n, n)) < 0.3] = np.nan
        mon.obs("unknown", int(np.isnan(m).sum()))
    vals = m[np.isfinite(m)]
    cut = float(rng.choice(vals)) if len(vals) and rng.random() < 0.6 else float(rng.uniform(-1, 1) * (np.abs(vals).max() if len(vals) else 1))
    mon.obs("cut-on-entry", int(cut in vals))
    src = lay(rng, m)
    for _ in range(2):
        mode = ["max", "min"][rng.integers(2)]
        self_loop, weighted = bool(rng.integers(2)), bool(rng.integers(2))
        kw = dict(mode=mode, self_loop=self_loop, weighted=weighted)
        if mode == "max" and rng.random() < 0.5:
            del kw["mode"]
        if not self_loop and rng.random() < 0.5:
            del kw["self_loop"]
        if not weighted and rng.random() < 0.5:
            del kw["weighted"]
        got = mon.call("cut_adj", gcl.matrix.cut_adj, src, cut, **kw)
        want = np.zeros((n, n))
        edges = 0
        for a in range(n):
            for b in range(n):
                if a == b:
                    want[a, b] = 1.0 if self_loop else 0.0
                elif (m[a, b] < cut) if mode == "max" else (m[a, b] > cut):
                    want[a, b] = m[a, b] if weighted else 1.0
                    edges += 1
        mon.check(isinstance(got, np.ndarray) and got.shape == (n, n), "adjacency shape")
        mon.check(got.dtype == (np.float64 if weighted else np.bool_), "adjacency dtype", got=got.dtype)
        mon.same(got.astype(float), want, "cut adjacency", cut=cut, kw=kw)
        mon.check(not np.shares_memory(got, src), "adjacency shares the affinities' memory")
        mon.obs("cut")
        mon.obs("cut:" + mode)
        mon.obs("self-loops", int(self_loop))
        mon.sig(m, cut, mode, self_loop, weighted, nontrivial=0 < edges < n * (n - 1))
    mon.raises("cut_adj mode", gcl.matrix.cut_adj, src, cut, mode=["MAX", "less", "", None][rng.integers(4)], types=(ValueError,))
    mon.raises("cut_adj weighted", gcl.matrix.cut_adj, src, cut, weighted=["yes", None, 2][rng.integers(3)], types=(ValueError,))
    mon.obs("rejected", 2)
    mon.sample(dict(n=n, cut=cut))


def g_knn(mon, rng, i):
    import graphicle as gcl

    n = int(rng.choice([1, 2, 3, 5, 9, 25, 25, 80], p=[0.1, 0.1, 0.15, 0.15, 0.15, 0.15, 0.15, 0.05]))
    m = affinity(mon, rng, n)
    if n > 1 and rng.random() < 0.3:
        # coincident particles: equal affinities, zero between each other
        group = rng.integers(0, max(n // 3, 1), n)
        pos = rng.normal(size=(n, 2))[group]
        m = np.hypot(*(pos[:, None] - pos[None]).transpose(2, 0, 1))
        mon.obs("coincident")
    src = lay(rng, m)
    for _ in range(3):
        self_loop, weighted, row = bool(rng.integers(2)), bool(rng.integers(2)), bool(rng.integers(2))
        top = n if self_loop else n - 1
        if top < 1:
            continue
        k = int(rng.choice([1, top, rng.integers(1, top + 1)]))
        kw = dict(self_loop=self_loop, weighted=weighted, row=row)
        for key, default in (("self_loop", False), ("weighted", False), ("row", True)):
            if kw[key] is default and rng.random() < 0.5:
                del kw[key]
        dt = None
        if rng.random() < 0.3:
            dt = [np.float32, "<f8", np.dtype("<f4"), np.float64][rng.integers(4)]
            kw["dtype"] = dt
        got = mon.call("knn_adj", gcl.matrix.knn_adj, src, k, **kw)
        want = np.zeros((n, n))
        pattern = np.zeros((n, n), bool)
        for a in range(n):
            others = sorted((float(m[a, b]), b) for b in range(n) if b != a)
            if self_loop:
                chosen = [a] + [b for _, b in others[: k - 1]]
            else:
                chosen = [b for _, b in others[:k]]
            for b in chosen:
                pattern[a, b] = True
                want[a, b] = m[a, b] if weighted else 1.0
        mon.check(isinstance(got, np.ndarray) and got.shape == (n, n), "adjacency shape")
        off = m[~np.eye(n, dtype=bool)].reshape(n, n - 1)
        if any(np.unique(r).size < r.size for r in off):
            # equally near others: the number, the nearest distances and the weights are still determined
            mon.obs("tied")
            edges = np.asarray(got if row else got.T)
            if weighted:
                edges = edges.astype(float)
                mon.check(edges.dtype.kind == "f", "adjacency dtype", got=got.dtype)
                dist32 = m.astype(dt or np.float64).astype(float)
                # coincident others have weight zero: only the non-zero edges can be told
                mon.check(bool(((edges == 0) | (edges == dist32)).all()), "weights of the edges are the affinities")
                need = np.sort(dist32 + np.where(np.eye(n), -np.inf if self_loop else np.inf, 0), axis=1)[:, :k]
                have = [np.sort(e[e != 0]) for e in edges]
                need = [np.sort(r[(r != 0) & np.isfinite(r)]) for r in need]
                mon.check(all(np.array_equal(x, y) for x, y in zip(have, need)), "weights of the nearest neighbours", k=k, kw=kw, m=m, adj=got)
            else:
                mon.check(got.dtype == np.bool_, "adjacency dtype", got=got.dtype)
                mon.same(edges.sum(axis=1), np.full(n, k), "outgoing edges per particle", k=k, kw=kw, m=m, adj=got)
                mon.same(edges.diagonal(), np.full(n, self_loop), "self-edges", k=k, kw=kw, m=m, adj=got)
                far = np.sort(m + np.where(np.eye(n), -np.inf if self_loop else np.inf, 0), axis=1)[:, k - 1]
                mon.check(bool((m[edges] <= np.broadcast_to(far[:, None], m.shape)[edges])[~np.eye(n, dtype=bool)[edges]].all()),
                          "neighbours are the nearest", k=k, kw=kw, m=m, adj=got)
            mon.obs("knn")
            mon.sig(m, k, self_loop, weighted, row, nontrivial=n > 2 and k < top)
            continue
        if not row:
            want, pattern = want.T, pattern.T
        if weighted:
            mon.check(got.dtype == np.dtype(dt or np.float64), "adjacency dtype", got=got.dtype, want=dt)
            if np.dtype(dt or "f8") == np.float32:
                want = want.astype(np.float32).astype(float)
        else:
            mon.check(got.dtype == np.bool_, "adjacency dtype", got=got.dtype)
        mon.same(np.asarray(got).astype(float), want, "nearest-neighbour adjacency", k=k, kw=kw, m=m)
        mon.check(not np.shares_memory(got, src), "adjacency shares the affinities' memory")
        mon.obs("knn")
        mon.obs("knn:" + ("row" if row else "col"))
        mon.obs("knn:weighted", int(weighted))
        mon.obs("self-loops", int(self_loop))
        mon.sig(m, k, self_loop, weighted, row, nontrivial=n > 2 and k < top)
    if n > 1:
        mon.raises("knn_adj dtype", gcl.matrix.knn_adj, src, 1, weighted=True, dtype=[int, "<i4", bool, np.uint8][rng.integers(4)], types=(ValueError,))
        mon.obs("rejected")


def g_fc(mon, rng, i):
    import graphicle as gcl

    n = [1, 0, 2, 3, 7, 40, 1, 300][i % 8]
    for self_loop in (True, False):
        for dt in (None, "<f8", int, np.float32, bool):
            kw = {} if dt is None else {"dtype": dt}
            if self_loop or rng.random() < 0.5:
                kw["self_loop"] = self_loop
            got = mon.call("fc_adj", gcl.matrix.fc_adj, n, **kw)
            mon.check(got.shape == (n, n) and got.dtype == np.dtype(dt or bool), "full adjacency type", got=got.dtype)
            mon.same(got.astype(float), np.ones((n, n)) - (0 if self_loop else np.eye(n)), "full adjacency")
            mon.obs("fc")
    mon.sig(n, i, nontrivial=n > 1)


def g_distance(mon, rng, i):
    import graphicle as gcl

    a = gens.momenta(rng, gens.size(rng), gens.kind(rng, beam=False))
    b = gens.momenta(rng, gens.size(rng), gens.kind(rng))
    pa, pb = gcl.MomentumArray(a), gcl.MomentumArray(b)
    exp = float(rng.choice([-0.1, 0.0, 1.0, -1.0, 0.5, 2.0, -2.0, -1.5, rng.uniform(-4, 4)]))
    mon.obs("steep", int(abs(exp) > 1))
    kw = {} if exp == -0.1 and rng.random() < 0.5 else {"pt_exp": exp}
    got = mon.call("parton_hadron_distance", gcl.matrix.parton_hadron_distance, pa, pb, **kw)
    d, tol, vague, _ = p09.expected(a, b, True)
    w = np.asarray(kin.Kin(a).pt, float) ** exp
    mon.check(got.shape == (len(a), len(b)), "distance shape")
    with np.errstate(all="ignore"):
        want, tol = w[:, None] * d, w[:, None] * tol
    mon.close(got[~vague], want[~vague], "parton-hadron distance", rtol=1e-11, atol=tol[~vague])
    mon.obs("distance")
    # affinities within one set
    got = mon.call("delta_R_aff", gcl.matrix.delta_R_aff, pa)
    d, tol, vague, _ = p09.expected(a, a, True)
    mon.close(got[~vague], d[~vague], "affinities", rtol=1e-12, atol=tol[~vague])
    mon.check(bool((np.diagonal(got) == 0).all()), "zero distance to itself")
    mon.same(got, got.T, "affinities are symmetric")
    mon.obs("delta_R")
    # nearest neighbours by distance
    if len(a) > 3 and len(set(np.unique(got[np.triu_indices(len(a), 1)]).tolist())) == len(a) * (len(a) - 1) // 2:
        k = int(rng.integers(1, len(a)))
        adj = mon.call("knn_adj", gcl.matrix.knn_adj, got, k)
        mon.check(bool((adj.sum(axis=1) == k).all()) and not np.diagonal(adj).any(), "every particle has k neighbours")
        far = np.where(adj, got, -1).max(axis=1)
        near = np.where(adj | np.eye(len(a), dtype=bool), np.inf, got).min(axis=1)
        mon.check(bool((far <= near).all()), "neighbours are the nearest")
    mon.sig(a, b, exp, nontrivial=len(a) > 0 and len(b) > 0)


GROUPS = [("cut", g_cut, 200), ("knn", g_knn, 150), ("fc", g_fc, 16), ("distance", g_distance, 120)]
