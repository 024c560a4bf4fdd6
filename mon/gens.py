"""Workload generators: momenta, layouts, masks, graphs."""
import itertools as it

import numpy as np

MOM_KINDS = (
    "collider",
    "massless",
    "heavy",
    "soft",
    "hard",
    "lattice",
    "branch",
    "forward",
    "jets",
    "nonrel",
    "mixed",
)
BEAM_KINDS = ("beam", "rest")


def momenta(rng, n, kind="collider"):
    """(n, 4) array of x, y, z, e with e**2 >= p**2 up to rounding.

    All kinds in MOM_KINDS have non-zero pt; BEAM_KINDS add exactly
    longitudinal ('beam') or zero three-momentum ('rest') rows.
    """
    if n == 0:
        return np.zeros((0, 4))
    if kind == "mixed":
        kinds = [k for k in MOM_KINDS if k != "mixed"]
        rows = [momenta(rng, 1, kinds[rng.integers(len(kinds))]) for _ in range(n)]
        return np.concatenate(rows)
    if kind in BEAM_KINDS:
        out = momenta(rng, n, "mixed")
        pick = rng.random(n) < 0.4
        pick[rng.integers(n)] = True
        for i in np.flatnonzero(pick):
            if kind == "beam":
                z = rng.choice([-1.0, 1.0]) * 10.0 ** rng.uniform(-1, 3.5)
                m = rng.choice([0.0, rng.uniform(0.05, 5.0)])
                out[i] = [0.0, 0.0, z, np.sqrt(z * z + m * m) if m else abs(z)]
            else:
                out[i] = [0.0, 0.0, 0.0, rng.uniform(0.1, 10.0)]
        return out
    if kind == "lattice":
        xyz = rng.integers(-3, 4, size=(n, 3)).astype(float)
        bad = (xyz[:, 0] == 0) & (xyz[:, 1] == 0)
        xyz[bad, 0] = rng.choice([-1.0, 1.0], size=int(bad.sum()))
        m2 = rng.integers(0, 5, size=n).astype(float)
        e = np.sqrt((xyz**2).sum(1) + m2)
        return np.column_stack([xyz, e])
    if kind == "jets":
        k = int(rng.integers(1, 5))
        ceta, cphi = rng.uniform(-2.5, 2.5, k), rng.uniform(-np.pi, np.pi, k)
        which = rng.integers(0, k, n)
        eta = ceta[which] + rng.normal(0, 0.2, n)
        phi = cphi[which] + rng.normal(0, 0.2, n)
        pt = 10.0 ** rng.uniform(-0.5, 2.0, n)
        m = rng.choice([0.0, 0.13957, 0.938], n)
    else:
        pt = 10.0 ** rng.uniform(-0.5, 2.0, n)
        eta = rng.uniform(-4.0, 4.0, n)
        phi = rng.uniform(-np.pi, np.pi, n)
        m = rng.choice([0.0, 0.13957, 0.4937, 0.938], n)
        if kind == "massless":
            m = np.zeros(n)
        elif kind == "heavy":
            m = rng.uniform(5.0, 200.0, n)
        elif kind == "soft":
            pt = 10.0 ** rng.uniform(-4.0, -1.0, n)
        elif kind == "hard":
            pt = 10.0 ** rng.uniform(2.0, 3.8, n)
        elif kind == "branch":
            phi = rng.choice([-1.0, 1.0], n) * (
                np.pi - rng.choice([0.0, 1e-9, 1e-4, 0.05], n)
            )
            # exact quadrant boundaries too
            q = rng.random(n) < 0.3
            phi[q] = rng.choice([0.0, np.pi / 2, -np.pi / 2, np.pi], int(q.sum()))
        elif kind == "forward":
            eta = rng.choice([-1.0, 1.0], n) * rng.uniform(4.0, 7.5, n)
        elif kind == "nonrel":
            pt = 10.0 ** rng.uniform(-3.0, -1.0, n)
            eta = rng.uniform(-2.0, 2.0, n)
            m = rng.uniform(0.1, 5.0, n)
    x, y, z = pt * np.cos(phi), pt * np.sin(phi), pt * np.sinh(eta)
    e = np.sqrt(x * x + y * y + z * z + m * m)
    return np.column_stack([x, y, z, e])


def size(rng, big=False):
    """Particle counts, biased to boundaries."""
    r = rng.random()
    if r < 0.08:
        return 0
    if r < 0.2:
        return 1
    if r < 0.3:
        return 2
    if r < 0.85 or not big:
        return int(rng.integers(3, 25))
    return int(rng.integers(50, 200))


def kind(rng, beam=True):
    ks = MOM_KINDS + (BEAM_KINDS if beam else ())
    return ks[rng.integers(len(ks))]


PMU_ALT = {
    "x": ("x", "px"),
    "y": ("y", "py"),
    "z": ("z", "pz"),
    "e": ("e", "pe", "E"),
}
EDGE_ALT = {"src": ("src", "in"), "dst": ("dst", "out")}


def structured(rng, arr, names, dtype, permute=True, alt=None):
    """Structured array of the columns of arr, fields possibly permuted and
    renamed; returns (array, description)."""
    order = list(range(len(names)))
    if permute:
        order = list(rng.permutation(len(names)))
    labels = [names[i] for i in order]
    if alt:
        labels = [str(rng.choice(alt[names[i]])) for i in order]
    out = np.zeros(arr.shape[0], dtype=[(lab, dtype) for lab in labels])
    for lab, i in zip(labels, order):
        out[lab] = arr[:, i]
    return out, "structured" + str(tuple(labels))


def layout_2d(rng, arr, names, dtype, alt=None, permute=True):
    """One random accepted input layout holding exactly the values of the
    2D array ``arr``; returns (object, description)."""
    n, c = arr.shape
    dt = np.dtype(dtype)
    r = int(rng.integers(12))
    if r == 0:
        return np.ascontiguousarray(arr, dt), "C"
    if r == 1:
        return np.asfortranarray(arr, dt), "F"
    if r == 2:
        big = np.full((2 * n + 1, c), 77, dt)
        big[: 2 * n : 2] = arr
        return big[: 2 * n : 2], "row-strided"
    if r == 3:
        big = np.full((n, c + 3), 55, dt)
        big[:, 1 : c + 1] = arr
        return big[:, 1 : c + 1], "column-window"
    if r == 4:
        return np.ascontiguousarray(arr[::-1], dt)[::-1], "reversed-view"
    if r == 5 and n > 0:
        return [tuple(row) for row in arr.tolist()], "list-of-tuples"
    if r == 6 and n > 0:
        return tuple(list(row) for row in arr.tolist()), "tuple-of-lists"
    if r == 7:
        return np.ascontiguousarray(arr, dt.newbyteorder(">")), "big-endian"
    if r == 8:
        ro = np.array(arr, dt)
        ro.setflags(write=False)
        return ro, "read-only"
    if r == 9:
        wide = np.dtype(np.longdouble if dt.kind == "f" else np.int64)
        return np.array(arr, wide), "wider"
    if r == 10:
        big = np.full((n, 2 * c), 33, dt)
        big[:, ::2] = arr
        return big[:, ::2], "column-strided"
    if names is None:
        return np.ascontiguousarray(arr, dt), "C"
    return structured(rng, arr, names, dt, permute=permute, alt=alt)


def layout_1d(rng, arr, dtype):
    n = arr.shape[0]
    dt = np.dtype(dtype)
    r = int(rng.integers(9))
    if r == 0:
        return np.array(arr, dt), "C"
    if r == 1:
        return [v for v in arr.tolist()], "list"
    if r == 2:
        return tuple(arr.tolist()), "tuple"
    if r == 3:
        big = np.zeros(3 * n + 1, dt)
        big[1 : 3 * n + 1 : 3] = arr
        return big[1 : 3 * n + 1 : 3], "strided"
    if r == 4:
        return np.array(arr[::-1], dt)[::-1], "reversed-view"
    if r == 5:
        ro = np.array(arr, dt)
        ro.setflags(write=False)
        return ro, "read-only"
    if r == 6 and dt.kind == "i":
        return np.array(arr, np.int64), "wider"
    if r == 7 and n > 0:
        return np.array(arr, dt).reshape(-1, 1), "column"
    if r == 8 and dt.kind == "i":
        return np.array(arr, dt.newbyteorder(">")), "big-endian"
    return np.array(arr, dt), "C"


def keys_for(rng, n):
    """A random subscript key valid for length n: (key, numpy key, label)."""
    r = int(rng.integers(12))
    if r == 0 and n > 0:
        i = int(rng.integers(-n, n))
        if rng.random() < 0.3:
            return [np.int64, np.int16, np.int8][rng.integers(3)](i) if -128 <= i < 128 else np.int64(i), i, "int"
        return i, i, "int"
    if r in (0, 1):
        a, b = sorted(rng.integers(-n - 2, n + 3, 2).tolist())
        s = slice(a, b, None)
        return s, s, "slice"
    if r == 2:
        s = slice(None, None, int(rng.choice([-3, -2, -1, 2, 3])))
        return s, s, "step-slice"
    if r == 3:
        s = slice(int(rng.integers(0, n + 1)), None)
        return s, s, "tail-slice"
    if r in (4, 5) and n > 0:
        k = int(rng.integers(0, n + 3))
        idx = rng.integers(-n, n, k)
        if r == 4 and k > 0:
            return idx.tolist(), idx, "int-list"
        if rng.random() < 0.3 and n < 128:
            return (idx % n).astype([np.uint8, np.int8, np.uint64, np.int32][rng.integers(4)]), idx % n, "int-array"
        return idx, idx, "int-array"
    if r == 6:
        m = np.zeros(n, bool)
        return m, m, "none-mask"
    if r == 7:
        m = np.ones(n, bool)
        return m, m, "all-mask"
    m = rng.random(n) < rng.choice([0.2, 0.5, 0.8])
    if n and rng.random() < 0.2:
        return m.tolist(), m, "bool-list"
    return m, m, "bool-array"


def dag(rng, n_edges, multi=True):
    """Random DAG edge list with signed, shuffled vertex ids."""
    if n_edges == 0:
        return np.zeros((0, 2), np.int32)
    nv = int(rng.integers(2, max(3, int(n_edges * rng.uniform(0.4, 1.3)) + 2)))
    edges = []
    for _ in range(n_edges):
        a, b = sorted(rng.choice(nv, 2, replace=False).tolist())
        edges.append((a, b))
    if multi and n_edges > 2 and rng.random() < 0.5:
        edges[-1] = edges[0]
    edges = np.array(edges)
    has_out = set(edges[:, 0].tolist())
    ids = rng.permutation(np.arange(1, 3 * nv + 1))[:nv]
    mode = rng.integers(3)
    lab = {}
    for v in range(nv):
        if mode == 0:  # event convention: leaves positive, rest negative
            lab[v] = int(ids[v]) if v not in has_out else -int(ids[v])
        elif mode == 1:
            lab[v] = int(ids[v]) * int(rng.choice([-1, 1]))
        else:
            lab[v] = int(ids[v])
    if rng.random() < 0.3:
        root = min(edges[:, 0].tolist())
        lab[root] = 0
    out = np.array([[lab[a], lab[b]] for a, b in edges.tolist()], np.int32)
    return out[rng.permutation(n_edges)]


def reach_rows(edges, starts):
    """Pure-Python reachability: set of row indices of edges reachable from
    the vertices in ``starts`` (rows whose source is reachable)."""
    out_rows = {}
    for i, (a, b) in enumerate(edges):
        out_rows.setdefault(int(a), []).append((i, int(b)))
    seen, stack, rows = set(starts), list(starts), set()
    while stack:
        v = stack.pop()
        for i, b in out_rows.get(v, ()):
            rows.add(i)
            if b not in seen:
                seen.add(b)
                stack.append(b)
    return rows


def desc_vertex(edges, v):
    """Documented descendants of a vertex, as a boolean list."""
    n = len(edges)
    srcs = {int(a) for a, _ in edges}
    if v not in srcs:
        return np.array([int(b) == v for _, b in edges], dtype=bool).reshape(n)
    rows = reach_rows(edges, [v])
    return np.array([i in rows for i in range(n)], dtype=bool).reshape(n)
