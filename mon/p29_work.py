"""A fixed workload over everything compiled, for comparing executions.

Run as a child process (``python -m mon.p29_work``) under a guarding allocator,
bounds checking, no compilation or another threading layer; or in-process.
"""
import argparse
import ctypes
import os
import pickle
import sys
import warnings

SIZES = (1, 2, 0, 3, 5, 8, 4, 17, 33, 64, 7, 130)
BIG = (300,)
SMALL = (1, 2, 0, 3, 5, 8)
OPTIM = ("thrust", "spherocity")
SWEEP = tuple(range(1, 161))  # every size in turn, without the slow routines
SWEEP_SKIP = OPTIM + ("jaccard", "random", "strided", "replaced")
WIDE = (513, 600, 1025, 2500)  # many against few
WIDE_SKIP = SWEEP_SKIP + ("cluster", "delta_R-self", "knn", "cut")


def ops(seed, sizes, threads=1):
    """Yields (label, thunk); each thunk returns a list of arrays."""
    import numpy as np

    import graphicle as gcl

    from . import gens

    A = np.asarray

    def flat(p):
        return np.stack([A(p.data[c]) for c in "xyze"], -1)

    for j, n in enumerate(sizes):
        rng = np.random.default_rng([seed, 29, j, n])
        m = int(rng.integers(1, 9))
        rows = gens.momenta(rng, n, "mixed" if n % 2 else "jets")
        other = gens.momenta(rng, m, "collider")
        p = gcl.MomentumArray(rows)
        q = gcl.MomentumArray(other)
        # strided storage: fields of a wider record, stepped backwards
        wide = np.zeros(2 * n, dtype=[("a", "f4"), ("x", "f8"), ("y", "f8"), ("z", "f8"), ("e", "f8")])
        for c, col in zip("xyze", rows.T):
            wide[c][::2] = col
        u = rng.random((5, n)) < 0.5
        w = rng.uniform(0.1, 2.0, n)
        seed_ = int(rng.integers(1 << 30))
        size_ = int(rng.integers(0, 60))
        t = int(rng.integers(1, threads + 1))
        # at rest and along the beam
        odd = rows.copy()
        if n:
            odd[rng.integers(n), :3] = 0.0
            odd[rng.integers(n), :2] = 0.0
        podd = gcl.MomentumArray(odd)

        def derived(p=p):
            fresh = p.copy()
            return [A(getattr(fresh, k)) for k in ("pt", "eta", "rapidity", "phi", "theta", "mass", "mass_t")]

        def strided(wide=wide):
            # every second row of the wider record
            part = wide[::2]
            s = gcl.MomentumArray(part[["x", "y", "z", "e"]].tolist() or np.zeros((0, 4)))
            d = np.lib.recfunctions.structured_to_unstructured(part[["x", "y", "z", "e"]])
            f = gcl.MomentumArray(np.asfortranarray(d))
            b = gcl.MomentumArray(d[::-1])
            return derived(s) + derived(f) + [A(b.rapidity), A(b.mass), A(b.delta_R(f))]

        yield f"derived:{n}", derived
        yield f"derived-odd:{n}", lambda p=podd: derived(p)
        yield f"strided:{n}", strided
        for pseudo in (True, False):
            yield f"delta_R:{n}x{m}", lambda p=p, q=q, s=pseudo, t=t: [A(p.delta_R(q, s, t)), A(q.delta_R(p, s, t))]
            yield f"delta_R-self:{n}", lambda p=p, s=pseudo, t=t: [A(p.delta_R(p, s, t)), A(p.delta_R(p.copy(), s, t))]
            yield f"delta_R-odd:{n}", lambda p=podd, q=q, s=pseudo, t=t: [A(p.delta_R(q, s, t))]
            yield f"cluster:{n}", lambda p=p, s=pseudo, t=t: [A(gcl.calculate.cluster_coeff_distbn(p, r, s, t)) for r in (0.2, 1.0, 10.0)]
        yield f"mass:{n}", lambda p=p, w=w: [A(gcl.calculate.combined_mass(p)), A(gcl.calculate.combined_mass(p, w[:, None]))]
        yield f"aggregate:{n}", lambda p=p, u=u: [flat(gcl.calculate.aggregate_momenta(p, [gcl.MaskArray(r) for r in u]))]
        for a in u[:3]:
            for b in u[2:]:
                yield f"jaccard:{n}", lambda a=a, b=b, w=w: [A(gcl.calculate.jaccard_distance(a, b)), A(gcl.calculate.jaccard_distance(gcl.MaskArray(a), b[:], w))]
        stepped = np.repeat(u, 2, axis=1)
        yield f"jaccard-strided:{n}", lambda s=stepped, w=w: [A(gcl.calculate.jaccard_distance(s[0, ::2], s[1, ::2], np.repeat(w, 3)[::3]))]
        if n:
            for thing in OPTIM:
                def shape(thing=thing, p=p, s=seed_):
                    v, ax = getattr(gcl.calculate, thing)(p, True, s)
                    return [A(v), A(ax)]
                yield f"{thing}:{n}", shape
            yield f"c_parameter:{n}", lambda p=p, o=podd: [A(gcl.calculate.c_parameter(p))] + ([A(gcl.calculate.c_parameter(o))] if n > 2 else [])
            yield f"centroid:{n}", lambda p=p: [A(gcl.calculate.weighted_centroid(p)), A(gcl.calculate.resultant_coords(p, False))]
            yield f"shift:{n}", lambda p=p: [flat(p.shift_eta(0.7)), flat(p.shift_phi(-2.0)), flat(p.shift_rapidity(0.4))]
            k_ = int(rng.integers(1, n)) if n > 1 else 1
            yield f"cut:{n}", lambda p=p: [A(gcl.matrix.cut_adj(gcl.matrix.delta_R_aff(p), 1.0))]
            if n > 2:
                yield f"knn:{n}", lambda p=p, k=k_: [A(gcl.matrix.knn_adj(gcl.matrix.delta_R_aff(p), k))]
        if n >= m:
            yield f"closest:{m}<{n}", lambda p=p, q=q, t=t: [A(gcl.select.arg_closest(q, p, t))]
        yield f"random:{size_}", lambda k=size_, s=seed_: [flat(gcl.MomentumArray.from_spherical_uniform(k, 100.0, 0.5, s))]

        def replaced(p=p, rows=rows):
            box = p.copy()
            view = np.array(box, copy=False) if n else np.zeros(0)
            kept = np.asarray(box)
            col = box.pt
            box.data = rows[::-1].copy()
            junk = [np.full(n * 4 + 1, 7.0) for _ in range(8)]
            del junk
            return [flat_void(view), flat_void(kept), A(col), A(box.pt)]

        def flat_void(v):
            v = A(v)
            return np.stack([v[c] for c in "xyze"], -1) if v.dtype.names else v.astype(float)

        yield f"replaced:{n}", replaced


def run(seed, sizes, threads=1, mark=None, skip=()):
    out = []
    for label, thunk in ops(seed, sizes, threads):
        if label.split(":")[0] in skip:
            continue
        if mark:
            mark(label)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                out.append((label, thunk()))
        except Exception as exc:  # noqa
            out.append((label, f"{type(exc).__name__}: {exc}"))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--rounds", type=int, default=1)
    ap.add_argument("--guard", default="")
    ap.add_argument("--small", action="store_true")
    ap.add_argument("--threads", type=int, default=1)
    ap.add_argument("--cpus", type=int, default=0)
    ap.add_argument("--sweep", action="store_true")
    a = ap.parse_args()
    sys.path.insert(0, os.environ.get("MON_REPO", "/repo"))
    warnings.simplefilter("ignore")
    import graphicle  # noqa
    import numba as nb

    from . import gens  # noqa

    prog = open(a.out + ".progress", "w")

    def mark(label):
        prog.seek(0)
        prog.write(label + "\n")
        prog.truncate()
        prog.flush()

    lib = None
    if a.cpus:
        os.sched_setaffinity(0, sorted(os.sched_getaffinity(0))[: a.cpus])
    run(0, (3,), a.threads, mark)  # compile or load everything, unguarded
    if a.guard:
        mode, fill = map(int, a.guard.split(","))
        lib = ctypes.CDLL(None)
        assert lib.guard_set(mode, fill) == 0
    rounds = [run(a.seed + r, SMALL if a.small else SIZES + BIG, a.threads, mark) for r in range(a.rounds)]
    if a.sweep:
        rounds.append(run(a.seed + 777, SWEEP, a.threads, mark, SWEEP_SKIP))
        rounds.append(run(a.seed + 778, WIDE, a.threads, mark, WIDE_SKIP))
    facts = {}
    if lib is not None:
        lib.guard_total.restype = lib.guard_peak.restype = ctypes.c_long
        facts = dict(total=lib.guard_total(), peak=lib.guard_peak())
        lib.guard_set(0, 0)
    try:
        facts["layer"] = nb.threading_layer()
    except ValueError:
        facts["layer"] = "none"
    facts["workers"] = nb.get_num_threads()
    with open(a.out, "wb") as f:
        pickle.dump((rounds, facts), f)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
