"""P01 construction fidelity."""
import itertools

import numpy as np

from . import gens, spec

RULE = (
    "a case is one container or composite built from one randomly drawn layout "
    "of random values; non-trivial when it holds at least one particle and its "
    "layout is not the native contiguous one; distinct by values and layout"
)
ASSUMPTIONS = [
    "two-column sequences given as Python lists have at least one row",
]
REQUIRED = {
    "layout:F": 3, "layout:row-strided": 3, "layout:list-of-tuples": 3,
    "layout:structured": 10, "layout:mixed-types": 15, "rebuild": 500, "reject:columns": 20, "flat": 60, "close-values": 100, "positions": 2000, "absent": 1000, "layout:big-endian": 5, "field-orders": 100,
}


# colour pairs are looked up by name, too
COLOR_BY_NAME = True


KNOWN_EQ = "ParticleSet == ParticleSet (and Graphicle) compares nothing but the last component, so sets of different particles can be reported equal"


def native(x):
    return type(x) in (bool, int, float)


def examine(mon, sp, obj, vals, what):
    """All the ways to read ``obj`` back report ``vals``."""
    n = len(vals)
    rows = spec.rows(vals)
    mon.check(isinstance(obj, sp.cls), what + ": type")
    mon.check(len(obj) == n, what + ": length", got=len(obj), want=n)
    mon.check(bool(obj) is (n > 0), what + ": truth value")
    data = obj.data
    mon.check(isinstance(data, np.ndarray) and data.shape == (n,), what + ": data shape", data=data)
    if sp.cols == 1:
        mon.same(data, vals, what + ": data")
        mon.check(data.dtype == sp.dtype, what + ": dtype", got=data.dtype)
    else:
        mon.check(data.dtype.names == sp.fields, what + ": fields", got=data.dtype.names)
        for j, f in enumerate(sp.fields):
            mon.same(data[f], vals[:, j], what + f": data[{f}]")
            mon.check(data[f].dtype == sp.dtype, what + ": dtype", got=data.dtype)
    if n or sp.cols == 1:
        arr = np.asarray(obj)
        if arr.dtype.names:
            arr = np.column_stack([arr[f] for f in arr.dtype.names])
        mon.same(np.asarray(arr).reshape(np.shape(vals)), vals, what + ": asarray")
    its = list(obj)
    mon.check([tuple(e) if sp.cols > 1 else e for e in its] == rows, what + ": iteration", got=its, want=rows)
    for e in its[:3]:
        if sp.cols > 1:
            mon.check(all(getattr(e, f) == v for f, v in zip(sp.fields, e)), what + ": element fields", e=e)
            mon.check(all(native(v) for v in e), what + ": native elements", e=e)
        else:
            mon.check(native(e), what + ": native elements", e=e)
    if n:  # searches agree with what iterating gives
        elem = (lambda r: tuple(r)) if sp.cols > 1 else (lambda r: r)
        for e in (rows[n // 2], rows[-1]):
            if e != e or (sp.cols > 1 and any(v != v for v in e)):
                continue
            mon.check(e in obj, what + ": element not in its container", e=e)
            first = rows.index(e)
            got = obj.index(elem(e))
            mon.check(type(got) is int and got == first, what + ": position of an element", got=got, want=first, e=e)
            if rows.count(e) > 1:
                mon.check(obj.index(e, first + 1) == rows.index(e, first + 1), what + ": position of a later element", e=e)
            mon.check(obj.count(e) == rows.count(e), what + ": count of an element", e=e)
            mon.obs("positions")
        back = [tuple(e) if sp.cols > 1 else e for e in reversed(obj)]
        mon.check(back == rows[::-1], what + ": reversed", got=back, want=rows[::-1])
    if sp.dtype.kind != "b":
        none = 29999 if sp.cols == 1 else (29999,) * sp.cols
        if none not in rows:
            mon.check(none not in obj and obj.count(none) == 0, what + ": absent element found")
            try:
                obj.index(none)
            except ValueError:
                mon.obs("absent")
            else:
                mon.check(False, what + ": position of an absent element")
    ser = obj.serialize()
    mon.check(isinstance(ser, tuple), what + ": serialize type")
    mon.check([tuple(e) if sp.cols > 1 else e for e in ser] == rows, what + ": serialize", got=ser, want=rows)
    comp = {"pmu": (("x", 0), ("y", 1), ("z", 2), ("energy", 3)), "color": (("color", 0), ("anticolor", 1))}
    for attr, j in comp.get(sp.name, ()):
        mon.same(getattr(obj, attr), vals[:, j], what + f": .{attr}")
    if sp.name == "edges":
        mon.same(obj.edges["src"], vals[:, 0], what + ": edges src")
        mon.same(obj.edges["dst"], vals[:, 1], what + ": edges dst")
    mon.obs("examined")


def g_containers(mon, rng, i):
    sps = list(spec.specs().values())
    sp = sps[i % len(sps)]
    n = gens.size(rng, big=True)
    vals = spec.values(rng, sp, n)
    src, lab = spec.layout(rng, sp, vals)
    mon.obs("layout:" + lab.split("(")[0])
    mon.state("layout", (sp.name, lab, min(n, 3)))
    mon.sig(sp.name, lab, vals, nontrivial=n > 0 and lab != "C")
    mon.sample(f"{sp.name} n={n} layout={lab}")
    obj = mon.call("construct " + sp.name, sp.cls, src)
    examine(mon, sp, obj, vals, f"{sp.name} from {lab}")
    # rebuild from each representation
    forms = [("container", obj), ("data", obj.data), ("copy", None)]
    if n > 0:
        forms += [("serialize", obj.serialize()), ("iteration", list(obj))]
    if sp.cols > 1 and n > 0:
        forms += [("rows", [tuple(map(float if sp.name == "pmu" else int, r)) for r in vals])]
    for name, form in forms:
        again = obj.copy() if name == "copy" else mon.call("rebuild " + sp.name, sp.cls, form)
        examine(mon, sp, again, vals, f"{sp.name} rebuilt from {name}")
        if n > 0:
            mon.check(all(list(again == obj)), f"{sp.name} rebuilt from {name} compares unequal")
            mon.check(not any(list(again != obj)), f"{sp.name} rebuilt from {name}: != true")
        mon.obs("rebuild")
    # element-wise equality against a copy with some changed rows
    if n > 0:
        other = vals.copy()
        hit = rng.random(n) < 0.4
        for r in np.flatnonzero(hit):
            at = (r,) if sp.cols == 1 else (r, int(rng.integers(sp.cols)))
            v = other[at]
            if sp.dtype.kind == "b":
                other[at] = not v
            elif sp.dtype.kind == "f":
                near = np.nextafter(v, np.inf)
                if rng.random() < 0.5 and np.isfinite(near) and near != v:
                    other[at] = near  # the closest other number
                    mon.obs("close-values")
                else:
                    other[at] = 1.5 if v != 1.5 else -2.25
            else:
                other[at] = 7 if v != 7 else -8
        oobj = sp.cls(other)
        for tag, rhs in (("container", oobj), ("data", oobj.data)):
            eq, ne = mon.call("==", lambda a, b: a == b, obj, rhs), mon.call("!=", lambda a, b: a != b, obj, rhs)
            mon.same(np.asarray(eq.data), ~hit, f"{sp.name} == {tag}")
            mon.same(np.asarray(ne.data), hit, f"{sp.name} != {tag}")
        if sp.name in ("pmu", "color", "edges"):
            r = int(rng.integers(n))
            one = tuple(spec.rows(vals)[r])
            want = np.array([row == one for row in spec.rows(vals)])
            mon.same(np.asarray((obj == one).data), want, f"{sp.name} == one element")
    # data assignment converts like construction
    if sp.name != "edges":
        m = n if sp.name != "pmu" else int(rng.integers(0, 9))
        new = spec.values(rng, sp, m)
        src2, lab2 = spec.layout(rng, sp, new)
        tgt = obj.copy()
        if sp.name == "pmu":
            _ = (tgt.pt, tgt.eta)
        tgt.data = src2
        examine(mon, sp, tgt, new, f"{sp.name} data assigned from {lab2}")
        examine(mon, sp, obj, vals, f"{sp.name} after assigning its copy")


def g_flat(mon, rng, i):
    """One row given as a flat run of numbers."""
    sps = spec.specs()
    sp = sps[("pmu", "color", "edges")[i % 3]]
    n = 1
    vals = spec.values(rng, sp, n)
    run = vals.reshape(-1)
    src = [run.copy(), run.tolist(), tuple(run.tolist()), np.repeat(run, 2)[::2]][rng.integers(4)]
    examine(mon, sp, mon.call("construct " + sp.name, sp.cls, src), vals, sp.name + " from a flat run")
    if sp.name != "edges":
        tgt = sp.cls(np.zeros((n if rng.random() < 0.5 else 3, sp.cols), sp.dtype))
        tgt.data = src
        examine(mon, sp, tgt, vals, sp.name + " assigned from a flat run")
    mon.obs("flat")
    mon.sig("flat", sp.name, vals)


def g_orders(mon, rng, i):
    """Every field order, with every family of accepted names."""
    sps = spec.specs()
    if i < 24:
        sp, order = sps["pmu"], list(itertools.permutations(range(4)))[i]
        families = [dict(zip("xyze", f)) for f in (("x", "y", "z", "e"), ("px", "py", "pz", "pe"), ("px", "py", "pz", "E"), ("x", "y", "z", "E"))]
        families.append({f: str(rng.choice(sp.alt[f])) for f in sp.fields})
    elif i < 26:
        sp, order = sps["edges"], [(0, 1), (1, 0)][i - 24]
        families = [dict(src=a, dst=b) for a in ("src", "in") for b in ("dst", "out")]
    else:
        sp, order = sps["color"], [(0, 1), (1, 0)][i - 26]
        families = [dict(color="color", anticolor="anticolor")]
        if order == (1, 0) and not COLOR_BY_NAME:
            return
    for fam in families:
        n = int(rng.integers(1, 9))
        vals = spec.values(rng, sp, n)
        names = [fam[sp.fields[j]] for j in order]
        for packed in (True, None, False):
            if packed is None:  # fields of different types, each of which holds its values exactly
                wide = {"f": ["<f4", "<f8", ">f8", "<f4"], "i": ["<i2", "<i4", "<i8", ">i4", "<f8"]}[sp.dtype.kind]
                types = {}
                for j in range(sp.cols):
                    t = np.dtype(wide[rng.integers(len(wide))])
                    with np.errstate(all="ignore"):
                        if not np.array_equal(vals[:, j].astype(t).astype(sp.dtype), vals[:, j]) and sp.dtype.kind == "f" and abs(vals[:, j]).max() < 1e30:
                            vals[:, j] = vals[:, j].astype(t)
                        if not np.array_equal(vals[:, j].astype(t).astype(sp.dtype), vals[:, j]):
                            t = sp.dtype
                    types[fam[sp.fields[j]]] = t
                dt = np.dtype([(nm, types[nm]) for nm in names])
                mon.obs("layout:mixed-types", int(len(set(types.values())) > 1))
            elif packed:
                dt = np.dtype([(nm, sp.dtype) for nm in names])
            else:  # gaps between the fields, and other fields' memory around
                size = sp.dtype.itemsize
                dt = np.dtype(dict(names=names, formats=[sp.dtype] * len(names), offsets=[(2 * k + 1) * size for k in range(len(names))],
                                   itemsize=(2 * len(names) + 2) * size))
            arr = np.zeros(n, dt)
            for j, nm in zip(order, names):
                arr[nm] = vals[:, j]
            what = f"{sp.name} from fields {tuple(names)}"
            examine(mon, sp, mon.call("construct " + sp.name, sp.cls, arr), vals, what)
            if sp.name == "edges":
                got = mon.call("from_numpy", graphicle().Graphicle.from_numpy, edges=arr)
                examine(mon, sp, got.adj, vals, what + " in a Graphicle")
            else:
                got = mon.call("from_numpy", graphicle().ParticleSet.from_numpy, **{sp.part: arr})
                examine(mon, sp, getattr(got, sp.part), vals, what + " in a ParticleSet")
                tgt = sp.cls(np.zeros((2, sp.cols), sp.dtype))
                tgt.data = arr
                examine(mon, sp, tgt, vals, what + " by assignment")
            mon.obs("field-orders")
        mon.sig(sp.name, names, vals)
    mon.state("order", (sp.name, tuple(order)))
    mon.sample(f"{sp.name} with fields in order {[sp.fields[j] for j in order]}, {len(families)} name families")


def graphicle():
    import graphicle as gcl

    return gcl


def g_reject(mon, rng, i):
    sps = [s for s in spec.specs().values() if s.cols > 1]
    sp = sps[i % len(sps)]
    n = int(rng.integers(1, 12))
    bad = [c for c in (1, 2, 3, 4, 5, 8) if c != sp.cols]
    c = bad[rng.integers(len(bad))]
    if c == 1:
        n = int(rng.choice([k for k in range(1, 12) if k != sp.cols]))
    arr = rng.integers(1, 50, (n, c)).astype(sp.dtype)
    if sp.name == "edges" and c == 1:
        arr = np.zeros((n, 3), sp.dtype)
    form = int(rng.integers(3))
    if form == 1:
        arr = [tuple(r) for r in arr.tolist()]
    elif form == 2:
        arr = np.asfortranarray(arr)
    mon.sig(sp.name, n, c, form)
    mon.obs("reject:columns")
    mon.raises(f"{sp.name} with {c} columns", sp.cls, arr)
    n1 = int(rng.integers(1, 6))
    flat = [s for s in spec.specs().values() if s.cols == 1][i % 4]
    wide = np.ones((n1, int(rng.integers(2, 5))), flat.dtype)
    mon.raises(f"{flat.name} with several columns", flat.cls, wide)


def g_composites(mon, rng, i):
    import graphicle as gcl

    n = gens.size(rng)
    rec = spec.record(rng, n, weights=rng.random() < 0.5)
    sps = {s.part: s for s in spec.specs().values()}
    parts = {k: v for k, v in rec.items() if k in spec.PARTS}
    given = {}
    for k, v in parts.items():
        given[k] = spec.layout(rng, sps[k], v)[0]
    mon.sig(sorted(rec), n, *[rec[k] for k in sorted(rec)], nontrivial=n > 0 and len(rec) > 1)
    mon.state("subset", tuple(sorted(rec)))
    mon.sample(f"composite of {sorted(rec)} n={n}")
    ps = mon.call("ParticleSet.from_numpy", gcl.ParticleSet.from_numpy, **given)
    egiven = dict(given)
    if "edges" in rec:
        egiven["edges"] = spec.layout(rng, sps["edges"], rec["edges"])[0]
        if "weights" in rec:
            egiven["weights"] = rec["weights"].copy()
    g = mon.call("Graphicle.from_numpy", gcl.Graphicle.from_numpy, **egiven)
    for name, comp, have in (("ParticleSet", ps, parts), ("Graphicle", g, {k: v for k, v in rec.items() if k != "weights"})):
        mon.check(len(comp) == (n if have else 0), f"{name} length", got=len(comp), want=n)
        mon.check(bool(comp) is (n > 0 and len(have) > 0), f"{name} truth")
        for k in spec.PARTS:
            sp = sps[k]
            want = have.get(k)
            if want is None:
                want = np.zeros((0,) if sp.cols == 1 else (0, sp.cols), sp.dtype)
                mon.check(len(getattr(comp, k)) == 0, f"{name}.{k} of an absent component not empty")
                continue
            if n or sp.cols == 1:
                examine(mon, sp, getattr(comp, k), want, f"{name}.{k}")
        ser = mon.call(f"{name}.serialize", comp.serialize)
        if "adj" in ser and name == "Graphicle":
            ser = {("edges" if k == "adj" else k): v for k, v in ser.items()}
        keys = set(spec.PARTS) | ({"edges"} if name == "Graphicle" else set())
        mon.check(set(ser) == keys, f"{name} serialize keys", got=sorted(ser))
        for k in keys:
            want = spec.rows(have[k]) if k in have else []
            got = [tuple(e) if sps[k].cols > 1 else e for e in ser[k]]
            mon.check(got == want, f"{name} serialize {k}", got=got, want=want)
        back = {k: np.array([tuple(e) for e in v] if sps[k].cols > 1 else v, sps[k].dtype) for k, v in ser.items() if len(v)}
        comp2 = mon.call(f"{name} rebuild", type(comp).from_numpy, **back)
        ser2 = comp2.serialize()
        if "adj" in ser2:
            ser2["edges"] = ser2.pop("adj")
        mon.check(ser2 == ser, f"{name} rebuilt from its serialization differs")
        mon.obs("rebuild")
    # the edges and weights of a graph
    if "edges" in rec:
        examine(mon, sps["edges"], g.adj, rec["edges"], "Graphicle.adj")
        mon.same(g.edges["src"], rec["edges"][:, 0], "Graphicle.edges src")
        mon.same(g.edges["dst"], rec["edges"][:, 1], "Graphicle.edges dst")
        mon.same(g.adj.weights, rec.get("weights", np.zeros(0)), "Graphicle.adj.weights")
    # from ready-made containers
    made = {k: sps[k].cls(v) for k, v in parts.items()}
    ps2 = mon.call("ParticleSet(containers)", gcl.ParticleSet, **made)
    for k in parts:
        if n or sps[k].cols == 1:
            examine(mon, sps[k], getattr(ps2, k), rec[k], f"ParticleSet({k}=)")
    adj = gcl.AdjacencyList(rec["edges"]) if "edges" in rec else gcl.AdjacencyList()
    g2 = mon.call("Graphicle(containers)", gcl.Graphicle, particles=ps2, adj=adj)
    mon.check(g2.serialize() == g.serialize(), "Graphicle from containers differs from from_numpy")


def g_equality(mon, rng, i):
    """Composites which differ in one component only."""
    import graphicle as gcl

    n = int(rng.integers(1, 6))
    rec = spec.record(rng, n)
    sps = {s.part: s for s in spec.specs().values()}
    full = {k: spec.values(rng, sps[k], n) for k in sps if k in spec.PARTS}
    other = dict(full, pdg=full["pdg"] + 1)
    a, b = gcl.ParticleSet.from_numpy(**full), gcl.ParticleSet.from_numpy(**other)
    res = a == b
    told = bool(np.all(np.asarray(res)))
    if told:
        mon.known("composite-equality", KNOWN_EQ)
    mon.sig("equality", n, sorted(rec))


GROUPS = [
    ("containers", g_containers, 1400),
    ("orders", g_orders, 28, "once"),
    ("reject", g_reject, 120),
    ("flat", g_flat, 90),
    ("equality", g_equality, 5, "once"),
    ("composites", g_composites, 250),
]
