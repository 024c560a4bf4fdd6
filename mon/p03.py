"""P03 purity of analysis calls, independence of copies."""
import copy
import operator
import importlib
import pickle
import types

import numpy as np

from . import core, event, gens, spec

RULE = (
    "a case is one event with a random history of public calls, every array, "
    "mask, tree and derived value handed out so far compared byte for byte with "
    "its snapshot after each call; or one object, its copy, and a series of "
    "in-place changes to either; distinct by contents and history"
)
ASSUMPTIONS = [
    "slices are views of their source, as in numpy; only copies are independent"
]
REQUIRED = {"watched-comparisons": 5000, "history-calls": 300, "mutations": 200, "shared-memory-checks": 1000,
            "foreign-complete": 400, "foreign-calls": 4000, "options": 8, "standard-copies": 40, "owned-results": 60, "scribbled-arrays": 60,
            "bare-calls": 1500, "restructured": 400, "held-derived": 200}


class Watch:
    def __init__(self, mon):
        self.mon, self.items, self.big = mon, [], 0

    def add(self, name, obj):
        if obj is None or isinstance(obj, (bool, int, float, str)):
            return
        if len(self.items) < 90:
            self.items.append((name, obj, core.snap(obj)))

    def verify(self, after):
        for name, obj, s in self.items:
            self.mon.obs("watched-comparisons")
            if core.snap(obj) != s:
                self.mon.fail(f"{name} was changed by {after}")


def history_ops(mon, rng, ev, g, w):
    """Name -> closure over the public interface, for this event."""
    import graphicle as gcl

    sel, calc, mat, tra = gcl.select, gcl.calculate, gcl.matrix, gcl.transform
    st = types.SimpleNamespace(hier=None, desc=None, jets=None)
    hard = ev.hard_rows()
    finals = g.pmu[g.final]
    masks = [gcl.MaskArray(rng.random(ev.n) < 0.3) for _ in range(3)]
    fmasks = [gcl.MaskArray(rng.random(len(finals)) < 0.4) for _ in range(3)]
    group = gcl.MaskGroup({f"m{j}": m for j, m in enumerate(masks)}, "or")
    weights = rng.random(ev.n)
    vertex = int(rng.choice(ev.edges[:, 0]))
    affinity = rng.random((6, 6))
    for k, v in dict(finals=finals, masks=masks, fmasks=fmasks, group=group, weights=weights, affinity=affinity).items():
        w.add(k, v)
    three = g.pmu[:3]
    w.add("three", three)
    pmu = g.pmu if rng.random() < 0.5 else finals
    # descendants made by hand: partons which are themselves final do not count as their own
    own = sel.hard_descendants(g)
    for m in own.values():
        m.data[np.array([r for r in hard if ev.final[r]], int)] = False
    w.add("descendants made by hand", own)

    def desc():
        st.desc = sel.hard_descendants(g)
        return st.desc

    def hier():
        st.hier = sel.hierarchy(g, st.desc) if st.desc is not None and rng.random() < 0.6 else sel.hierarchy(g)
        return st.hier

    def need_hier():
        return st.hier if st.hier is not None else hier()

    def jets():
        st.jets = sel.fastjet_clusters(finals, 0.6, -1.0, pt_cut=0.5, eta_cut=4.5, top_k=6)
        return st.jets

    def tag():
        js = list(st.jets or jets())
        js += [m for m in fmasks if m.data.any()]
        while len(js) < 18:
            some = rng.random(len(finals)) < 0.5
            some[rng.integers(len(some))] = True  # an empty cluster has no direction
            js.append(gcl.MaskArray(some))
        return sel.monte_carlo_tag(g.particles, js, **tagged)

    def derived():
        names = ["pt", "eta", "rapidity", "phi", "theta", "mass", "mass_t", "x", "y", "z", "energy"]
        return [getattr(pmu, n) for n in names]

    def lhe():
        src = types.SimpleNamespace(pdg=g.pdg.data, pmu=g.pmu.data, color=g.color.data, helicity=g.helicity.data, status=st_arr)
        return gcl.ParticleSet.from_lhe_event(src)

    st_arr = rng.choice([-1, 1, 2, -2, 3, -9, 0, 21], ev.n).astype(np.int16)
    w.add("lhe statuses", st_arr)
    sub = gens.momenta(rng, 5, "collider")
    cand, foc = gcl.MomentumArray(sub), gcl.MomentumArray(gens.momenta(rng, 3, "collider"))
    w.add("candidates", [cand, foc])
    names_pdg = gcl.PdgArray(ev.pdg)
    black, white = np.array([-12, 14, 16, -14]), np.array([-5, 5, -3, 21, -24, 6, 11, -1, 2, 3, 4, 13, 15])
    w.add("lists of species", [black, white])
    tagged = [dict(blacklist=[12, 14, 16]), dict(blacklist=black), dict(whitelist=white)][rng.integers(3)]

    ops = dict(
        find_vertex=lambda: sel.find_vertex(g, pdgs_out={21}),
        vertex_descendants=lambda: sel.vertex_descendants(g.adj, vertex),
        edge_descendants=lambda: sel.edge_descendants(g.adj, gcl.VertexPair(*map(int, ev.edges[0]))),
        hadron_vertices=lambda: sel.hadron_vertices(g.adj, g.status),
        hard_descendants=desc,
        hard_descendants_target=lambda: sel.hard_descendants(g, target=[abs(int(ev.pdg[hard[0]]))]),
        hierarchy=hier,
        hierarchy_by_hand=lambda: sel.hierarchy(g, own),
        partition=lambda: sel.partition_descendants(g, need_hier(), -0.1),
        partition_flat=lambda: sel.partition_descendants(g, st.desc if st.desc is not None else desc(), -0.1),
        clusters=lambda: sel.clusters(g, 1.0),
        leaf_masks=lambda: sel.leaf_masks(need_hier()),
        any_overlap=lambda: sel.any_overlap(st.desc if st.desc is not None else group),
        color_singlets=lambda: sel.color_singlets(sel.leaf_masks(need_hier()), g.status, g.color),
        centroid_prune=lambda: sel.centroid_prune(g.pmu, 1.0, masks[0] | g.final),
        centroid_prune_centre=lambda: sel.centroid_prune(pmu, 0.7, centre=(0.3, 3.0)),
        fastjet=jets,
        tag=tag,
        arg_closest=lambda: sel.arg_closest(foc, cand),
        flatten_rise=lambda: need_hier().flatten("rise"),
        flatten_leaves=lambda: need_hier().flatten("leaves"),
        flatten_agg=lambda: need_hier().recursive_drop("latent").flatten("agg"),
        drop=lambda: need_hier().recursive_drop("latent"),
        drop_group=lambda: group.recursive_drop("m1"),
        serialize_tree=lambda: need_hier().serialize(),
        tree_str=lambda: str(need_hier()),
        tree_data=lambda: need_hier().data,
        derived=derived,
        delta_R=lambda: finals.delta_R(foc),
        delta_R_self=lambda: finals.delta_R(finals, pseudo=bool(rng.integers(2))),
        shift_rapidity=lambda: pmu.shift_rapidity(0.7),
        shift_phi=lambda: pmu.shift_phi(1.1),
        shift_eta=lambda: finals.shift_eta(0.4),
        shift_eta_exp=lambda: finals.shift_eta(0.4, experimental=True),
        thrust=lambda: calc.thrust(finals, return_axis=True, rng_seed=1),
        spherocity=lambda: calc.spherocity(finals, return_axis=True, rng_seed=1),
        c_parameter=lambda: calc.c_parameter(finals),
        centroid=lambda: calc.weighted_centroid(finals),
        resultant=lambda: calc.resultant_coords(finals),
        combined_mass=lambda: calc.combined_mass(g.pmu, weights.reshape(-1, 1)),
        aggregate=lambda: calc.aggregate_momenta(finals, fmasks),
        jaccard=lambda: calc.jaccard_distance(masks[0], group, weights),
        coeffs=lambda: calc.cluster_coeff_distbn(finals, 0.8),
        cut_adj=lambda: mat.cut_adj(affinity, 0.5, str(rng.choice(["max", "min"])), bool(rng.integers(2)), bool(rng.integers(2))),
        knn_adj=lambda: mat.knn_adj(affinity, 2, bool(rng.integers(2)), bool(rng.integers(2)), bool(rng.integers(2))),
        aff=lambda: mat.delta_R_aff(foc),
        parton_hadron=lambda: mat.parton_hadron_distance(foc, cand, 0.7),
        split=lambda: tra.split_momentum(foc[0], 0.3, 0.2, (0.4, 1.0)),
        split_hardest=lambda: tra.split_hardest(cand, 0.3, 0.2),
        axis=lambda: tra.soft_hard_axis(cand),
        lhe=lhe,
        from_event=lambda: gcl.Graphicle.from_event(g.particles),
        graph_str=lambda: (str(g), g._repr_html_(), repr(g.particles)),
        graph_serialize=lambda: g.serialize(),
        views=lambda: (g.adj.matrix, g.adj.roots, g.adj.leaves, g.adj.nodes, g.adj.to_sparse().row),
        pdg_lookup=lambda: (names_pdg.charge, names_pdg.mask([11, 21], blacklist=bool(rng.integers(2)))),
        status_query=lambda: (g.status.in_range(21, 24), g.status.hard_mask),
        mask_logic=lambda: (masks[0] & masks[1], masks[0] | group, ~group, masks[0] == masks[1], group.data),
        arithmetic=lambda: (g.pmu * 2.0, g.pmu + np.ones((1, 4)), g.pmu - g.pmu, np.sum(finals, axis=0), -g.pmu, abs(g.pdg)),
        copies=lambda: (g.copy(), group.copy(), g.particles.copy(), g.pmu.copy()),
        select=lambda: (g[g.final], g[masks[0]], g.particles[::2], group[g.final]),
        failing=lambda: _failing(gcl, g, finals, fmasks),
    )
    return ops


def _failing(gcl, g, finals, fmasks):
    for fn in (
        lambda: gcl.select.hard_descendants(g, target=[39]),
        lambda: gcl.select.find_vertex(g),
        lambda: gcl.select.monte_carlo_tag(g.particles, []),
        lambda: gcl.select.monte_carlo_tag(g.particles, fmasks, blacklist=[1], whitelist=[2]),
        lambda: gcl.select.fastjet_clusters(finals, -1.0, 1.0),
        lambda: gcl.transform.split_momentum(finals[:1], 1.5, 0.1, (0.0, 0.0)),
        lambda: g.final == g.final[:1],
        lambda: g.pmu[len(g) + 3],
    ):
        try:
            fn()
        except Exception:  # noqa: rejected, only the side effects matter
            pass


def g_histories(mon, rng, i):
    ev = event.Event(rng)
    tries = 0
    while ev.final.sum() < 5 and tries < 20:
        ev = event.Event(rng)
        tries += 1
    # owned, writable arrays, as a caller would hold
    held = {k: v.copy() for k, v in ev.arrays().items()}
    import graphicle as gcl

    w = Watch(mon)
    for k, v in held.items():
        w.add("input array " + k, v)
    g = gcl.Graphicle.from_numpy(**held)
    w.add("event", g)
    if rng.random() < 0.5:
        with core.quiet():
            w.add("derived of event", [g.pmu.pt, g.pmu.eta, g.pmu.phi, g.pmu.rapidity, g.pmu.mass, g.pmu.theta, g.pmu.mass_t])
    ops = history_ops(mon, rng, ev, g, w)
    names = list(ops)
    k = int(rng.integers(6, 16))
    seq = [names[j] for j in rng.choice(len(names), k)]
    if i < 6:  # every routine at least once per run
        seq = names[i % 3 :: 3]
        rng.shuffle(seq)
    for name in seq:
        out = mon.call(name, ops[name], pure=False)
        mon.obs("history-calls")
        w.verify(name)
        w.add("result of " + name, out)
        mon.state("pair", name)
    mon.sig(ev.pdg, ev.edges, seq)
    mon.sample(f"event of {ev.n} rows ({ev.template}), calls {seq}")


# -- results belong to the caller ---------------------------------------------
# these may share data with what they were computed from
SHARING = {"leaf_masks", "tag", "flatten_rise", "flatten_leaves", "flatten_agg", "derived", "lhe", "from_event", "views", "select", "failing", "tree_data"}


def result_arrays(o):
    import graphicle as gcl

    if isinstance(o, np.ndarray):
        return [o]
    if isinstance(o, dict):
        return [a for v in o.values() for a in result_arrays(v)]
    if isinstance(o, (list, tuple)):
        return [a for v in o for a in result_arrays(v)]
    if isinstance(o, (gcl.MaskGroup, gcl.Graphicle, gcl.ParticleSet, gcl.AdjacencyList)):
        return arrays_of(o)
    data = getattr(o, "data", None)
    return [data] if isinstance(data, np.ndarray) else []


def scribble(o):
    k = 0
    for a in result_arrays(o):
        if not a.size:
            continue
        try:
            if a.dtype.names:
                for f in a.dtype.names:
                    a[f] = a[f] * 0 + 7
            elif a.dtype == bool:
                a[...] = ~a
            else:
                a[...] = a * 0 + 7
            k += 1
        except ValueError:  # read-only
            pass
    return k


def g_owned(mon, rng, i):
    """Altering a result alters neither the inputs nor what the same call returns next."""
    import graphicle as gcl

    ev = event.Event(rng)
    while ev.final.sum() < 5:
        ev = event.Event(rng)
    g = gcl.Graphicle.from_numpy(**{k: v.copy() for k, v in ev.arrays().items()})
    names = sorted(set(history_ops(mon, rng, ev, g, Watch(mon))) - SHARING)
    for name in names[i % 8 :: 8]:
        w = Watch(mon)
        w.add("event", g)
        ops = history_ops(mon, rng, ev, g, w)
        state = rng.bit_generator.state
        first = mon.call(name, ops[name], pure=False)
        want = core.snap(first)
        mon.obs("scribbled-arrays", scribble(first))
        w.verify(f"altering the result of {name}")
        rng.bit_generator.state = state
        again = mon.call(name, ops[name], pure=False)
        mon.check(core.snap(again) == want, f"{name} returns something else once its first result was altered", got=again)
        scribble(again)
        mon.obs("owned-results")
    mon.sig("owned", ev.pdg, ev.edges, i % 8)
    mon.sample(f"results of {names[i % 8 :: 8]} altered, computed again")


# -- copies ------------------------------------------------------------------
def arrays_of(obj):
    import graphicle as gcl

    if isinstance(obj, gcl.MaskGroup):
        return [a for v in obj.values() for a in arrays_of(v)]
    if isinstance(obj, gcl.Graphicle):
        return arrays_of(obj.particles) + arrays_of(obj.adj)
    if isinstance(obj, gcl.ParticleSet):
        return [a for k in spec.PARTS for a in arrays_of(getattr(obj, k))]
    if isinstance(obj, gcl.AdjacencyList):
        return [obj.data, obj.weights]
    return [obj.data]


def mutate(rng, mon, obj):
    """A documented or plain in-place change; returns a description."""
    import graphicle as gcl

    if isinstance(obj, gcl.Graphicle):
        return "graph." + mutate(rng, mon, obj.particles if rng.random() < 0.6 and obj.particles else obj.adj)
    if isinstance(obj, gcl.ParticleSet):
        have = [k for k in spec.PARTS if len(getattr(obj, k))]
        if not have:
            return "nothing"
        k = have[rng.integers(len(have))]
        if rng.random() < 0.2:
            setattr(obj, k, type(getattr(obj, k))())
            return "replace " + k
        return k + "." + mutate(rng, mon, getattr(obj, k))
    if isinstance(obj, gcl.MaskGroup):
        keys = list(obj)
        r = rng.random()
        if r < 0.25 or not keys:
            obj["extra"] = gcl.MaskArray([True])
            return "insert"
        if r < 0.5:
            del obj[keys[rng.integers(len(keys))]]
            return "delete"
        if r < 0.6:
            obj.agg_op = "or" if obj.agg_op.value != "or" else "and"
            return "agg_op"
        if r < 0.7:
            obj.recursive_drop("latent", inplace=True)
            return "drop in place"
        return "child." + mutate(rng, mon, obj[keys[rng.integers(len(keys))]])
    n = len(obj)
    if n == 0:
        return "nothing"
    j = int(rng.integers(n))
    if isinstance(obj, gcl.MaskArray):
        r = rng.random()
        if r < 0.5:
            obj[j] = not obj.data[j]
        elif r < 0.75:
            obj.data[...] = ~obj.data
        else:
            obj.data = ~np.array(obj.data)
        return "mask"
    if isinstance(obj, gcl.AdjacencyList):
        if len(obj.weights) and rng.random() < 0.5:
            obj.weights[j] += 1.0
            return "weights"
        obj.edges["dst"][j] += 1
        return "edges"
    if isinstance(obj, gcl.MomentumArray):
        r = rng.random()
        if r < 0.4:
            obj.data["x"][j] += 1.0
            return "written momenta"
        if r < 0.7:
            obj += 1.0
        else:
            obj.data = np.ones((2, 4))
        return "momenta"
    if isinstance(obj, gcl.ColorArray):
        obj.data["color"][j] += 1
        return "colours"
    r = rng.random()
    if r < 0.5:
        obj.data[j] ^= 1
    elif r < 0.8:
        obj += 1
    else:
        obj.data = np.array(obj.data) + 3
    return "values"


def subject(rng):
    import graphicle as gcl

    sps = list(spec.specs().values())
    r = int(rng.integers(11))
    n = int(rng.integers(1, 12))
    if r < 7:
        sp = sps[r]
        vals = spec.values(rng, sp, n)
        if sp.dtype.kind != "b" and sp.dtype.kind != "f":
            vals = (vals % 50).astype(sp.dtype)
        if sp.name == "pmu":
            vals = gens.momenta(rng, n, "mixed")
        if sp.name == "edges" and rng.random() < 0.6:
            return sp.cls(vals, rng.random(n))
        return sp.cls(vals)
    if r < 9:
        rec = spec.record(rng, n, weights=rng.random() < 0.5)
        if r == 7:
            rec.pop("edges", None), rec.pop("weights", None)
            return gcl.ParticleSet.from_numpy(**rec)
        return gcl.Graphicle.from_numpy(**rec)

    def tree(d):
        out = gcl.MaskGroup({}, str(rng.choice(["or", "and", "none"])))
        for j in range(int(rng.integers(1, 4))):
            out[f"k{j}"] = tree(d - 1) if d and rng.random() < 0.4 else rng.random(n) < 0.5
        if rng.random() < 0.5:
            out["latent"] = rng.random(n) < 0.5
        return out

    return tree(2)


def g_copies(mon, rng, i):
    src = subject(rng)
    with core.quiet():
        if hasattr(src, "pmu") and len(getattr(src, "pmu")):
            _ = src.pmu.eta
        if hasattr(src, "eta"):
            _ = (src.eta, src.phi, src.mass)
    how = int(rng.integers(3)) if type(src).__name__ != "MaskGroup" or rng.random() < 0.7 else 3
    s0 = core.snap(src)
    if how == 3:
        cp = mon.call("recursive_drop", src.recursive_drop, "no such key")
    elif rng.random() < 0.12:
        cp = mon.call("deepcopy", copy.deepcopy, src)
        mon.obs("standard-copies")
    elif rng.random() < 0.15:
        cp = pickle.loads(mon.call("pickle", pickle.dumps, src, int(rng.integers(2, 6))))
        mon.obs("standard-copies")
    else:
        cp = mon.call("copy " + type(src).__name__, src.copy)
    mon.check(type(cp) is type(src), "type of a copy")
    mon.check(core.snap(src) == s0, "copying changed the source")
    mon.check(core.snap(cp) == s0, "copy differs from its source", src=src, cp=cp)
    for a in arrays_of(src):
        for b in arrays_of(cp):
            mon.obs("shared-memory-checks")
            mon.check(not np.shares_memory(a, b), "copy shares memory with its source", obj=src)
    ps, pc = (getattr(o, "pmu", o) for o in (src, cp))
    if hasattr(ps, "eta"):
        with core.quiet():
            for nm in ("pt", "eta", "rapidity", "phi", "theta", "mass", "mass_t"):
                a, b = getattr(ps, nm), getattr(pc, nm)
                mon.obs("shared-memory-checks")
                mon.check(np.array_equal(a, b, equal_nan=True), f"{nm} of a copy", got=b, want=a)
                mon.check(not np.shares_memory(a, b), f"{nm} of a copy shares memory with that of its source", obj=src)
    ops, direct = [], False
    for _ in range(int(rng.integers(1, 5))):
        first = rng.random() < 0.5
        a, b = (src, cp) if first else (cp, src)
        sb = core.snap(b)
        ops.append(("source " if first else "copy ") + mutate(rng, mon, a))
        mon.obs("mutations")
        mon.check(core.snap(b) == sb, f"change of the {ops[-1]} is visible in the other", obj=b)
        direct = direct or ops[-1].endswith("written momenta")
        if hasattr(b, "eta") and len(b) and not direct:
            with core.quiet():
                d = np.array(b.data)
                mon.close(b.pt, np.hypot(d["x"], d["y"]), "derived values of the untouched object", rtol=1e-9)
    mon.sig(type(src).__name__, s0, ops)
    mon.sample(f"{type(src).__name__}: {ops}")
    mon.state("subject-op", (type(src).__name__, tuple(sorted(set(ops)))[:2]))


def g_results(mon, rng, i):
    """Results of calls documented to return new objects stay independent."""
    import graphicle as gcl

    n = int(rng.integers(2, 20))
    p = gcl.MomentumArray(gens.momenta(rng, n, "collider"))
    s0 = core.snap(p)
    with core.quiet():
        held = (p.eta, p.phi, p.pt)
        hs = core.snap(list(held))
        for name, q in (
            ("shift_phi", p.shift_phi(0.5)),
            ("shift_rapidity", p.shift_rapidity(0.5)),
            ("shift_eta", p.shift_eta(0.5)),
            ("shift_eta experimental", p.shift_eta(0.5, experimental=True)),
            ("shift by zero", p.shift_phi(0.0)),
            ("rapidity by zero", p.shift_rapidity(0.0)),
            ("addition", p + 0.0),
        ):
            mon.check(not np.shares_memory(q.data, p.data), f"result of {name} shares memory with its source")
            q.data["x"][...] = 99.0
            q += 1.0
            mon.check(core.snap(p) == s0, f"changing the result of {name} changed the source")
            mon.check(core.snap(list(held)) == hs, f"changing the result of {name} changed derived values of the source")
    st = rng.choice([-1, 1, 2, -2, 3, -9], n).astype(np.int16)
    src = types.SimpleNamespace(pdg=np.full(n, 21), pmu=gens.momenta(rng, n), color=np.zeros((n, 2), int), helicity=np.zeros(n, np.int16), status=st)
    s = core.snap(src.status)
    ps = gcl.ParticleSet.from_lhe_event(src)
    ps.status.data[...] = 77
    mon.check(core.snap(src.status) == s, "statuses of the Les Houches source are shared with the result")
    # a deep copy of the standard library works alike
    d = copy.deepcopy(p)
    d.data["y"][...] = -5.0
    mon.check(core.snap(p) == s0, "deepcopy shares data")
    mon.obs("mutations", 8)
    mon.sig(n, s0)


# -- results which are groups, or come from events with little in them ----------
def restructure(rng, group):
    """Changes to the names and the aggregation of a group, not to its masks."""
    import graphicle as gcl

    for name in list(group)[: int(rng.integers(1, 3))]:
        del group[name]
    group["another"] = gcl.MaskArray([True])
    group.agg_op = "and" if group.agg_op.value == "or" else "or"


def bare(rng, i):
    """Events in which some step of an analysis has nothing to do."""
    import graphicle as gcl

    form = i % 6
    if form == 0:  # no hadronisation
        ev = event.Event(rng, hadronise=False)
    elif form == 1:  # nothing decays
        ev = event.Event(rng, template=["dijet", "qqbar", "qgjets"][rng.integers(3)])
    else:
        ev = event.Event(rng)
    arrays = {k: np.array(v) for k, v in ev.arrays().items()}
    if form == 2:  # only the hard process, all of it final
        rows = np.array([r for r in range(ev.n) if abs(arrays["status"][r]) == 23])
        arrays = {k: v[rows] for k, v in arrays.items()}
        arrays["final"][:] = True
    elif form == 3:
        arrays["final"][:] = False
    elif form == 4:  # a resonance and one of its products
        rows = [r for r in range(ev.n) if abs(arrays["status"][r]) in (22, 23)][:2]
        arrays = {k: v[rows] for k, v in arrays.items()}
    return ["no hadrons", "flat", "all final", "none final", "two rows", "full"][form], gcl.Graphicle.from_numpy(**arrays)


def g_bare(mon, rng, i):
    import graphicle as gcl

    sel, calc = gcl.select, gcl.calculate
    form, g = bare(rng, i)
    n = len(g)
    flat = sel.hard_descendants(g)
    with core.quiet():
        hier = sel.hierarchy(g)
    names = list(hier)
    some = gcl.MaskGroup({f"m{j}": gcl.MaskArray(rng.random(n) < 0.6) for j in range(3)}, "or")
    alone = gcl.MaskGroup({"m": gcl.MaskArray(np.ones(n, bool))}, "or")
    nest = gcl.MaskGroup({"a": some.copy(), "latent": gcl.MaskArray(np.zeros(n, bool))}, "or")
    every = gcl.MaskArray(np.ones(n, bool))
    inputs = dict(event=g, descendants=flat, hierarchy=hier, group=some, alone=alone, nest=nest, every=every)
    with core.quiet():
        reads = [getattr(g.pmu, k) for k in ("pt", "eta", "rapidity", "phi", "theta", "mass", "mass_t")]
    before = {k: core.snap(v) for k, v in inputs.items()}
    held = core.snap(reads)
    flags = {k: [a.flags.writeable for a in core.leaves(v)] for k, v in inputs.items()}

    def clusters():
        masks = [gcl.MaskArray(np.arange(k) == j) for k in [int(g.final.data.sum())] for j in range(k)]
        return sel.monte_carlo_tag(g.particles, masks)

    calls = dict(
        partition=lambda: sel.partition_descendants(g, hier),
        partition_flat=lambda: sel.partition_descendants(g, flat),
        hierarchy=lambda: sel.hierarchy(g),
        hierarchy_given=lambda: sel.hierarchy(g, flat),
        leaf_masks=lambda: sel.leaf_masks(hier),
        leaf_masks_flat=lambda: sel.leaf_masks(some),
        leaf_masks_alone=lambda: sel.leaf_masks(alone),
        rise=lambda: some.flatten("rise"),
        agg=lambda: some.flatten("agg"),
        leaves=lambda: some.flatten("leaves"),
        rise_nested=lambda: nest.flatten("rise"),
        rise_alone=lambda: alone.flatten(),
        drop=lambda: hier.recursive_drop(),
        drop_missing=lambda: some.recursive_drop("no such name"),
        copy=lambda: hier.copy(),
        names=lambda: hier[names],
        all_names=lambda: some[list(some)],
        rows=lambda: some[every],
        sliced=lambda: hier[:],
        hard=lambda: g.hard_mask,
        descendants=lambda: sel.hard_descendants(g),
        tag=clusters,
        clusters=lambda: sel.clusters(g, 0.5),
    )
    for name, fn in calls.items():
        try:
            with core.quiet():
                out = fn()
        except Exception:  # noqa: nothing to do for this event, only side effects matter
            mon.obs("bare-refused")
            out = None
        if isinstance(out, gcl.MaskGroup):
            for k, v in inputs.items():
                mon.check(out is not v, f"{name} returned its input itself", event=form)
            restructure(rng, out)
            mon.obs("restructured")
        for k, v in inputs.items():
            mon.check(core.snap(v) == before[k], f"{k} was changed by {name}, or by changes to its result", event=form)
            mon.check([a.flags.writeable for a in core.leaves(v)] == flags[k], f"{name} changed whether {k} may be written to", event=form)
        mon.check(core.snap(reads) == held, f"derived values of the event were changed by {name}", event=form)
        mon.obs("bare-calls")
    # sums, centroids and shapes of one or two particles
    for k in (1, 2):
        raw = gens.momenta(rng, k, gens.kind(rng))
        p, q = gcl.MomentumArray(raw), gcl.MomentumArray(gens.momenta(rng, k, "collider"))
        with core.quiet():
            reads2 = [getattr(o, m) for o in (p, q) for m in ("pt", "eta", "rapidity", "phi", "theta", "mass", "mass_t")]
        held2, raw2 = core.snap(reads2), core.snap([p, q])
        mask = gcl.MaskArray(np.ones(k, bool))
        for name, fn in dict(
            centroid=lambda: calc.weighted_centroid(p), centroid_rap=lambda: calc.weighted_centroid(p, pseudo=False),
            resultant=lambda: calc.resultant_coords(p), resultant_rap=lambda: calc.resultant_coords(p, pseudo=False),
            mass=lambda: calc.combined_mass(p), aggregate=lambda: calc.aggregate_momenta(p, [mask, mask]),
            thrust=lambda: calc.thrust(p, rng_seed=1), spherocity=lambda: calc.spherocity(p, rng_seed=1), c=lambda: calc.c_parameter(p),
            distance=lambda: p.delta_R(q), distance_rap=lambda: p.delta_R(p, pseudo=False), prune=lambda: sel.centroid_prune(p, 0.4),
            prune_masked=lambda: sel.centroid_prune(p, 10.0, mask, (0.0, 0.0)), closest=lambda: sel.arg_closest(p, q),
            eta=lambda: p.shift_eta(0.3), rapidity=lambda: p.shift_rapidity(0.3), massless=lambda: p.shift_eta(0.3, experimental=True),
            phi=lambda: p.shift_phi(0.3), axis=lambda: gcl.transform.soft_hard_axis(p), affinity=lambda: gcl.matrix.delta_R_aff(p),
            hadrons=lambda: gcl.matrix.parton_hadron_distance(p, q), jets=lambda: sel.fastjet_clusters(q, 0.4, -1),
            coeffs=lambda: calc.cluster_coeff_distbn(p, 1.0),
        ).items():
            try:
                with core.quiet():
                    out = fn()
            except Exception:  # noqa
                out = None
            mon.check(core.snap([p, q]) == raw2, f"momenta were changed by {name}", n=k)
            mon.check(core.snap(reads2) == held2, f"derived values read earlier were changed by {name}", n=k, raw=raw)
            for a in core.leaves(out) if name not in ("x",) else ():
                for b in reads2 + [p.data, q.data]:
                    mon.check(not np.shares_memory(a, b), f"result of {name} shares memory with what was read earlier", n=k)
            mon.obs("bare-calls")
    mon.state("bare", form)
    mon.sig("bare", form, core.snap(g))
    mon.sample(f"event with {form}: {len(calls)} calls, {n} rows")


# -- every other monitor's workload, watched for side effects only ------------
FOREIGN = {
    "p02": ["*"], "p04": ["pairs", "groups", "chains"], "p06": ["sets"], "p08": ["rapidity", "phi", "eta", "experimental"],
    "p09": ["pair", "self", "metric"], "p10": ["c", "invariance"], "p11": ["*"], "p12": ["*"], "p13": ["*"],
    "p14": ["matrix"], "p15": ["random", "event"], "p16": ["*"], "p17": ["*"], "p18": ["*"], "p19": ["*"], "p20": ["*"],
    "p21": ["cluster", "reject"], "p22": ["*"], "p23": ["*"], "p24": ["*"], "p25": ["*"], "p26": ["small"], "p28": ["event", "lhe"],
}
HEAVY = {"p10", "p21", "p16", "p17", "p25", "p18"}


def foreign_groups():
    out = []
    for name, want in FOREIGN.items():
        mod = importlib.import_module("." + name, __package__)
        for group, fn, *_ in mod.GROUPS:
            if want == ["*"] or group in want:
                out.append((name, group, fn))
    return out


def g_foreign(mon, rng, i):
    todo = foreign_groups()
    name, group, fn = todo[i % len(todo)]
    pure = core.PurityMon(mon)
    pure.label = f"{name}.{group}"
    for j in range(3 if name in HEAVY else 12):
        # the same per-case seeding as the monitor itself, offset by the run
        r = np.random.default_rng([mon.seed, i, j])
        try:
            with core.quiet():
                fn(pure, r, i // len(todo) * 12 + j)
            mon.obs("foreign-complete")
        except (core.Violation, core.Inconclusive, MemoryError):
            raise
        except Exception:  # noqa: another property's business
            mon.obs("foreign-elsewhere")
        mon.obs("foreign-cases")
    calls = sum(v for k, v in pure.counts.items() if k.startswith(("call:", "reject:")))
    mon.obs("foreign-calls", calls)
    mon.state("foreign", (name, group))
    mon.sig(name, group, i)
    mon.sample(f"workload {name}.{group}: {calls} calls watched")


# -- options over their whole range, on plain arrays a caller would hold -------
def g_options(mon, rng, i):
    import graphicle as gcl

    n = int(rng.integers(2, 12))
    mat, calc = gcl.matrix, gcl.calculate
    aff = rng.uniform(-1, 1, (n, n)) * 10.0 ** rng.uniform(-3, 3)
    aff[np.diag_indices(n)] = 0 if rng.random() < 0.5 else rng.normal()
    span = float(np.abs(aff).max())
    for mode in ("max", "min"):
        for cut in (-2 * span, 0.0, float(np.median(aff)), 2 * span, np.inf, -np.inf):
            for loop in (False, True):
                for weighted in (False, True):
                    out = mon.call("cut_adj", mat.cut_adj, aff, cut, mode, loop, weighted)
                    independent(mon, out, aff, "cut_adj")
    for k in (1, n - 1, n):
        for loop in (False, True):
            for weighted in (False, True):
                for row in (False, True):
                    for dt in (None, np.float64, np.float32):
                        if k > n - (not loop):
                            continue
                        out = mon.call("knn_adj", mat.knn_adj, aff, k, loop, weighted, row, dt)
                        independent(mon, out, aff, "knn_adj")
    u, v = rng.random(n) < 0.5, rng.random(n) < 0.5
    for w in (np.ones(n), np.zeros(n), rng.random(n) * 10.0 ** rng.uniform(-20, 20)):
        mon.call("jaccard_distance", calc.jaccard_distance, u, v, w)
    raw = gens.momenta(rng, n, gens.kind(rng))
    p = gcl.MomentumArray(raw)
    ones = [np.ones((n, 1)), np.zeros((n, 1)), rng.random((n, 1))]
    for w in ones:
        mon.call("combined_mass", calc.combined_mass, p, w)
        independent(mon, mon.call("product", lambda a, b: a * b, p, w), p.data, "product")
    for sh in (0.0, 1e-12, 1.0, -4.0, rng.uniform(-1, 1, n), np.zeros(n)):
        for nm in ("shift_phi", "shift_rapidity"):
            independent(mon, mon.call(nm, getattr(p, nm), sh), p.data, nm)
        independent(mon, mon.call("shift_eta", lambda a, s: a.shift_eta(s, experimental=True), p, sh), p.data, "shift_eta")
    every = [gcl.MaskArray(np.ones(n, bool)), gcl.MaskArray(np.zeros(n, bool)), gcl.MaskArray(u)]
    for m in every:
        for centre in (None, (0.1, 0.2)):
            for radius in (0.0, 0.5, 100.0):
                out = mon.call("centroid_prune", gcl.select.centroid_prune, p, radius, m, centre)
                independent(mon, out.data, m.data, "centroid_prune")
        for both in (("and", every), ("or", every), ("or", [m]), ("and", [m])):
            grp = gcl.MaskGroup({str(j): x for j, x in enumerate(both[1])}, both[0])
            agg = mon.call("group data", lambda g: g.data, grp)
            independent(mon, agg, m.data, "aggregate of a group")
            independent(mon, mon.call("invert", lambda g: ~g, m).data, m.data, "inverse of a mask")
    solo = [gcl.MaskGroup({"m": m}, agg) for m in every for agg in ("and", "or")]
    for m in every:
        for other in [*every, *solo, *(x.data for x in every)]:
            for nm, op in (("and", operator.and_), ("or", operator.or_), ("equality", operator.eq), ("inequality", operator.ne)):
                for left, right in ((m, other), (other, m)) if not isinstance(other, np.ndarray) else ((m, other),):
                    out = np.asarray(mon.call(nm, op, left, right))
                    for x in (left, right):
                        independent(mon, out, x.data if isinstance(x, gcl.MaskArray) else np.asarray(x) if isinstance(x, np.ndarray) else x["m"].data, nm + " of masks")
    for name, a in (("helicity", gcl.HelicityArray), ("status", gcl.StatusArray), ("pdg", gcl.PdgArray)):
        vals = rng.integers(-25, 25, n)
        c = a(vals)
        for op in (abs, np.negative, lambda z: z + 0, lambda z: z * 1):
            independent(mon, mon.call(name + " arithmetic", op, c).data, c.data, name + " arithmetic")
    mon.obs("options")
    mon.sig(aff, u, raw)
    mon.sample(f"{n} rows: every option of cut_adj, knn_adj, jaccard_distance, centroid_prune and the shifts")


def independent(mon, out, src, what):
    mon.obs("shared-memory-checks")
    mon.check(not np.shares_memory(np.asarray(out), np.asarray(src)), f"result of {what} shares memory with its input")


GROUPS = [("owned", g_owned, 24), ("histories", g_histories, 90), ("copies", g_copies, 900), ("results", g_results, 40), ("options", g_options, 24), ("bare", g_bare, 36),
          ("foreign", g_foreign, 96)]
