"""P17 partition of shared hadrons, and clusters."""
import itertools as it

import numpy as np

from . import core, event, gens, kin

LD = np.longdouble
RULE = (
    "a case is one generated event whose hadrons are re-assigned by brute force in "
    "extended precision; non-trivial when a hadronisation vertex is shared by partons of "
    "different heritage; distinct by event record"
)
ASSUMPTIONS = [
    "each leaf of the hierarchy holds exactly one outgoing hard parton, as in generator records",
    "hadrons whose two nearest partons are equidistant within rounding of the coordinates, and particles within 1e-9 of the radius, may go either way",
]
REQUIRED = {"partition:hadrons": 2000, "moved": 200, "shared-vertices": 200, "background-won": 50, "clusters": 60,
            "radius-cut": 50, "singlet-leaf": 40, "flat-tree": 20, "nested-tree": 40,
            "heavy-partons": 1000, "radius-at-particle": 20, "eta-not-rapidity": 5, "near-call": 20, "crowded": 5, "rare-process": 8, "other-aggregation": 15}


def plane(rows_a, rows_b):
    a, b = kin.Kin(rows_a), kin.Kin(rows_b)
    return np.hypot(a.eta[:, None] - b.eta[None], kin.wrap(a.phi[:, None] - b.phi[None]))


def allocate(mon, ev, from_hard, pt_exp):
    """[(incident rows, hadron rows, nearest incident row, ambiguous)]."""
    out = []
    st = np.abs(ev.status.astype(int))
    vtxs = sorted(set(ev.edges[(st >= 80) & (st <= 90), 0].tolist()))
    for v in vtxs:
        inc = np.flatnonzero(ev.edges[:, 1] == v)
        if not from_hard[inc].any():
            continue
        desc = gens.reach_rows(ev.edges.tolist(), [v])
        had = np.array([r for r in sorted(desc) if ev.final[r]], int)
        if not len(had):
            out.append((inc, had, had, had.astype(bool)))
            continue
        d = plane(ev.pmu[inc], ev.pmu[had]) * (kin.Kin(ev.pmu[inc]).pt ** LD(pt_exp))[:, None]
        order = np.argsort(d, axis=0)
        near = inc[order[0]]
        if len(inc) > 1:
            gap = np.take_along_axis(d, order[1:2], 0)[0] - np.take_along_axis(d, order[:1], 0)[0]
            # what rounding of coordinates can do to either of the two distances
            wt = kin.Kin(ev.pmu[inc]).pt ** LD(pt_exp)
            et, ht = kin.Kin(ev.pmu[inc]).eta_tol(), kin.Kin(ev.pmu[had]).eta_tol()
            slack = sum(wt[order[j]] * (et[order[j]] + ht + 1e-12) for j in (0, 1))
            vague = np.asarray(gap <= slack + 1e-12 * np.take_along_axis(d, order[1:2], 0)[0])
            near_call = gap <= 1e-6 * np.take_along_axis(d, order[1:2], 0)[0]
            mon.obs("near-call", int((near_call & ~vague).sum()))
        else:
            vague = np.zeros(len(had), bool)
        out.append((inc, had, near, vague))
    return out


def settle(mask, alloc):
    """(expected mask, entries that may be either) after partitioning."""
    new, either = mask.copy(), np.zeros(len(mask), bool)
    for inc, had, near, vague in alloc:
        if not mask[inc].any():
            continue
        new[had] = mask[near]
        either[had] |= vague
    return new, either


def walk(grp, path=()):
    import graphicle as gcl

    for nm, sub in grp.items():
        if isinstance(sub, gcl.MaskGroup):
            yield from walk(sub, path + (nm,))
        else:
            yield path + (nm,), np.array(sub.data)


def make(mon, rng, i, **kw):
    names = sorted(event.TEMPLATES)
    name = names[i % len(names)]
    if i % 11 == 7:
        name = sorted(event.EXTRA)[i // 11 % len(event.EXTRA)]
        mon.obs("rare-process")
    ev = event.Event(rng, template=name, max_branch=int(rng.integers(1, 4)), **kw)
    st = np.abs(ev.status.astype(int))
    if rng.random() < 0.6:  # partons far from massless: rapidity and pseudorapidity part ways
        pick = np.flatnonzero(~ev.final & (st != 0))
        pick = pick[rng.random(len(pick)) < 0.7]
        p2 = (ev.pmu[pick, :3] ** 2).sum(1)
        ev.pmu[pick, 3] = np.sqrt(p2 * (1 + (10 ** rng.uniform(-1, 0.7, len(pick))) ** 2))
        mon.obs("heavy-partons", len(pick))
    return ev


def tighten(rng, ev, exp):
    """Put some hadrons all but midway between two of their partons."""
    st = np.abs(ev.status.astype(int))
    for v in sorted(set(ev.edges[(st >= 80) & (st <= 90), 0].tolist())):
        inc = np.flatnonzero(ev.edges[:, 1] == v)
        had = np.flatnonzero((ev.edges[:, 0] == v) & ev.final)
        if len(inc) < 2:
            continue
        for h in had[rng.random(len(had)) < 0.4]:
            a, b = rng.choice(inc, 2, replace=False)
            k = kin.Kin(ev.pmu[[a, b]])
            w = np.asarray(k.pt ** LD(exp), float)
            t = w[1] / (w[0] + w[1]) * (1 + float(rng.choice([-1, 1])) * 10.0 ** rng.uniform(-11, -6))
            eta, phi = np.asarray(k.eta, float), np.asarray(k.phi, float)
            if not (np.all(np.isfinite(eta)) and np.all(np.abs(eta) < 6) and np.isfinite(t)):
                continue
            y = eta[0] + t * (eta[1] - eta[0])
            f = phi[0] + t * float(kin.wrap(LD(phi[1]) - LD(phi[0])))
            pt = float(rng.uniform(0.3, 3))
            mom = np.array([pt * np.cos(f), pt * np.sin(f), pt * np.sinh(y)])
            ev.pmu[h] = [*mom, np.sqrt((mom**2).sum() + 0.02)]


def g_partition(mon, rng, i):
    import graphicle as gcl

    ev = make(mon, rng, i)
    exp = float(rng.choice([-0.1, 0.0, -1.0, 0.5, -2.5]))
    if rng.random() < 0.5:
        tighten(rng, ev, exp)
    g = ev.graph()
    flat = rng.random() < 0.25
    if flat:  # overlapping parents and children side by side
        hier = gcl.select.hard_descendants(g)
    else:
        hier = gcl.select.hierarchy(g)
    if rng.random() < 0.3:  # how the whole tree aggregates has no say
        hier.agg_op = str(rng.choice(["and", "none"]))
        mon.obs("other-aggregation")
    agg = hier.agg_op
    args = (g, hier) if exp == -0.1 and rng.random() < 0.7 else (g, hier, exp)
    before = dict(walk(hier))
    got = mon.call("partition_descendants", gcl.select.partition_descendants, *args)
    after = dict(walk(got))
    mon.check(list(after) == list(before), "names and nesting after partitioning", got=list(after), want=list(before))
    mon.check(got.agg_op is agg, "aggregation after partitioning", got=got.agg_op, want=agg)
    from_hard = np.zeros(ev.n, bool)
    for m in before.values():
        from_hard |= m
    alloc = allocate(mon, ev, from_hard, exp)
    for inc, had, near, vague in alloc:
        mon.obs("partition:hadrons", len(had))
        if len(inc) > 1:
            mon.obs("shared-vertices")
        mon.obs("background-won", int((~from_hard[near]).sum()))
    for path, m in before.items():
        if path[-1] == "latent":
            mon.same(after[path], m, f"latent mask {path} after partitioning")
            continue
        want, either = settle(m, alloc)
        mon.same(after[path][~either], want[~either], f"leaf {path} after partitioning", exp=exp, template=ev.template)
        mon.obs("moved", int((m != want).sum()))
    if not flat:
        leaves = [m for path, m in after.items() if path[-1] != "latent"]
        either = np.zeros(ev.n, bool)
        for _, had, _, vague in alloc:
            either[had] |= vague
        mon.check(int(np.sum(leaves, axis=0)[ev.final].max(initial=0)) <= 1, "a final particle belongs to two leaves")
    mon.obs("flat-tree" if all(len(p) == 1 for p in before) else "nested-tree")
    mixed = any(len(set(from_hard[inc].tolist())) > 1 or len(inc) > 1 for inc, *_ in alloc)
    mon.state("incident", repr(sorted(len(inc) for inc, *_ in alloc)))
    mon.sig(ev.edges, ev.pmu, nontrivial=mixed)
    mon.sample(f"{ev.template} event of {ev.n}: {len(alloc)} hard hadronisation vertices, exponent {exp}")


class Shared:
    """One hadronisation vertex which hundreds of partons of three heritages share."""

    template = "shared"

    def __init__(self, rng):
        na, nb, nc = (int(10 ** rng.uniform(0, 2.4)) for _ in range(3))
        nh = int(10 ** rng.uniform(0.5, 2.3))
        np_ = na + nb + nc
        edges = [(-1, -2), (-1, -3)] + [(-2, -9)] * na + [(-3, -9)] * nb + [(-4, -9)] * nc + [(-9, k + 1) for k in range(nh)]
        n = self.n = len(edges)
        pt = 10 ** rng.uniform(-1, 2, n)
        phi, eta = rng.uniform(-np.pi, np.pi, n), rng.uniform(-2, 2, n)
        mom = np.column_stack([pt * np.cos(phi), pt * np.sin(phi), pt * np.sinh(eta), pt * np.cosh(eta) + 0.01])
        status = np.array([-23] * 2 + [-51] * np_ + [83] * nh)
        pdg = np.array([6, -6] + [21] * np_ + [211] * nh)
        heir = np.array([1, 2] + [1] * na + [2] * nb + [0] * nc + [3] * nh)
        o = rng.permutation(n)
        self.edges, self.pmu, self.status, self.pdg, heir = np.array(edges)[o], mom[o], status[o], pdg[o], heir[o]
        self.final = heir == 3
        self.heirs = dict(t=(heir == 1) | self.final, tbar=(heir == 2) | self.final)


def g_shared(mon, rng, i):
    import graphicle as gcl

    ev = Shared(rng)
    exp = float(rng.choice([-0.1, 0.0, -1.0, 0.5]))
    g = gcl.Graphicle.from_numpy(pdg=ev.pdg, pmu=ev.pmu, edges=ev.edges, status=ev.status, final=ev.final)
    hier = gcl.MaskGroup({nm: gcl.MaskArray(m.copy()) for nm, m in ev.heirs.items()}, "or")
    got = mon.call("partition_descendants", gcl.select.partition_descendants, g, hier, exp)
    alloc = allocate(mon, ev, ev.heirs["t"] | ev.heirs["tbar"], exp)
    mon.check(list(got) == list(ev.heirs), "names after partitioning")
    for nm, m in ev.heirs.items():
        want, either = settle(m, alloc)
        mon.same(np.array(got[nm].data)[~either], want[~either], f"leaf {nm} of a shared vertex", exp=exp, n=ev.n)
        mon.obs("moved", int((m != want).sum()))
    mon.obs("crowded", int(len(alloc[0][0]) > 128))
    mon.sig(ev.edges, ev.pmu)
    mon.sample(f"{len(alloc[0][0])} partons share {len(alloc[0][1])} hadrons, exponent {exp}")


def singlet_names(ev, outgoing):
    """Names of leaves in a colour singlet; outgoing: name -> row."""
    col = {nm: tuple(map(int, ev.color[r])) for nm, r in outgoing.items()}
    keys = [nm for nm in outgoing if col[nm] != (0, 0)]
    inside = set()
    for k in (2, 3):
        for combo in it.combinations(keys, k):
            if {col[c][0] for c in combo} == {col[c][1] for c in combo}:
                inside |= set(combo)
    return keys, inside


def g_clusters(mon, rng, i):
    import graphicle as gcl

    ev = make(mon, rng, i)
    g = ev.graph()
    rows, desc, parent = ev.hard_parents()
    names = dict(zip(rows, ev.hard_names(rows, event.name_table())))
    leaves = [r for r in rows if not any(parent[c] == r for c in rows)]
    radius = float(rng.choice([0.2, 0.7, 1.0, 2.5, 6.0, 0.05, 0.004, 0.0]))
    if leaves and rng.random() < 0.5:  # hadrons along their parton, as close as can be
        for q in leaves:
            pick = np.flatnonzero(ev.mask(desc[q]) & ev.final)
            pick = pick[rng.random(len(pick)) < 0.4]
            off = rng.normal(size=(len(pick), 3)) * 10.0 ** rng.uniform(-5, -1.5, (len(pick), 1)) * np.linalg.norm(ev.pmu[q, :3])
            ev.pmu[pick, :3] = (ev.pmu[q, :3] + off) * rng.uniform(0.05, 0.9, (len(pick), 1))
            ev.pmu[pick, 3] = np.sqrt((ev.pmu[pick, :3] ** 2).sum(1) + 0.02)
            mon.obs("near-parton", len(pick))
        g = ev.graph()
    if leaves and rng.random() < 0.5:  # just either side of some particle
        lone = [r for r in leaves if tuple(ev.color[r]) != (0, 0)] or leaves
        d = plane(ev.pmu[ev.final], ev.pmu[[lone[rng.integers(len(lone))]]])[:, 0]
        d = np.asarray(d[np.isfinite(d)], float)
        d = d[(d > 0.001) & (d < 4)]
        if len(d):
            radius = float(rng.choice(d)) * float(rng.choice([1 - 1e-6, 1 + 1e-6]))
            mon.obs("radius-at-particle")
    got = mon.call("clusters", gcl.select.clusters, g, radius)
    mon.check(isinstance(got, gcl.MaskGroup) and all(isinstance(m, gcl.MaskArray) for m in got.values()), "clusters are flat")
    mon.check(sorted(got.keys()) == sorted(names.values()), "one cluster per hard parton", got=list(got.keys()))
    mon.check(str(got.agg_op).upper().endswith("OR"), "aggregation of the clusters")
    from_hard = ev.mask(set().union(*desc.values()) if desc else set())
    alloc = allocate(mon, ev, from_hard, -0.1)
    coloured, inside = singlet_names(ev, {names[r]: r for r in leaves})
    nf = int(ev.final.sum())
    total = np.zeros(nf, int)
    for r in leaves:
        nm = names[r]
        m = np.array(got[nm].data)
        mon.check(m.shape == (nf,), "clusters are masks over the final particles", got=m.shape, want=nf)
        want, either = settle(ev.mask(desc[r]), alloc)
        if nm in coloured and nm not in inside:
            d = plane(ev.pmu, ev.pmu[[r]])[:, 0]
            mon.obs("radius-cut", int((want & np.asarray(d >= radius) & ev.final).sum()))
            k = kin.Kin(ev.pmu[[r]])
            dy = np.hypot(kin.Kin(ev.pmu).eta - k.rap, kin.wrap(kin.Kin(ev.pmu).phi - k.phi))
            mon.obs("eta-not-rapidity", int((want & ev.final & np.asarray((d < radius) != (dy < radius))).any()))
            either |= np.asarray(np.abs(d - radius) < 1e-9)
            want = want & np.asarray(d < radius)
        elif nm in inside:
            mon.obs("singlet-leaf")
        either = either[ev.final]
        mon.same(m[~either], want[ev.final][~either], f"cluster of {nm}", template=ev.template, radius=radius)
        total += m
    mon.check(total.max(initial=0) <= 1, "clusters of different leaves overlap")
    for r in rows:  # a decayed parton's cluster is that of its leaves together
        if r not in leaves:
            want = np.zeros(nf, bool)
            for q in leaves:
                if q in desc[r]:
                    want |= np.array(got[names[q]].data)
            mon.same(np.array(got[names[r]].data), want, f"cluster of decayed {names[r]}", template=ev.template)
    mon.obs("clusters")
    mon.sig("c", ev.edges, ev.pmu, radius, nontrivial=bool(leaves))
    mon.sample(f"{ev.template} event of {ev.n} ({nf} final), radius {radius}: {list(got.keys())}")


GROUPS = [("partition", g_partition, 130), ("clusters", g_clusters, 110), ("shared", g_shared, 50)]
