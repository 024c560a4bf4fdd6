"""P16 hard descendants and hierarchy."""
import numpy as np

from . import core, event, gens

RULE = (
    "a case is one generated event (known ancestry) whose hard-process masks and "
    "tree are rebuilt from the generator's own bookkeeping; non-trivial with at least "
    "one hard parton; distinct by event record"
)
ASSUMPTIONS = [
    "events follow Pythia status and vertex conventions; every hard parton has at most one closest hard ancestor",
]
REQUIRED = {"hard-masks": 500, "nested": 70, "flat": 20, "repeated-names": 35, "targets": 150, "rejected": 60,
            "depth>=2": 30, "latent": 100, "prompt-beside-decay": 20, "shuffled": 30, "odd-statuses": 15, "given-descendants": 15, "signs-mixed": 30, "rare:crowd": 5, "rare:swarm": 5, "rare:chain": 5, "rare:similar": 5}


def diffractive(mon, rng, ev):
    """Some events carry status 24 instead of 23 (non-perturbative)."""
    if rng.random() < 0.1:
        ev.status = np.where(np.abs(ev.status) == 23, np.sign(ev.status) * 24, ev.status).astype(np.int16)
    if rng.random() < 0.4:  # the sign tells decayed from undecayed, nothing else
        flip = np.where(rng.random(ev.n) < rng.choice([0.3, 1.0]), -1, 1)
        ev.status = (np.abs(ev.status) if rng.random() < 0.5 else ev.status * flip).astype(np.int16)
        mon.obs("signs-mixed")
    # outside of the hard process any status will do
    soft = (np.abs(ev.status) < 21) | (np.abs(ev.status) > 24)
    if rng.random() < 0.15:
        ev.status = np.where(soft, rng.choice([0, 1, 2, -1, 20, 25, 4, 123, -30000], ev.n) if rng.random() < 0.5 else 0, ev.status).astype(np.int16)
        mon.obs("odd-statuses")
        return True
    return False


def make(mon, rng, i):
    names = sorted(event.TEMPLATES)
    name = names[i % len(names)]
    if i % 9 == 4:
        name = sorted(event.EXTRA)[i // 9 % len(event.EXTRA)]
        mon.obs("rare:" + name)
    ev = event.Event(rng, template=name, max_branch=int(rng.integers(1, 5)),
                     hadronise=bool(rng.random() < 0.85), isr=bool(rng.random() < 0.8))
    if ev.shuffled:
        mon.obs("shuffled")
    diffractive(mon, rng, ev)
    return ev


def expected(ev, table):
    rows, desc, parent = ev.hard_parents()
    names = ev.hard_names(rows, table)
    return rows, {r: ev.mask(desc[r]) for r in rows}, parent, dict(zip(rows, names))


def tree(rows, desc, parent, names):
    """name -> mask, or (mask, subtree) for partons with hard children."""
    kids = {r: [c for c in rows if parent[c] == r] for r in rows}

    def node(r):
        if not kids[r]:
            return desc[r]
        sub = {names[c]: node(c) for c in kids[r]}
        rest = desc[r].copy()
        for c in kids[r]:
            rest &= ~desc[c]
        sub["latent"] = rest
        return sub

    return {names[r]: node(r) for r in rows if parent[r] is None}


def judge_tree(mon, got, want, path=""):
    import graphicle as gcl

    mon.check(isinstance(got, gcl.MaskGroup), f"{path or 'hierarchy'} is a group")
    mon.check(str(got.agg_op).upper().endswith("OR"), f"aggregation of {path or 'hierarchy'}", got=got.agg_op)
    mon.check(set(got.keys()) == set(want) and len(got) == len(want), f"names nested under {path or 'the root'}", got=list(got.keys()), want=list(want))
    deep = 0
    for nm, sub in want.items():
        if isinstance(sub, dict):
            deep = max(deep, 1 + judge_tree(mon, got[nm], sub, path + "/" + nm))
        else:
            leaf = got[nm]
            mon.check(isinstance(leaf, gcl.MaskArray), f"{path}/{nm} is a mask")
            mon.same(leaf.data, sub, f"mask of {path}/{nm}")
            if nm == "latent":
                mon.obs("latent")
    return deep


def g_hierarchy(mon, rng, i):
    import graphicle as gcl

    table = event.name_table()
    ev = make(mon, rng, i)
    g = ev.graph()
    rows, desc, parent, names = expected(ev, table)
    hd = mon.call("hard_descendants", gcl.select.hard_descendants, g)
    mon.check(list(hd.keys()) == [names[r] for r in rows], "names of the hard partons", got=list(hd.keys()), want=[names[r] for r in rows])
    mon.check(str(hd.agg_op).upper().endswith("OR"), "aggregation of hard descendants")
    for r in rows:
        mon.same(hd[names[r]].data, desc[r], f"descendants of {names[r]}", template=ev.template)
        mon.obs("hard-masks")
    if any(":" in nm for nm in names.values()):
        mon.obs("repeated-names")
    want = tree(rows, desc, parent, names)
    if rng.random() < 0.5:
        tr = mon.call("hierarchy", gcl.select.hierarchy, g)
    else:
        tr = mon.call("hierarchy", gcl.select.hierarchy, g, hd)
    deep = judge_tree(mon, tr, want)
    # each nested group reproduces the mask of its parton
    byname = {names[r]: desc[r] for r in rows}

    def groups(grp):
        for nm, sub in grp.items():
            if isinstance(sub, gcl.MaskGroup):
                mon.same(sub.data, byname[nm], f"nested group {nm} as a whole")
                groups(sub)

    groups(tr)
    every = np.zeros(ev.n, bool)
    for r in rows:
        every |= desc[r]
    mon.same(tr.data, every, "hierarchy as a whole")
    if deep and rng.random() < 0.5:
        # descendants given by the caller: partons whose particles all come
        # from their own nested partons keep an (empty) latent mask
        own = {names[r]: desc[r] for r in rows}
        for r in sorted(rows, key=lambda r: int(desc[r].sum())):
            below = [own[names[c]] | (np.arange(ev.n) == c) for c in rows if parent[c] == r]
            if below and rng.random() < 0.7:
                own[names[r]] = np.logical_or.reduce(below)
        given = gcl.MaskGroup({nm: gcl.MaskArray(m.copy()) for nm, m in own.items()}, "or")
        alt = mon.call("hierarchy", gcl.select.hierarchy, g, given)
        judge_tree(mon, alt, tree(rows, {r: own[names[r]] for r in rows}, parent, names))
        mon.obs("given-descendants")
    if deep:
        mon.obs("nested")
        if any(parent[r] is None and not isinstance(want[names[r]], dict) for r in rows):
            mon.obs("prompt-beside-decay")
    else:
        mon.obs("flat")
    if deep >= 2:
        mon.obs("depth>=2")
    leaves = mon.call("leaf_masks", gcl.select.leaf_masks, tr)
    inner = [r for r in rows if not any(parent[c] == r for c in rows)]
    mon.check(sorted(leaves.keys()) == sorted(names[r] for r in inner), "leaves of the hierarchy", got=list(leaves.keys()))
    for r in inner:
        mon.same(leaves[names[r]].data, desc[r], "mask of a leaf")
    mon.state("tree", repr({k: sorted(v) if isinstance(v, dict) else None for k, v in want.items()}))
    mon.sig(ev.edges, ev.pdg, ev.status, nontrivial=bool(rows))
    mon.sample(f"{ev.template} event of {ev.n} particles: {[names[r] for r in rows]}, depth {deep}")


def g_target(mon, rng, i):
    import graphicle as gcl

    table = event.name_table()
    ev = make(mon, rng, i)
    g = ev.graph()
    rows, desc, parent, names = expected(ev, table)
    codes = [int(ev.pdg[r]) for r in rows]
    for _ in range(4):
        k = int(rng.integers(1, 4))
        pool = codes + [-c for c in codes] + [999, -15, 15, 21, 6, 5]
        target = [int(c) for c in rng.choice(pool, k)]
        sign = bool(rng.random() < 0.5)
        strict = bool(rng.random() < 0.5)
        have = set(codes) if sign else {abs(c) for c in codes}
        want_codes = set(target) if sign else {abs(c) for c in target}
        keep = [r for r in rows if (int(ev.pdg[r]) if sign else abs(int(ev.pdg[r]))) in want_codes]
        form = [list, tuple, set, iter, np.array][rng.integers(5)](target)
        kw = dict(target=form, sign_sensitive=sign, strict=strict)
        if not sign and rng.random() < 0.5:
            kw.pop("sign_sensitive")  # the default
        if not strict or rng.random() < 0.5:
            pass
        else:
            kw.pop("strict")
        if not keep or (strict and want_codes - have):
            mon.raises("hard_descendants", gcl.select.hard_descendants, g, types=(ValueError,), **kw)
            mon.obs("rejected")
            continue
        got = mon.call("hard_descendants", gcl.select.hard_descendants, g, **kw)
        want = ev.hard_names(keep, table)
        mon.check(list(got.keys()) == want, "names of the targeted partons", got=list(got.keys()), want=want, target=target, sign=sign)
        for nm, r in zip(want, keep):
            mon.same(got[nm].data, desc[r], f"descendants of targeted {nm}", target=target, sign=sign)
        mon.obs("targets")
    mon.sig("t", ev.edges, ev.pdg, ev.status)
    mon.sample(f"{ev.template} event, last target {target} sign={sign} strict={strict}")


GROUPS = [("hierarchy", g_hierarchy, 170), ("target", g_target, 120)]
