"""P22 parton-cluster tagging."""
import numpy as np

from . import core, event, gens, kin, p09

LD = np.longdouble
RULE = (
    "a case is one assignment problem whose total cost is compared with the optimum over all assignments (dynamic "
    "programme over candidate subsets), or one tagged event; non-trivial when at least two references compete; "
    "distinct by momenta and options"
)
ASSUMPTIONS = [
    "cost of a pair: 1-exp(-dR^2/(2 var dR)) + 1-exp(-dpT^2/(2 var pT)), dR in true rapidity and azimuth, var dR over "
    "the candidates of one reference, var pT over all candidates",
    "a returned assignment may exceed the optimum by the rounding bound computed with it; problems with a bound above "
    "1e-6 are judged for distinctness only",
    "momenta exactly along the beam and fewer candidates than references are not used",
]
REQUIRED = {"assignments": 200, "greedy-differs": 20, "threads>1": 50, "tags": 80, "tag-names": 150,
            "numbered-names": 20, "filtered-out": 30, "rejected": 60, "no-match": 3, "single-tag": 5, "many-spare": 10, "judged-optimal": 150, "many-references": 6}


def costs(focus, cand):
    """(matrix, rounding bound)"""
    d, tol, vague, _ = p09.expected(focus, cand, False)
    d = np.asarray(d, LD)
    pf, pc = kin.Kin(focus).pt, kin.Kin(cand).pt
    m = len(cand)
    var_p = ((pc - pc.mean()) ** 2).mean()
    var_d = ((d - d.mean(axis=1, keepdims=True)) ** 2).mean(axis=1)
    dp = pf[:, None] - pc[None, :]
    scale_p = (pc**2).mean()
    scale_d = (d**2).mean(axis=1)
    eps = LD(1e-14) * m
    with np.errstate(all="ignore"):
        same_p = var_p <= 1e-24 * scale_p
        same_d = var_d <= 1e-24 * scale_d
        xp = LD(0) * dp if same_p else dp**2 / (2 * var_p)
        xd = np.where(same_d[:, None], 0, d**2 / (2 * np.where(same_d, 1, var_d))[:, None])
        c = -np.expm1(-xd) - np.expm1(-xp)
        # relative rounding error of the two exponents
        ep = eps if same_p else eps * (1 + np.sqrt(scale_p / var_p)) + eps * np.abs(pc).max() / np.maximum(np.abs(dp), 1e-300)
        mean_tol = tol.max(axis=1)
        sd = np.sqrt(np.where(same_d, 1, var_d))
        ed = eps * (1 + np.sqrt(scale_d) / sd)[:, None] + (2 * mean_tol / sd)[:, None] + 2 * tol / np.maximum(d, 1e-300)
        bound = np.exp(-xp) * xp * np.minimum(ep, 1e3) + np.exp(-xd) * xd * np.minimum(ed, 1e3) + 1e-14
    amb = bool(vague.any()) or (bool(same_p) and m > 1 and bool((pc != pc[0]).any())) or bool((same_d & (m > 1) & ~np.all(d == d[:, :1], axis=1)).any())
    if m == 1:
        amb = False
    b = float(np.max(bound)) * len(focus) * 4
    return np.asarray(c, float), (np.inf if amb or not np.isfinite(b) else b)


def optimum(c):
    """minimum total over injective assignments, by subset dynamic programme."""
    n, m = c.shape
    if m > 9:  # beyond the dynamic programme's reach
        import scipy.optimize

        return float(c[scipy.optimize.linear_sum_assignment(c)].sum())
    best = {0: 0.0}
    for i in range(n):
        nxt = {}
        for used, v in best.items():
            for j in range(m):
                if not used >> j & 1:
                    w = v + c[i, j]
                    u = used | 1 << j
                    if w < nxt.get(u, np.inf):
                        nxt[u] = w
        best = nxt
    return min(best.values())


def judge(mon, focus, cand, idxs):
    n, m = len(focus), len(cand)
    mon.check(isinstance(idxs, list) and len(idxs) == n, "one index per reference", got=idxs)
    mon.check(all(isinstance(j, int) and 0 <= j < m for j in idxs), "indices in range", got=idxs)
    mon.check(len(set(idxs)) == n, "candidates assigned twice", got=idxs)
    c, bound = costs(focus, cand)
    mon.obs("assignments")
    if not bound < 1e-6:
        mon.obs("ill-conditioned")
        return None
    total = float(sum(c[i, j] for i, j in enumerate(idxs)))
    best = optimum(c)
    mon.check(total <= best + bound, "assignment is not optimal", total=total, best=best, bound=bound, idxs=idxs)
    mon.obs("judged-optimal")
    mon.obs("greedy-differs", int(c.argmin(axis=1).tolist() != list(idxs)))
    return c


KINDS = ("collider", "massless", "heavy", "branch", "jets", "hard", "soft", "nonrel")


def g_assign(mon, rng, i):
    import graphicle as gcl

    m = int(rng.choice([1, 2, 3, 4, 6, 9]))
    n = int(rng.integers(1, min(m, 6) + 1))
    if rng.random() < 0.12:
        m = int(rng.integers(10, 60))
        n = int(rng.integers(5, m + 1))
        mon.obs("many-references", int(n > 10))
    cand = gens.momenta(rng, m, KINDS[rng.integers(len(KINDS))])
    r = rng.random()
    if r < 0.4:
        focus = gens.momenta(rng, n, KINDS[rng.integers(len(KINDS))])
    elif r < 0.8:  # competing references: smeared copies of few candidates
        base = cand[rng.integers(0, max(1, m // 2), n)]
        focus = base * rng.uniform(0.7, 1.3, (n, 1))
        focus[:, :3] *= rng.uniform(0.8, 1.2, (n, 3))
        focus[:, 3] = np.sqrt((focus[:, :3] ** 2).sum(axis=1) + rng.uniform(0, 25, n))
    else:
        focus = cand[rng.permutation(m)[:n]].copy()
    if rng.random() < 0.15 and m > 1:
        cand[rng.integers(m)] = cand[rng.integers(m)]
    fs, _ = gens.layout_2d(rng, focus, list("xyze"), "<f8", alt=gens.PMU_ALT)
    cs, _ = gens.layout_2d(rng, cand, list("xyze"), "<f8", alt=gens.PMU_ALT)
    pf, pc = gcl.MomentumArray(fs), gcl.MomentumArray(cs)
    t = int(rng.choice([1, 1, 2, 3, 8]))
    kw = {} if t == 1 and rng.random() < 0.5 else dict(num_threads=t)
    mon.obs("threads>1", int(t > 1))
    got = mon.call("arg_closest", gcl.select.arg_closest, pf, pc, **kw)
    c = judge(mon, focus, cand, got)
    again = mon.call("arg_closest", gcl.select.arg_closest, pf, pc, num_threads=core.threads(rng))
    if c is None:
        mon.check(len(set(again)) == n, "candidates assigned twice", got=again)
    else:
        judge(mon, focus, cand, again)
        mon.check(got == again, "assignment depends on thread count or repetition", got=got, again=again)
    mon.same(pf.data, gcl.MomentumArray(focus).data, "references after matching")
    mon.same(pc.data, gcl.MomentumArray(cand).data, "candidates after matching")
    mon.sig(focus, cand, nontrivial=n > 1)
    mon.sample(dict(n=n, m=m, got=got))


def g_tag(mon, rng, i):
    import graphicle as gcl

    ev = event.Event(rng)
    names = event.name_table()
    g = ev.graph()
    parts = g.particles
    pdg, status, final = (np.asarray(a) for a in (ev.pdg, ev.status, ev.final))
    cut = rng.random() < 0.5
    keep = np.flatnonzero(final)
    if cut:  # only some of them were clustered
        keep = keep[rng.random(len(keep)) < 0.8]
    pool = np.asarray(ev.pmu)[keep]
    smeared = rng.random() < 0.35
    if smeared:  # as many as the final particles, but not theirs
        cut, pool = True, np.asarray(ev.pmu)[np.flatnonzero(final)]
        pool = pool[rng.permutation(len(pool))] * 10.0 ** rng.normal(0, 0.3, (len(pool), 1))
        mon.obs("smeared")
    inter, outg = [(False, True), (True, False), (True, True)][rng.integers(3)]
    kw = dict(intermediate=inter, outgoing=outg)
    if (inter, outg) == (False, True) and rng.random() < 0.5:
        kw = {}
    stages = ([23] if outg else []) + ([22] if inter else [])
    hard = [r for r in range(len(pdg)) if abs(int(status[r])) in stages]
    signed = bool(rng.integers(2))
    if signed or rng.random() < 0.5:
        kw["sign_sensitive"] = signed
    r = rng.random()
    codes = [int(c) for c in np.unique(pdg[hard])] or [21]
    target = [int(c) * int(rng.choice([-1, 1])) for c in rng.choice(codes, int(rng.integers(1, 3)))]
    target = [target, tuple(target), np.array(target)][rng.integers(3)]

    def hit(row):
        return int(pdg[row]) in list(target) if signed else abs(int(pdg[row])) in [abs(int(t)) for t in target]

    sel = hard
    if r < 0.3:
        kw["blacklist"] = target
        sel = [h for h in hard if not hit(h)]
    elif r < 0.6:
        kw["whitelist"] = target
        sel = [h for h in hard if hit(h)]
    elif r < 0.65:
        kw["blacklist"] = []
    mon.obs("filtered-out", len(hard) - len(sel))
    # clusters: random disjoint groups, or groups around the partons, sometimes overlapping
    k = min(len(sel) + int(rng.integers(0, 4)), 9)
    if rng.random() < 0.3:
        k = min(len(sel) + int(rng.integers(4, 9)), 12)
    mon.obs("many-spare", int(k >= len(sel) + 4 > 4))
    k = max(k, 1)
    if len(pool) < 2 * k or len(sel) > 9:
        mon.obs("too-small")
        return
    if rng.random() < 0.5 and sel:
        tgt = np.asarray(ev.pmu)[sel]
        cos = (pool[:, :3] / np.linalg.norm(pool[:, :3], axis=1)[:, None]) @ (tgt[:, :3] / np.linalg.norm(tgt[:, :3], axis=1)[:, None]).T
        lab = cos.argmax(axis=1)
        spare = rng.integers(0, k, len(pool))
        lab = np.where(rng.random(len(pool)) < 0.2, spare, lab)
    else:
        lab = rng.integers(0, k, len(pool))
    order = rng.permutation(k)
    masks = [lab == order[j] for j in range(k)]
    for j, m in enumerate(masks):
        if not m.any():
            m[rng.integers(len(m))] = True
    if len({m.tobytes() for m in masks}) < k:
        mon.obs("too-small")
        return
    cl = [gcl.MaskArray(m) for m in masks]
    form = [cl, tuple(cl)][rng.integers(2)]
    if cut:
        kw["clustered_pmu"] = gcl.MomentumArray(pool)
    elif rng.random() < 0.2:
        kw["clustered_pmu"] = gcl.MomentumArray(pool)
    if not sel:
        if hard and ("blacklist" in kw or "whitelist" in kw):
            mon.raises("monte_carlo_tag no match", gcl.select.monte_carlo_tag, parts, form, types=(IndexError,), **kw)
            mon.obs("no-match")
        return
    got = mon.call("monte_carlo_tag", gcl.select.monte_carlo_tag, parts, form, **kw)
    mon.check(isinstance(got, gcl.MaskGroup), "tags are a mask group")
    want = ev.hard_names(sel, names)
    mon.check(list(got.keys()) == list(want), "tagged partons", got=list(got.keys()), want=want, kw=kw)
    mon.obs("tag-names", len(want))
    mon.obs("numbered-names", sum(":" in w for w in want))
    mon.obs("single-tag", int(len(want) == 1))
    idxs = []
    for name in want:
        data = np.asarray(got[name].data)
        which = [j for j, m in enumerate(masks) if data.shape == m.shape and (data == m).all()]
        mon.check(len(which) == 1, "tag is not one of the clusters", name=name)
        idxs.append(which[0])
    sums = np.array([[float(v) for v in pool[m].astype(LD).sum(axis=0)] for m in masks])
    judge(mon, np.asarray(ev.pmu)[sel], sums, idxs)
    union = np.zeros(len(pool), bool)
    for j in idxs:
        union |= masks[j]
    mon.same(np.asarray(got.data), union, "tags combine by union")
    mon.obs("tags")
    mon.sig(pool, sel, [m.tobytes() for m in masks], nontrivial=len(sel) > 1)
    # rejected requests
    f = gcl.select.monte_carlo_tag

    def rej(*a, types=(ValueError,), **k2):
        mon.raises("monte_carlo_tag", f, *a, types=types, **k2)
        mon.obs("rejected")

    base = {k_: v for k_, v in kw.items() if k_ not in ("blacklist", "whitelist", "intermediate", "outgoing")}
    rej(parts, [], **kw)
    rej(parts, form, **{**base, "intermediate": False, "outgoing": False})
    rej(parts, form, **{**base, "blacklist": [5], "whitelist": [24]})
    rej(parts, form, **{**base, "blacklist": [5], "whitelist": []})
    if len(sel) > 1:
        rej(parts, form[: len(sel) - 1], **kw)
    short = [gcl.MaskArray(m[:-1]) for m in masks]
    rej(parts, short, **kw)
    rej(parts, [gcl.MaskArray(np.append(m, False)) for m in masks], **kw)
    rej(parts, form, types=(IndexError,), **{**base, "whitelist": [9999]})
    rej(parts, form, types=(IndexError,), **{**base, "whitelist": []})


GROUPS = [("assign", g_assign, 260), ("tag", g_tag, 200)]
