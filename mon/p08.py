"""P08 boosts and rotations."""
import numpy as np

from . import core, gens, kin

LD = np.longdouble
EPS = kin.EPS
RULE = (
    "a case is one momentum set with one or more shifts compared with an "
    "extended-precision Lorentz boost or rotation; non-trivial with at least one "
    "particle and a non-zero shift; distinct by momenta and shifts"
)
ASSUMPTIONS = [
    "tolerances are backward-error bounds of a double precision boost",
    "a pseudorapidity shift must converge without warning for resultants with pt/mT > 0.02, |eta| < 3 and target below 4.5",
]
REQUIRED = {"rapidity:scalar": 50, "rapidity:array": 50, "phi:scalar": 50, "phi:array": 50, "compose": 50, "rapidity:large": 15,
            "eta:boost": 100, "eta:experimental": 50, "eta:warned": 5, "eta:converged": 80, "large": 12, "misfits": 80}
KNOWN_EW = "element-wise shift_eta (documented: 'If ndarray, change will be element-wise') raises TypeError unless experimental"


def table(p):
    d = np.array(p.data)
    return np.column_stack([d[c] for c in "xyze"]).reshape(-1, 4)


def boost(rows, s):
    a = np.asarray(rows, LD)
    s = np.asarray(s, LD)
    z = a[:, 2] * np.cosh(s) + a[:, 3] * np.sinh(s)
    e = a[:, 3] * np.cosh(s) + a[:, 2] * np.sinh(s)
    return z, e


def boosted(mon, q, rows, s, what, slack=1.0):
    """``q`` holds ``rows`` boosted by rapidity ``s``."""
    t = table(q)
    mon.check(t.shape == rows.shape, what + ": number of particles")
    mon.close(t[:, 0], rows[:, 0], what + ": x", rtol=1e-12)
    mon.close(t[:, 1], rows[:, 1], what + ": y", rtol=1e-12)
    z, e = boost(rows, s)
    k = kin.Kin(rows)
    tol = np.asarray(64 * EPS * np.cosh(np.asarray(s, LD)) * (k.e + np.abs(k.z)), float) * slack
    rt = np.where(np.asarray(k.pt > 0), k.shifted_tol("rap"), 1e-12)
    tol = tol + np.minimum(rt, 1e-4) * np.asarray(np.abs(e), float)
    mon.close(t[:, 2], z, what + ": z", rtol=0, atol=tol)
    mon.close(t[:, 3], e, what + ": e", rtol=0, atol=tol)
    # invariants, read from the library
    k2 = kin.Kin(t)
    with np.errstate(all="ignore"):
        m2tol = 4 * tol * np.asarray(k2.e + np.abs(k2.z), float) + k.m2_tol() + k2.m2_tol()
    mon.close(k2.m2, k.m2, what + ": squared mass", rtol=1e-11, atol=m2tol)
    with core.quiet():
        mon.close(q.pt, k.pt, what + ": pt", rtol=1e-11)
        ok = np.asarray((k.diff > 1e-7) & (k2.diff > 1e-7))
        want = (k.rap + np.asarray(s, LD))[ok] if np.ndim(s) == 0 else k.rap[ok] + np.asarray(s, LD)[ok]
        with np.errstate(all="ignore"):
            rtol_y = np.asarray(4 * tol[ok] / k2.diff[ok], float) + k.shifted_tol("rap")[ok] + k2.shifted_tol("rap")[ok]
        mon.close(q.rapidity[ok], want, what + ": rapidity", rtol=0, atol=rtol_y)
    mon.obs("boosted-rows", len(rows))


def a_shift(rng, n, big=3.0):
    r = int(rng.integers(5))
    if r == 0:
        return float(rng.uniform(-big, big)), "scalar"
    if r == 1:
        return np.float64(rng.uniform(-big, big)), "scalar"
    if r == 2:
        return int(rng.integers(-3, 4)), "scalar"
    return rng.uniform(-big, big, n), "array"


def g_rapidity(mon, rng, i):
    import graphicle as gcl

    n = gens.size(rng)
    kd = gens.kind(rng)
    rows = gens.momenta(rng, n, kd)
    p = gcl.MomentumArray(rows.copy())
    if rng.random() < 0.5:
        with core.quiet():
            _ = (p.eta, p.rapidity, p.mass, p.phi, p.pt)
    s, lab = a_shift(rng, n, float(rng.choice([1e-9, 0.1, 3.0, 3.0, 8.0, 20.0, 40.0])))
    if n and np.max(np.abs(s)) > 8:
        mon.obs("rapidity:large")
    mon.obs("rapidity:" + lab)
    q = mon.call("shift_rapidity", p.shift_rapidity, s)
    mon.check(isinstance(q, gcl.MomentumArray) and q is not p, "shift_rapidity returns a new container")
    mon.check(not np.shares_memory(q.data, p.data), "shift_rapidity result shares memory")
    mon.same(table(p), rows, "source after shift_rapidity")
    boosted(mon, q, rows, s, "shift_rapidity")
    if n and np.max(np.abs(s)) > 8:  # no digits of the mass are left to undo it
        mon.sig(rows, s)
        return
    t, lab2 = a_shift(rng, n, 2.0)
    q2 = mon.call("shift_rapidity", q.shift_rapidity, t)
    boosted(mon, q2, rows, np.asarray(s, float) + np.asarray(t, float), "two rapidity shifts", slack=8 * float(np.cosh(np.max(np.abs(t), initial=0.0))) * float(np.cosh(np.max(np.abs(s), initial=0.0))))
    back = mon.call("shift_rapidity", q.shift_rapidity, -s if not isinstance(s, np.ndarray) else -s)
    boosted(mon, back, rows, 0.0, "shift and its inverse", slack=8 * float(np.cosh(np.max(np.abs(s), initial=0.0))) ** 2)
    mon.obs("compose")
    mon.sig(rows, s, t, nontrivial=n > 0)
    mon.sample(f"{n} {kd} momenta, shift {core.short(s, 80)}")


def rotated(mon, q, rows, s, what):
    t = table(q)
    s = np.asarray(s, LD)
    x, y = np.asarray(rows[:, 0], LD), np.asarray(rows[:, 1], LD)
    tol = np.asarray(32 * EPS * np.hypot(x, y) * (1 + np.abs(s)), float)
    mon.close(t[:, 0], x * np.cos(s) - y * np.sin(s), what + ": x", rtol=0, atol=tol)
    mon.close(t[:, 1], x * np.sin(s) + y * np.cos(s), what + ": y", rtol=0, atol=tol)
    mon.same(t[:, 2:], rows[:, 2:], what + ": z and e")
    k = kin.Kin(rows)
    ok = np.asarray(k.pt > 1e-6)
    with core.quiet():
        d = kin.wrap(np.asarray(q.phi, LD)[ok] - (k.phi + s)[ok])
        mon.close(d, np.zeros(ok.sum()), what + ": phi", rtol=0, atol=1e-12 * (1 + float(np.max(np.abs(s), initial=0))))
        for nm in ("pt", "theta"):
            mon.close(getattr(q, nm), getattr(k, nm), f"{what}: {nm}", rtol=1e-11, atol=1e-12)
        mon.close(kin.sqsigned(q.mass), k.m2, what + ": squared mass", rtol=1e-11, atol=2 * k.m2_tol())


def g_phi(mon, rng, i):
    import graphicle as gcl

    n = gens.size(rng)
    rows = gens.momenta(rng, n, gens.kind(rng))
    p = gcl.MomentumArray(rows.copy())
    if rng.random() < 0.5:
        with core.quiet():
            _ = (p.eta, p.phi, p.pt)
    s, lab = a_shift(rng, n, float(rng.choice([1e-9, 0.1, 3.2, 20.0, 1e3])))
    if rng.random() < 0.2:
        s, lab = float(rng.choice([np.pi, -np.pi, np.pi / 2, 2 * np.pi])), "scalar"
    mon.obs("phi:" + lab)
    q = mon.call("shift_phi", p.shift_phi, s)
    mon.check(not np.shares_memory(q.data, p.data), "shift_phi result shares memory")
    mon.same(table(p), rows, "source after shift_phi")
    rotated(mon, q, rows, s, "shift_phi")
    t, _ = a_shift(rng, n)
    rotated(mon, mon.call("shift_phi", q.shift_phi, t), rows, np.asarray(s, float) + np.asarray(t, float), "two azimuth shifts")
    rotated(mon, mon.call("shift_phi", q.shift_phi, -s), rows, 0.0, "azimuth shift and its inverse")
    mon.obs("compose")
    mon.sig("phi", rows, s, nontrivial=n > 0)
    mon.sample(f"{n} momenta, azimuth shift {core.short(s, 80)}")


def g_eta(mon, rng, i):
    import graphicle as gcl

    n = int(rng.integers(1, 25))
    kd = gens.MOM_KINDS[i % len(gens.MOM_KINDS)]
    rows = gens.momenta(rng, n, kd)
    p = gcl.MomentumArray(rows.copy())
    k = kin.Kin(rows)
    s = [float(rng.uniform(-2, 2)), float(rng.uniform(-6, 6)), np.float64(rng.uniform(-1, 1)), int(rng.integers(-2, 3)), 0.0][rng.integers(5)]
    kw = {}
    if rng.random() < 0.25:
        kw["max_corrections"] = int(rng.choice([0, 1, 2, 5]))
    if rng.random() < 0.25:
        kw["abs_tol"] = float(rng.choice([1e-6, 1e-8]))
    q, cats = mon.warned("shift_eta", lambda: p.shift_eta(s, **kw))
    warned = any(issubclass(c, gcl.base.NumericalStabilityWarning) for c in cats)
    mon.same(table(p), rows, "source after shift_eta")
    mon.check(isinstance(q, gcl.MomentumArray) and not np.shares_memory(q.data, p.data), "shift_eta returns a new container")
    mon.obs("eta:boost")
    sums = kin.Kin(np.asarray(rows, LD).sum(0))
    t = table(q)
    sums2 = kin.Kin(np.asarray(t, LD).sum(0))
    eta0, eta1 = float(sums.eta[0]), float(sums2.eta[0])
    good = float(sums.pt[0] / sums.mt[0]) > 0.02 and abs(eta0) < 3 and abs(eta0 + s) < 4.5
    enough = kw.get("max_corrections", 10) >= 5
    if good and enough:
        mon.check(not warned, "shift_eta did not converge on a well-conditioned set", rows=rows, shift=s)
    tol = kw.get("abs_tol", 1e-10)
    if not warned:
        mon.obs("eta:converged")
        slack = float(sums.shifted_tol("eta")[0] + sums2.shifted_tol("eta")[0]) * 16
        mon.close(eta1, eta0 + s, "pseudorapidity of the shifted resultant", rtol=0, atol=2 * tol + slack, rows=rows, shift=s)
    else:
        mon.obs("eta:warned")
    if warned and kw.get("max_corrections") == 0:
        mon.same(t, rows, "no corrections allowed, yet the momenta moved")
    # one common longitudinal boost, whatever it was
    rap = float(sums2.rap[0] - sums.rap[0])
    if np.isfinite(rap) and good:
        mon.obs("eta:common-boost")
        boosted(mon, q, rows, rap, "shift_eta as one common boost", slack=256 * np.cosh(abs(s) + 4) ** 2)
    mon.sig("eta", rows, s, kw, nontrivial=s != 0)
    mon.sample(f"{n} {kd} momenta, eta shift {s} {kw}")


def g_experimental(mon, rng, i):
    import graphicle as gcl

    n = gens.size(rng)
    rows = gens.momenta(rng, n, gens.kind(rng, beam=False))
    if rng.random() < 0.3:  # far forward and backward, short of the beam
        pt = np.hypot(rows[:, 0], rows[:, 1])
        far = rng.random(n) < 0.7
        rows[far, 2] = (pt * 10.0 ** rng.uniform(2, 8, n) * rng.choice([-1, 1], n))[far]
        rows[far, 3] = np.sqrt((rows[far, :3] ** 2).sum(1))
        mon.obs("eta:far-backward", int((rows[:, 2] < -1e5 * pt).sum()))
    p = gcl.MomentumArray(rows.copy())
    s, lab = a_shift(rng, n)
    q = mon.call("shift_eta experimental", p.shift_eta, s, experimental=True)
    mon.obs("eta:experimental")
    t = table(q)
    mon.check(t.shape == rows.shape, "length after an experimental shift")
    mon.same(table(p), rows, "source after an experimental shift")
    mon.close(t[:, 0], rows[:, 0], "experimental shift: x", rtol=1e-12)
    mon.close(t[:, 1], rows[:, 1], "experimental shift: y", rtol=1e-12)
    mon.check(bool(np.all(np.isnan(t[:, 3]))), "energy of an experimental shift is defined", e=t[:, 3])
    k = kin.Kin(rows)
    want = k.eta + np.asarray(s, LD)
    ok = np.asarray(np.abs(want) < 300) & np.asarray(np.abs(k.eta) < 300)
    zt = np.asarray(k.pt * np.cosh(want), float)
    mon.close(t[ok, 2], (k.pt * np.sinh(want))[ok], "experimental shift: z", rtol=0, atol=(2 * k.eta_tol() * zt)[ok])
    with core.quiet():
        kk = kin.Kin(t)
        mon.close(q.eta[ok], want[ok], "experimental shift: eta", rtol=0, atol=(3 * k.eta_tol() + 2 * np.nan_to_num(kk.eta_tol()))[ok])
        mon.close(q.pt, k.pt, "experimental shift: pt", rtol=1e-11)
        mon.close(kin.wrap(np.asarray(q.phi, LD) - k.phi)[np.asarray(k.pt > 1e-6)], np.zeros(int((k.pt > 1e-6).sum())), "experimental shift: phi", rtol=0, atol=1e-12)
    mon.sig("exp", rows, s, nontrivial=n > 0)
    mon.sample(f"{n} momenta, experimental eta shift {core.short(s, 60)}")


def g_large(mon, rng, i):
    """Thousands of particles, shifted alike and one by one; shifts which fit no particle."""
    import graphicle as gcl

    n = int(10 ** rng.uniform(2.3, 4.2))
    rows = gens.momenta(rng, n, ("collider", "heavy", "jets")[i % 3])
    p = gcl.MomentumArray(rows.copy())
    s = rng.uniform(-2, 2, n) if i % 2 else float(rng.uniform(-2, 2))
    boosted(mon, mon.call("shift_rapidity", p.shift_rapidity, s), rows, s, "shift_rapidity of many")
    rotated(mon, mon.call("shift_phi", p.shift_phi, s), rows, s, "shift_phi of many")
    mon.same(table(p), rows, "source after shifts")
    mon.obs("large")
    few = int(rng.integers(3, 9))
    p = gcl.MomentumArray(rows[:few].copy())
    for m in (2 * few, few - 1, few + 1, 2 if few != 2 else 3, 0):
        bad = rng.uniform(-1, 1, m)
        for nm, f in (("shift_rapidity", p.shift_rapidity), ("shift_phi", p.shift_phi)):
            mon.raises(nm, f, bad, types=(ValueError,))
            mon.obs("misfits")
    mon.sig("large", rows, s)


def g_elementwise(mon, rng, i):
    """Per-particle shift_eta: every particle moves by its own amount."""
    import graphicle as gcl

    n = int(rng.integers(1, 6))
    rows = gens.momenta(rng, n, "collider")
    p = gcl.MomentumArray(rows.copy())
    s = rng.uniform(-1, 1, n)
    try:
        with core.quiet():
            q = p.shift_eta(s)
    except TypeError as exc:
        mon.known("elementwise-eta", KNOWN_EW)
        mon.same(table(p), rows, "source after a failed shift")
        return
    mon.check(len(q) == n, "length after an element-wise shift")
    mon.sig("ew", rows, s)


GROUPS = [("rapidity", g_rapidity, 350), ("phi", g_phi, 300), ("eta", g_eta, 450), ("experimental", g_experimental, 200), ("large", g_large, 16), ("elementwise", g_elementwise, 5, "once")]
