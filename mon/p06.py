"""P06 kinematic definitions."""
import numpy as np

from . import core, gens, kin, spec

RULE = (
    "a case is one set of momenta whose eleven derived quantities are compared "
    "with extended-precision definitions; non-trivial when it has particles; "
    "distinct by components"
)
ASSUMPTIONS = [
    "tolerances follow the condition number of each definition for the given components (a few ulp of angles and rapidities, eps*E^2 for squared masses)",
    "rapidity is judged where E-|z| exceeds ten times the documented 1e-10 GeV zero tolerance, or vanishes exactly",
    "eta is judged in all directions, exactly longitudinal ones included; momenta longitudinal to one part in 10^10 may count as exactly so; it is undefined for particles at rest",
]
REQUIRED = {"kinematics-rows": 5000, "kind:beam": 5, "kind:rest": 5, "kind:forward": 5, "kind:remnant": 5, "eta>17": 20, "kind:branch": 5,
            "kind:spacelike": 10, "warned": 20, "not-warned": 50, "extreme-scale": 50, "negative-mass": 20, "negative-mt": 3, "large": 12}


def view(rng, rows):
    """A container holding ``rows``, possibly as a view of a larger one."""
    import graphicle as gcl

    n = len(rows)
    r = int(rng.integers(5))
    if r == 0 and n:
        big = np.zeros((2 * n, 4))
        big[::2] = rows
        return gcl.MomentumArray(big)[::2]
    if r == 1:
        return gcl.MomentumArray(rows[::-1].copy())[::-1]
    if r == 2:
        pad = np.concatenate([rows, np.ones((3, 4))])
        return gcl.MomentumArray(pad)[np.arange(n + 3) < n]
    if r == 3:
        return gcl.MomentumArray(spec.layout(rng, spec.specs()["pmu"], rows)[0])
    return gcl.MomentumArray(rows.copy())


def g_sets(mon, rng, i):
    n = gens.size(rng, big=True)
    kinds = gens.MOM_KINDS + gens.BEAM_KINDS + ("spacelike", "signs", "remnant", "tiny")
    kd = kinds[i % len(kinds)]
    if kd == "spacelike":
        rows = gens.momenta(rng, n, "mixed")
        p = np.sqrt((rows[:, :3] ** 2).sum(1))
        pick = rng.random(n) < 0.7
        # keep E >= |z| so rapidities stay defined
        frac = rng.random(n) * 10.0 ** rng.uniform(-8, 0, n)
        e = np.sqrt(rows[:, 2] ** 2 + (1 - frac) * (p**2 - rows[:, 2] ** 2))
        rows[pick, 3] = e[pick]
        # or even less than the longitudinal momentum
        deep = pick & (rng.random(n) < 0.3)
        rows[deep, 3] = (np.abs(rows[:, 2]) * rng.random(n))[deep]
        mon.obs("negative-mt", int(((rows[:, 3] < 0.99 * np.abs(rows[:, 2])) & deep).sum()))
    elif kd == "tiny":
        # far below a GeV
        rows = gens.momenta(rng, n, "collider") * 10.0 ** rng.uniform(-14, -2, (n, 1))
        rows[:, :2] *= (10.0 ** rng.choice([0.0, -4.0, -8.0], n))[:, None]
        m = rng.choice([0.0, 1.0], n) * np.abs(rows[:, 2])
        rows[:, 3] = np.sqrt((rows[:, :3] ** 2).sum(1) + m * m)
    elif kd == "remnant":
        # all but longitudinal
        rows = gens.momenta(rng, n, "collider")
        rows[:, :2] *= (10.0 ** rng.uniform(-12, 0, n))[:, None]
        rows[:, 2] = rng.choice([-1.0, 1.0], n) * 10.0 ** rng.uniform(0, 3.9, n)
        m = rng.choice([0.0, 0.938, 20.0], n)
        rows[:, 3] = np.sqrt((rows[:, :3] ** 2).sum(1) + m * m)
    elif kd == "signs":
        rows = gens.momenta(rng, n, "collider")
        rows[:, :3] *= rng.choice([-1.0, 1.0], (n, 3))
        rows[:, :2] = np.where(rng.random((n, 2)) < 0.25, np.copysign(0.0, rows[:, :2]), rows[:, :2])
        rows[:, 2] = np.where(rng.random(n) < 0.2, rng.choice([0.0, -0.0], n), rows[:, 2])
        rows[:, 3] = np.sqrt((rows[:, :3] ** 2).sum(1) + rng.choice([0.0, 1.0], n))
        rows[:, 3] = np.where(rows[:, 3] == 0, 1.0, rows[:, 3])
    else:
        rows = gens.momenta(rng, n, kd)
    mon.obs("kind:" + kd)
    mon.sig(rows, nontrivial=n > 0)
    mon.sample(f"{n} momenta, {kd}")
    p = view(rng, rows)
    names = ["pt", "eta", "rapidity", "phi", "theta", "mass", "mass_t"]
    rng.shuffle(names)
    s = core.snap(p)
    for nm in names:  # any order of first reads
        mon.call(nm, lambda: getattr(p, nm), pure=False)
    with core.quiet():
        k = kin.compare(mon, p, rows, kd)
    mon.check(core.snap(p) == s, "reading derived quantities changed the momenta")
    mon.obs("negative-mass", int((k.m2 < -k.m2_tol()).sum()))
    mon.obs("infinite-eta", int(np.isinf(np.asarray(k.eta, float)).sum()))
    mon.obs("eta>17", int((np.isfinite(k.eta) & (np.abs(k.eta) > 17)).sum()))
    mon.obs("infinite-rapidity", int(np.isinf(np.asarray(k.rap, float)).sum()))
    # sign flips of the input flip what they should
    if n:
        q = rows.copy()
        q[:, 2] *= -1
        with core.quiet():
            kin.compare(mon, view(rng, q), q, kd + " mirrored")


def g_large(mon, rng, i):
    """Thousands of particles, plain arithmetic."""
    n = int(10 ** rng.uniform(2.6, 4.3))
    kd = ("collider", "heavy", "jets", "mixed")[i % 4]
    rows = gens.momenta(rng, n, kd)
    with core.quiet():
        kin.compare(mon, view(rng, rows), rows, f"large {kd}")
    mon.obs("large")
    mon.sig(rows)
    mon.sample(f"{n} momenta, {kd}")


def g_warning(mon, rng, i):
    import graphicle as gcl

    n = int(rng.integers(1, 12))
    rows = gens.momenta(rng, n, "mixed")
    mag = np.hypot(rows[:, 0], rows[:, 1])
    want = np.zeros(n, bool)
    if i % 3:
        want = rng.random(n) < 0.5
    new = np.where(want, rng.choice([0.0, 1e-12, 3e-11], n), rng.choice([1.0, 1e-8, 1e-3], n))
    new = np.where(~want & (rng.random(n) < 0.5), mag, new)
    ang = rng.uniform(-np.pi, np.pi, n)
    rows[:, 0], rows[:, 1] = new * np.cos(ang), new * np.sin(ang)
    rows[:, 3] = np.sqrt((rows[:, :3] ** 2).sum(1) + 0.5)
    p = gcl.MomentumArray(rows)
    phi, cats = mon.warned("phi", lambda: p.phi)
    mine = [c for c in cats if issubclass(c, gcl.base.NumericalStabilityWarning)]
    mon.same(np.isnan(phi), want, "azimuths reported as undefined")
    mon.check(bool(mine) is bool(want.any()), "numerical stability warning", cats=cats, want=want)
    mon.check(len(cats) == len(mine), "unexpected warnings", cats=cats)
    mon.obs("warned" if want.any() else "not-warned")
    for nm in ("eta", "pt", "theta", "mass", "mass_t", "rapidity"):
        _, c = mon.warned(nm, lambda: getattr(p, nm))
        mon.check(not c, f"{nm} warned", cats=c)
    mon.sig("warn", rows)
    mon.sample(f"pt {new}")


def g_scaling(mon, rng, i):
    """Angles and rapidities are scale-free, masses scale."""
    import graphicle as gcl

    n = int(rng.integers(1, 15))
    rows = gens.momenta(rng, n, ("collider", "heavy", "jets", "hard")[i % 4])
    s = 2.0 ** int(rng.integers(-6, 12))
    a, b = gcl.MomentumArray(rows), gcl.MomentumArray(rows * s)
    for nm in ("eta", "phi", "theta"):
        mon.close(getattr(b, nm), getattr(a, nm), f"{nm} under a change of scale", rtol=1e-12, atol=1e-12)
    k = kin.Kin(rows)
    mon.close(b.rapidity, a.rapidity, "rapidity under a change of scale", rtol=0, atol=2 * k.rap_tol())
    for nm in ("pt", "energy"):
        mon.close(getattr(b, nm), getattr(a, nm) * s, f"{nm} under a change of scale", rtol=1e-12)
    for nm in ("mass", "mass_t"):
        mon.close(kin.sqsigned(getattr(b, nm)), kin.sqsigned(getattr(a, nm)) * s * s, f"{nm} under a change of scale", rtol=1e-11, atol=k.m2_tol() * s * s)
    # far outside of any physical range
    t = 2.0 ** float(rng.choice([-560, -520, -300, -100, 100, 300, 480, 500]))
    c = gcl.MomentumArray(rows * t)
    for nm in ("pt", "energy", "mass", "mass_t"):
        mon.close(getattr(c, nm) / t, getattr(a, nm), f"{nm} at an extreme scale", rtol=1e-12)
    for nm in ("eta", "theta"):
        mon.close(getattr(c, nm), getattr(a, nm), f"{nm} at an extreme scale", rtol=1e-12, atol=1e-12)
    if t > 1:
        mon.close(c.phi, a.phi, "phi at an extreme scale", rtol=1e-12, atol=1e-12)
        mon.close(c.rapidity, a.rapidity, "rapidity at an extreme scale", rtol=0, atol=2 * k.rap_tol())
    mon.obs("extreme-scale")
    mon.sig("scale", rows, s)


GROUPS = [("sets", g_sets, 600), ("large", g_large, 16), ("warning", g_warning, 200), ("scaling", g_scaling, 120)]
