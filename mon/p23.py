"""P23 rotations and momentum splitting."""
import numpy as np

from . import core, gens, kin

LD = np.longdouble
RULE = (
    "a case is one rotation operator checked against an independent rotation of vectors, or one split of a momentum or "
    "of a set; non-trivial when the rotation moves the vector; distinct by angles, axis and momenta"
)
ASSUMPTIONS = [
    "where several particles tie for the highest or lowest transverse momentum, any of them may be chosen",
    "the sense (sign) of the default axis is not prescribed, only that it is normal to the soft-hard plane",
]
REQUIRED = {"rotations": 250, "integer-axis": 40, "other-units": 100, "perpendicular-turns": 500, "compositions": 250, "splits": 150, "set-splits": 150,
            "default-axis": 60, "rejected": 100, "polar-axis": 30, "hardest-last": 10, "hardest-first": 10, "vectorless-moves": 100}


def unit(theta, phi):
    t, p = LD(theta), LD(phi)
    return np.array([np.sin(t) * np.cos(p), np.sin(t) * np.sin(p), np.cos(t)])


def turn(v, axis, angle):
    """rotate v by splitting it into parallel and perpendicular components"""
    v = np.asarray(v, LD)
    par = axis * (v @ axis)
    perp = v - par
    side = np.array([
        axis[1] * v[2] - axis[2] * v[1],
        axis[2] * v[0] - axis[0] * v[2],
        axis[0] * v[1] - axis[1] * v[0],
    ])
    a = LD(angle)
    return par + np.cos(a) * perp + np.sin(a) * side


def draw_axis(mon, rng):
    r = rng.random()
    if r < 0.25:
        th = float(rng.choice([0.0, np.pi, np.pi / 2, 1e-9, np.pi - 1e-9]))
        mon.obs("polar-axis")
    else:
        th = float(np.arccos(rng.uniform(-1, 1)))
    ph = float(rng.choice([rng.uniform(-np.pi, np.pi), np.pi, -np.pi, 0.0, np.pi / 2, rng.uniform(0, 7)]))
    if rng.random() < 0.12:  # whole radians
        th, ph = int(rng.integers(0, 4)), int(rng.integers(-7, 8))
        if rng.random() < 0.3:
            th, ph = np.int64(th), np.int64(ph)
        mon.obs("integer-axis")
    return th, ph


def draw_angle(rng):
    if rng.random() < 0.1:
        return int(rng.integers(-7, 8))
    return float(rng.choice([rng.uniform(-np.pi, np.pi), rng.uniform(-10, 10), 0.0, np.pi, -np.pi / 2, 1e-6, 2 * np.pi]))


def g_rotation(mon, rng, i):
    import graphicle as gcl

    th, ph = draw_axis(mon, rng)
    ang, ang2 = draw_angle(rng), draw_angle(rng)
    axis = gcl.transform.SphericalAngle(th, ph)
    n = unit(th, ph)
    rot = lambda a: mon.call("rotation_matrix", gcl.transform.rotation_matrix, a, axis)
    R = rot(ang)
    mon.check(isinstance(R, np.ndarray) and R.shape == (3, 3) and R.dtype == np.float64, "operator shape")
    tol = 1e-12
    mon.close(R @ R.T, np.eye(3), "operator is orthogonal", rtol=0, atol=tol)
    mon.close(np.linalg.det(R), 1.0, "determinant", rtol=0, atol=tol)
    mon.close(R @ n.astype(float), n.astype(float), "axis is fixed", rtol=0, atol=tol)
    for _ in range(3):
        v = rng.normal(size=3) * 10.0 ** rng.uniform(-3, 3)
        mon.close(R @ v, turn(v, n, ang).astype(float), "turned vector", rtol=0, atol=tol * np.linalg.norm(v))
        p = v - (v @ n.astype(float)) * n.astype(float)
        q = R @ p
        pn = np.linalg.norm(p)
        if pn > 1e-3 * np.linalg.norm(v):
            c = np.cross(p, q) @ n.astype(float) / pn**2
            mon.close([p @ q / pn**2, c], [np.cos(ang), np.sin(ang)], "right-handed turn by the angle", rtol=0, atol=1e-9)
            mon.obs("perpendicular-turns")
    mon.close(R @ rot(ang2), rot(ang + ang2), "composition", rtol=0, atol=tol)
    mon.close(rot(-ang), R.T, "inverse", rtol=0, atol=tol)
    mon.close(rot(0.0), np.eye(3), "identity", rtol=0, atol=0)
    mon.obs("compositions")
    mon.obs("rotations")
    mon.sig(th, ph, ang, nontrivial=abs(np.sin(ang / 2)) > 1e-9)
    mon.sample(dict(theta=th, phi=ph, angle=ang))


def rows_of(pmu):
    return np.stack([np.asarray(pmu.data[c], float) for c in "xyze"], axis=-1).reshape(-1, 4)


def judge_children(mon, kids, parent, z, ang, th, ph):
    n = unit(th, ph)
    parent = np.asarray(parent, LD)
    p = float(np.sqrt((parent[:3] ** 2).sum())) + float(abs(parent[3]))
    want0 = np.append(LD(z) * turn(parent[:3], n, ang), LD(z) * parent[3])
    mon.close(kids[0], want0.astype(float), "first child", rtol=0, atol=1e-12 * p)
    mon.close(kids[0] + kids[1], parent.astype(float), "children sum to the parent", rtol=0, atol=4e-16 * p)
    mon.close(kids[1], (parent - want0).astype(float), "second child", rtol=0, atol=1e-12 * p)
    moved = float(np.abs(want0[:3] - LD(z) * parent[:3]).max()) > 1e-9 * p
    mon.obs("vectorless-moves", int(moved))
    return moved


def draw_z(rng):
    return float(rng.choice([rng.uniform(1e-4, 0.5), 0.5, 1e-6, 0.25]))


def g_split(mon, rng, i):
    import graphicle as gcl

    row = gens.momenta(rng, 1, gens.kind(rng))
    th, ph = draw_axis(mon, rng)
    ang, z = draw_angle(rng), draw_z(rng)
    src, _ = gens.layout_2d(rng, row, list("xyze"), "<f8", alt=gens.PMU_ALT)
    pmu = gcl.MomentumArray(src)
    axis = [(th, ph), gcl.transform.SphericalAngle(th, ph), gcl.transform.SphericalAngle(phi=ph, theta=th)][rng.integers(3)]
    if rng.random() < 0.3:  # derived values already computed must not matter
        pmu.pt, pmu.eta, pmu.mass
    kids = mon.call("split_momentum", gcl.transform.split_momentum, pmu, z, ang, axis)
    mon.check(isinstance(kids, gcl.MomentumArray) and len(kids) == 2, "two children")
    moved = judge_children(mon, rows_of(kids), row[0], z, ang, th, ph)
    mon.same(rows_of(pmu), row, "parent after splitting")
    mon.check(not np.shares_memory(kids.data, pmu.data), "children share the parent's memory")
    many = gcl.MomentumArray(gens.momenta(rng, int(rng.integers(2, 6)), "collider"))
    mon.raises("split_momentum", gcl.transform.split_momentum, many, z, ang, axis, types=(ValueError,))
    mon.obs("rejected")
    mon.obs("splits")
    mon.sig(row, z, ang, th, ph, nontrivial=moved)


def g_set(mon, rng, i):
    import graphicle as gcl

    n = int(rng.choice([1, 2, 3, 5, 12, 60]))
    rows = gens.momenta(rng, n, gens.MOM_KINDS[rng.integers(len(gens.MOM_KINDS))])
    if rng.random() < 0.5:  # another unit of momentum
        rows = rows * 10.0 ** rng.uniform(-10, 6)
        mon.obs("other-units")
    src, _ = gens.layout_2d(rng, rows, list("xyze"), "<f8", alt=gens.PMU_ALT)
    pmu = gcl.MomentumArray(src)
    pt = np.hypot(rows[:, 0], rows[:, 1])
    ang, z = draw_angle(rng), draw_z(rng)
    f = gcl.transform.split_hardest
    default = n > 1 and rng.random() < 0.5
    hards = np.flatnonzero(pt >= pt.max() * (1 - 1e-12))
    softs = np.flatnonzero(pt <= pt.min() * (1 + 1e-12))
    if default:
        axis = mon.call("soft_hard_axis", gcl.transform.soft_hard_axis, pmu)
        mon.check(isinstance(axis, gcl.transform.SphericalAngle), "axis type")
        if len(hards) == 1 and len(softs) == 1 and hards[0] != softs[0]:
            nv = unit(axis.theta, axis.phi)
            for j in (hards[0], softs[0]):
                v = rows[j, :3].astype(LD)
                other = rows[softs[0] if j == hards[0] else hards[0], :3]
                sin = np.linalg.norm(np.cross(rows[j, :3], other)) / (np.linalg.norm(rows[j, :3]) * np.linalg.norm(other))
                if sin > 1e-6:
                    mon.check(abs(float(v @ nv)) <= 1e-8 * float(np.linalg.norm(rows[j, :3])), "default axis is normal to the plane", axis=axis)
            mon.obs("default-axis")
        kw = rng.choice([0, 1]) and {"axis": None} or {}
        th, ph = axis
    else:
        th, ph = draw_axis(mon, rng)
        axis = [(th, ph), gcl.transform.SphericalAngle(th, ph)][rng.integers(2)]
        kw = {"axis": axis}
    if rng.random() < 0.3:
        pmu.pt, pmu.eta, pmu.mass
    got = mon.call("split_hardest", f, pmu, z, ang, **kw)
    mon.check(isinstance(got, gcl.MomentumArray) and len(got) == n + 1, "one particle more", got=len(got), want=n + 1)
    out = rows_of(got)
    fits = [h for h in hards if np.array_equal(out[: n - 1], np.delete(rows, h, axis=0))]
    mon.check(len(fits) > 0, "other particles unchanged and in order", hard=hards, got=out, rows=rows)
    moved = judge_children(mon, out[-2:], rows[fits[0]], z, ang, th, ph)
    mon.close(out.sum(axis=0), rows.sum(axis=0), "total momentum", rtol=0, atol=1e-13 * np.abs(rows).sum())
    mon.same(rows_of(pmu), rows, "momenta after splitting")
    mon.check(not np.shares_memory(got.data, pmu.data), "split set shares the original's memory")
    mon.obs("hardest-first", int(n > 1 and hards[0] == 0))
    mon.obs("hardest-last", int(n > 1 and hards[0] == n - 1))
    mon.obs("set-splits")
    for bad in (0.0, -float(rng.uniform(1e-6, 1)), 0.5 + float(rng.choice([1e-9, 0.1, 0.5, 3.0])), np.nan):
        mon.raises("split_hardest z", f, pmu, bad, ang, types=(ValueError,), **kw)
        mon.obs("rejected")
    one = gcl.MomentumArray(rows[:1])
    mon.raises("split_hardest size", f, one, z, ang, types=(ValueError,))
    mon.obs("rejected")
    # a second split keeps following the same rules
    again = mon.call("split_hardest", f, got, z, ang, (th, ph))
    mon.close(rows_of(again).sum(axis=0), rows.sum(axis=0), "total momentum after two splits", rtol=0, atol=1e-13 * np.abs(rows).sum())
    mon.sig(rows, z, ang, th, ph, nontrivial=moved)


GROUPS = [("rotation", g_rotation, 350), ("split", g_split, 250), ("set", g_set, 300)]
