"""Extended-precision kinematics, straight from the textbook definitions."""
import numpy as np

LD = np.longdouble
EPS = np.finfo(np.float64).eps


class Kin:
    def __init__(self, rows):
        a = np.asarray(rows, dtype=LD).reshape(-1, 4)
        self.n = len(a)
        x, y, z, e = self.x, self.y, self.z, self.e = a.T
        with np.errstate(all="ignore"):
            self.pt = np.hypot(x, y)
            self.p = np.hypot(self.pt, z)
            self.phi = np.arctan2(y, x)
            self.theta = np.arctan2(self.pt, z)
            self.eta = np.where(
                self.pt > 0,
                np.arcsinh(z / self.pt),
                np.where(z > 0, LD(np.inf), np.where(z < 0, -LD(np.inf), LD(np.nan))),
            )
            self.diff = e - np.abs(z)
            r = 0.5 * np.log((e + np.abs(z)) / self.diff)
            self.rap = np.copysign(np.where(self.diff == 0, LD(np.inf), r), z)
            self.m2 = (e - self.p) * (e + self.p)
            self.mt2 = (e - np.abs(z)) * (e + np.abs(z))
            self.mass = np.copysign(np.sqrt(np.abs(self.m2)), self.m2)
            self.mt = np.copysign(np.sqrt(np.abs(self.mt2)), self.mt2)

    # tolerances which any sensible double precision evaluation meets
    def eta_tol(self):
        """asinh(z/pt) is well conditioned in every direction"""
        e = np.abs(np.asarray(self.eta, float))
        return 1e-12 + 8 * EPS * np.where(np.isfinite(e), e, 1)

    def rap_tol(self):
        """so is the rapidity, for given components"""
        y = np.abs(np.asarray(self.rap, float))
        return 1e-12 + 8 * EPS * np.where(np.isfinite(y), y, 1)

    def shifted_tol(self, which):
        """for momenta whose components carry rounding errors of their own"""
        r = self.eta if which == "eta" else self.rap
        with np.errstate(all="ignore"):
            c = np.where(np.isfinite(r), np.cosh(np.clip(r, -17, 17)) ** 2, 1)
        return np.asarray(64 * EPS * c + 1e-12, float)

    def m2_tol(self):
        return np.asarray(64 * EPS * (self.e**2 + self.p**2) + 1e-300, float)


def wrap(d):
    """Signed angular difference in (-pi, pi]."""
    d = np.asarray(d, dtype=LD)
    return d - 2 * LD(np.pi) * np.round(d / (2 * LD(np.pi)))


def root(m2):
    m2 = np.asarray(m2, float)
    return np.copysign(np.sqrt(np.abs(m2)), m2)


def sqsigned(m):
    m = np.asarray(m, dtype=LD)
    return m * np.abs(m)


def compare(mon, got, rows, what, skip=()):
    """``got``: MomentumArray; every derived quantity against Kin(rows)."""
    k = Kin(rows)
    n = k.n

    def grab(name):
        arr = getattr(got, name)
        mon.check(isinstance(arr, np.ndarray) and arr.shape == (n,), f"{what}: shape of {name}", shape=np.shape(arr))
        mon.check(arr.dtype == np.float64, f"{what}: dtype of {name}", dtype=arr.dtype)
        return arr

    for name, ref in (("x", k.x), ("y", k.y), ("z", k.z), ("energy", k.e)):
        mon.same(grab(name), np.asarray(ref, float), f"{what}: {name}")
    mon.close(grab("pt"), k.pt, f"{what}: pt", rtol=1e-12)
    mon.close(grab("theta"), k.theta, f"{what}: theta", rtol=0, atol=1e-12)
    if "phi" not in skip:
        phi = grab("phi")
        soft = np.asarray(k.pt <= 1e-11)
        firm = np.asarray(k.pt >= 1e-9)
        mon.check(bool(np.all(np.isnan(phi[soft]))), f"{what}: azimuth of negligible pt is not NaN", phi=phi[soft])
        d = wrap(phi[firm].astype(LD) - k.phi[firm])
        mon.close(d, np.zeros(firm.sum()), f"{what}: phi", rtol=0, atol=1e-12)
        mon.check(bool(np.all(np.abs(phi[firm]) <= np.pi + 1e-12)), f"{what}: phi range")
    eta = grab("eta")
    ok = ~np.asarray((k.pt == 0) & (k.z == 0))
    # longitudinal up to rounding: infinite, or as large as it really is
    flat = ok & np.asarray(k.pt < 2e-10 * np.abs(k.z))
    same_inf = np.isinf(eta) & (np.sign(eta) == np.sign(np.asarray(k.z, float)))
    ok &= ~(flat & same_inf)
    mon.close(eta[ok], k.eta[ok], f"{what}: eta", rtol=0, atol=k.eta_tol()[ok])
    rap = grab("rapidity")
    ok = np.asarray(((k.diff == 0) & (k.e > 0)) | (k.diff > 1e-9))
    mon.close(rap[ok], k.rap[ok], f"{what}: rapidity", rtol=0, atol=k.rap_tol()[ok])
    mon.close(sqsigned(grab("mass")), k.m2, f"{what}: mass squared", rtol=1e-11, atol=k.m2_tol())
    mon.close(sqsigned(grab("mass_t")), k.mt2, f"{what}: mT squared", rtol=1e-11, atol=k.m2_tol())
    mon.obs("kinematics-rows", n)
    return k
