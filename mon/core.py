"""Recorder, comparators and purity snapshots shared by all monitors."""
import collections
import contextlib
import hashlib
import math
import warnings
import zlib

import numpy as np


class Violation(Exception):
    """An observation of the real code which contradicts the property."""


class Inconclusive(Exception):
    """The monitor itself could not decide (never counts as held)."""


def short(obj, limit=400):
    try:
        text = repr(obj)
    except Exception as exc:  # noqa
        text = f"<unprintable {type(obj).__name__}: {exc!r}>"
    text = " ".join(text.split())
    return text if len(text) <= limit else text[: limit - 3] + "..."


def snap(obj, depth=0):
    """Byte-exact structural snapshot of anything passed to the library."""
    import graphicle as gcl

    if obj is None or isinstance(obj, (bool, int, float, str, complex, bytes)):
        return ("v", repr(obj))
    if isinstance(obj, np.ndarray):
        if obj.dtype.hasobject:
            return ("a", obj.shape, str(obj.dtype), repr(obj.tolist()))
        return ("a", obj.shape, str(obj.dtype), obj.tobytes())
    if isinstance(obj, np.generic):
        return ("g", str(obj.dtype), obj.tobytes())
    if isinstance(obj, gcl.MaskGroup):
        return (
            "mg",
            str(obj.agg_op),
            tuple((k, snap(v, depth + 1)) for k, v in obj.items()),
        )
    if isinstance(obj, gcl.Graphicle):
        return ("G", snap(obj.particles), snap(obj.adj))
    if isinstance(obj, gcl.ParticleSet):
        return ("P",) + tuple(
            snap(getattr(obj, k))
            for k in ("pdg", "pmu", "color", "helicity", "status", "final")
        )
    if isinstance(obj, gcl.AdjacencyList):
        return ("A", snap(np.array(obj.data)), snap(np.array(obj.weights)))
    if isinstance(
        obj,
        (
            gcl.MaskArray,
            gcl.PdgArray,
            gcl.MomentumArray,
            gcl.ColorArray,
            gcl.HelicityArray,
            gcl.StatusArray,
        ),
    ):
        return (type(obj).__name__, snap(np.array(obj.data)))
    if isinstance(obj, dict):
        return ("d", tuple((repr(k), snap(v)) for k, v in obj.items()))
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, tuple(snap(v) for v in obj))
    if isinstance(obj, (set, frozenset)):
        return ("s", tuple(sorted(map(repr, obj))))
    return ("o", type(obj).__name__)


def leaves(obj, depth=0):
    """Arrays held by an argument or a result."""
    import graphicle as gcl

    if depth > 40:
        return
    if isinstance(obj, np.ndarray):
        yield obj
    elif isinstance(obj, gcl.MaskGroup):
        for k in obj:
            yield from leaves(obj[k], depth + 1)
    elif isinstance(obj, gcl.Graphicle):
        yield from leaves(obj.particles, depth + 1)
        yield from leaves(obj.adj, depth + 1)
    elif isinstance(obj, gcl.ParticleSet):
        for k in ("pdg", "pmu", "color", "helicity", "status", "final"):
            yield from leaves(getattr(obj, k), depth + 1)
    elif isinstance(obj, gcl.AdjacencyList):
        yield np.asarray(obj.data)
        yield np.asarray(obj.weights)
    elif isinstance(obj, (gcl.base.ArrayBase, gcl.base.MaskBase)):
        yield np.asarray(obj.data)
    elif isinstance(obj, dict):
        for v in obj.values():
            yield from leaves(v, depth + 1)
    elif isinstance(obj, (list, tuple)):
        for v in obj:
            yield from leaves(v, depth + 1)


def scribble(obj, keep):
    """Overwrite the arrays of a result, other than memory of ``keep``."""
    held = [a for a in leaves(keep) if a.size]
    done = 0
    for a in leaves(obj):
        if not a.size or not a.flags.writeable or a.dtype.hasobject:
            continue
        if any(np.may_share_memory(a, b) for b in held):
            continue
        for part in [a] if a.dtype.names is None else [a[f] for f in a.dtype.names]:
            if part.dtype.kind == "b":
                part[...] = ~part
            elif part.dtype.kind in "iu":
                part[...] = 77
            elif part.dtype.kind in "fc":
                part[...] = -7.25
            else:
                continue
            done += 1
    return done


def momentum_arrays(obj, depth=0):
    import graphicle as gcl

    if depth > 40:
        return
    if isinstance(obj, gcl.MomentumArray):
        yield obj
    elif isinstance(obj, (gcl.Graphicle, gcl.ParticleSet)):
        yield obj.pmu
    elif isinstance(obj, dict):
        for v in obj.values():
            yield from momentum_arrays(v, depth + 1)
    elif isinstance(obj, (list, tuple)):
        for v in obj:
            yield from momentum_arrays(v, depth + 1)


def plain(obj, depth=0):
    """None for iterators, False for objects of types unknown here."""
    import graphicle as gcl

    if hasattr(obj, "__next__"):
        return None
    if obj is None or isinstance(obj, (bool, int, float, str, complex, bytes, np.ndarray, np.generic, np.dtype, type, slice, range, set, frozenset)):
        return True
    if isinstance(obj, (gcl.base.ArrayBase, gcl.base.MaskBase, gcl.base.AdjacencyBase, gcl.ParticleSet, gcl.Graphicle)):
        return True
    if isinstance(obj, (dict, list, tuple)) and depth < 40:
        found = {plain(v, depth + 1) for v in (obj.values() if isinstance(obj, dict) else obj)}
        return None if None in found else False not in found
    return False


UNSEEDED = {"thrust", "spherocity", "from_spherical_uniform"}


class Mon:
    ECHO = 5  # one call in so many of each function is repeated

    def __init__(self, pid, known=()):
        self.pid = pid
        self.counts = collections.Counter()
        self.states = collections.defaultdict(set)
        self.sigs = set()
        self.samples = {}
        self.known_keys = set(known)
        self.known_hits = collections.OrderedDict()
        self.label = ""
        self.seed = 1
        self.only = None  # "group:index" when replaying

    # -- recording ---------------------------------------------------
    def obs(self, label, n=1):
        self.counts[label] += n

    def state(self, label, value):
        """Distinct values observed of some abstract state."""
        bag = self.states[label]
        if len(bag) < 200000:
            bag.add(value if isinstance(value, (int, str)) else repr(value))

    def sig(self, *parts, nontrivial=True):
        """Signature of the current case, for counting distinct cases."""
        self.counts["cases_nontrivial" if nontrivial else "cases_trivial"] += 1
        if nontrivial:
            h = hashlib.blake2b(digest_size=8)
            h.update(self.label.encode())
            for p in parts:
                if isinstance(p, np.ndarray) and not p.dtype.hasobject:
                    h.update(np.ascontiguousarray(p).tobytes())
                else:
                    h.update(repr(p).encode())
            self.sigs.add(h.digest())

    def sample(self, text):
        if self.label not in self.samples:
            self.samples[self.label] = short(text, 500)

    # -- judging -----------------------------------------------------
    def fail(self, msg, **ctx):
        extra = "; ".join(f"{k}={short(v)}" for k, v in ctx.items())
        raise Violation(msg + (f" [{extra}]" if extra else ""))

    def check(self, cond, msg, **ctx):
        self.counts["verdicts"] += 1
        if not bool(cond):
            self.fail(msg, **ctx)

    def known(self, key, what):
        """A recorded genuine defect; anything not listed is a violation."""
        if key not in self.known_keys:
            self.fail(what)
        self.known_hits[key] = what

    def call(self, label, fn, *args, pure=True, **kwargs):
        """Run a library call on valid input, watching its arguments."""
        self.obs("call:" + label)
        owner = getattr(fn, "__self__", None)
        before = snap((owner, args, kwargs)) if pure else None
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                out = fn(*args, **kwargs)
        except (MemoryError, KeyboardInterrupt, Inconclusive):
            raise
        except Violation:
            raise
        except BaseException as exc:  # noqa
            self.fail(
                f"{label} raised {type(exc).__name__}: {short(str(exc), 200)}",
                args=args,
                kwargs=kwargs,
            )
        if pure and snap((owner, args, kwargs)) != before:
            self.impure(f"{label} modified its arguments", args=args, owner=owner)
        if pure and self.ECHO and self.counts["call:" + label] % self.ECHO == 2:
            out = self.echo(label, fn, owner, args, kwargs, out)
        return out

    def echo(self, label, fn, owner, args, kwargs, out):
        """What a call gives must not depend on what became of an earlier
        result of the same call."""
        known = plain((owner, args, kwargs))
        if getattr(fn, "__name__", "") in UNSEEDED or known is None:
            return out
        first, text = snap(out), short(out, 200)
        if known and fn is not getattr and not getattr(fn, "__closure__", None):
            self.obs("echo:scribbled", int(scribble(out, (owner, args, list(kwargs.values()))) > 0))
        try:
            with quiet():
                again = fn(*args, **kwargs)
        except (MemoryError, KeyboardInterrupt, Inconclusive):
            raise
        except BaseException as exc:  # noqa
            self.fail(f"{label} repeated raised {type(exc).__name__}: {short(str(exc), 200)}", args=args, kwargs=kwargs)
        self.obs("echo")
        self.counts["verdicts"] += 1
        if snap(again) != first:
            self.fail(f"{label} repeated on the same arguments differs", got=again, want=text, args=args, kwargs=kwargs)
        return again

    def impure(self, msg, **ctx):
        self.fail(msg, **ctx)

    def raises(self, label, fn, *args, types=(Exception,), **kwargs):
        """Library call that must be rejected with an error."""
        self.obs("reject:" + label)
        self.counts["verdicts"] += 1
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                out = fn(*args, **kwargs)
        except (MemoryError, KeyboardInterrupt):
            raise
        except types:
            return
        except Exception as exc:  # noqa
            self.fail(
                f"{label} rejected with {type(exc).__name__}, expected "
                f"{'/'.join(t.__name__ for t in types)}: {exc}",
                args=args,
                kwargs=kwargs,
            )
        self.fail(f"{label} accepted invalid input", args=args, kwargs=kwargs, out=out)

    def warned(self, label, fn, *args, **kwargs):
        """Returns (result, list of warning categories)."""
        self.obs("call:" + label)
        try:
            with warnings.catch_warnings(record=True) as log:
                warnings.simplefilter("always")
                out = fn(*args, **kwargs)
        except (MemoryError, KeyboardInterrupt, Violation):
            raise
        except BaseException as exc:  # noqa
            self.fail(
                f"{label} raised {type(exc).__name__}: {short(str(exc), 200)}",
                args=args,
                kwargs=kwargs,
            )
        return out, [w.category for w in log]

    # -- comparators -------------------------------------------------
    def same(self, got, want, msg, **ctx):
        """Exact equality of arrays (NaN equal to NaN), values and shape."""
        self.counts["verdicts"] += 1
        got = np.asarray(got)
        want = np.asarray(want)
        ok = got.shape == want.shape
        if ok:
            if got.dtype.names is not None or want.dtype.names is not None:
                ok = got.tolist() == want.tolist()
            elif got.dtype.kind in "fc" and want.dtype.kind in "fc":
                ok = np.array_equal(got, want, equal_nan=True)
            else:
                ok = np.array_equal(got, want)
        if not ok:
            self.fail(msg + ": differs", got=got, want=want, **ctx)

    def close(self, got, want, msg, rtol=1e-10, atol=0.0, **ctx):
        """Numerical closeness; infinities and NaN must coincide.

        ``atol`` may be an array, for condition-aware tolerances.
        """
        self.counts["verdicts"] += 1
        got = np.asarray(got, dtype=np.float64)
        want_ = np.asarray(want)
        want = np.asarray(want_, dtype=np.float64)
        if got.shape != want.shape:
            self.fail(msg + ": wrong shape", got=got.shape, want=want.shape, **ctx)
        with np.errstate(all="ignore"):
            ok = (
                (got == want)
                | (np.isnan(got) & np.isnan(want))
                | (
                    np.isfinite(got)
                    & np.isfinite(want)
                    & (np.abs(got - want) <= atol + rtol * np.abs(want))
                )
            )
        if not np.all(ok):
            bad = np.argwhere(~np.atleast_1d(ok))[:3].tolist()
            at = tuple(bad[0])
            self.fail(
                msg + ": out of tolerance",
                at=bad,
                got_at=np.atleast_1d(got)[at],
                want_at=np.atleast_1d(want)[at],
                got=got,
                want=want,
                **ctx,
            )


class OtherProperty(Exception):
    """The execution deviated from a property other than the watched one."""


class PurityMon(Mon):
    """Runs another monitor's workload, judging only side effects."""

    ECHO = 0

    DERIVED = ("x", "y", "z", "energy", "pt", "eta", "rapidity", "phi", "theta", "mass", "mass_t")

    def __init__(self, host):
        super().__init__(host.pid, host.known_keys)
        self.host, self.label, self.seed = host, host.label, host.seed

    def _derived(self, momenta):
        with quiet():
            return [getattr(p, k) for p in momenta for k in self.DERIVED]

    def call(self, label, fn, *args, pure=True, **kwargs):
        """Also watches derived values the caller read before the call, and
        whether the caller may still write to its arrays."""
        known = pure and plain((getattr(fn, "__self__", None), args, kwargs))
        if not known:
            return super().call(label, fn, *args, pure=pure, **kwargs)
        given = (getattr(fn, "__self__", None), args, list(kwargs.values()))
        momenta = list(momentum_arrays(given))[:4] if self.counts["call:" + label] % 2 == 0 else []
        try:
            held = self._derived(momenta)
        except Exception:  # noqa: another property's business
            momenta, held = [], []
        values = snap(held)
        arrays = list(leaves(given))
        flags = [a.flags.writeable for a in arrays]
        out = super().call(label, fn, *args, pure=pure, **kwargs)
        if [a.flags.writeable for a in leaves(given)] != flags:
            self.impure(f"{label} changed whether its arguments may be written to", args=args)
        if momenta:
            self.host.obs("held-derived")
            if snap(held) != values:
                self.impure(f"{label} modified derived values read before the call", args=args)
            if snap(self._derived(momenta)) != values:
                self.impure(f"{label} changed the derived values of its arguments", args=args)
        return out

    def fail(self, msg, **ctx):
        raise OtherProperty(msg)

    def impure(self, msg, **ctx):
        self.host.fail(msg, **ctx)

    def known(self, key, what):
        raise OtherProperty(what)


def case_rng(seed, group, idx):
    return np.random.default_rng([seed, zlib.crc32(group.encode()), idx])


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def threads(rng=None):
    """A valid number of worker threads, the largest without ``rng``."""
    import numba

    top = int(numba.config.NUMBA_NUM_THREADS)
    return top if rng is None else int(rng.integers(1, top + 1))
