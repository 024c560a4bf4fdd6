"""P19 particle code look-ups and masks."""
import math
from fractions import Fraction

import numpy as np

from . import core, event

RULE = (
    "a case is one list of codes (with repeats, in random order) whose attributes are read and compared with an "
    "independent parse of the particle data table, or masked with random targets; non-trivial when the list has "
    "at least two different codes; distinct by code list and request"
)
ASSUMPTIONS = [
    "the installed particle data table (mcpid's CSV) is the reference; it is parsed here with the csv module",
    "blank text entries of the table are not judged",
    "names shared by several codes are not required to convert back",
]
REQUIRED = {"lookup": 1000, "lookup-values": 30000, "mask": 300, "mask-hit": 500, "mask-miss": 500, "mask-shared-bits": 15, "long-target": 8, "roundtrip": 200,
            "codes-covered": 1000, "bad-name": 10, "sign-sensitive-differs": 20}


def number(text, frac=False):
    if text == "":
        return 0.0 if frac else math.nan
    if text == "?":
        return math.nan
    return float(Fraction(text)) if frac else float(text)


_T = {}


def table():
    if not _T:
        for r in event.mcpid_table():
            _T[int(float(r["id"]))] = r
    return _T


SCALARS = {
    "charge": ("charge", True, 1.0),
    "isospin": ("i", True, 1.0),
    "g_parity": ("g", True, 1.0),
    "space_parity": ("p", True, 1.0),
    "charge_parity": ("c", True, 1.0),
    "mass": ("mass", False, 1e-3),
    "width": ("width", False, 1e-3),
}
TEXT = ("name", "latex", "quarks")
PAIRS = ("mass_bounds", "width_bounds")


def lookups(mon, rng, codes, attrs=None):
    import graphicle as gcl

    arr = gcl.PdgArray(codes if rng.random() < 0.5 else np.array(codes, dtype=["<i4", "<i8"][rng.integers(2)]))
    before = arr.data.copy()
    attrs = attrs or list(SCALARS) + list(TEXT) + list(PAIRS)
    rng.shuffle(attrs)
    compare(mon, arr, codes, attrs)
    mon.same(arr.data, before, "codes after look-ups")
    mon.sig(np.asarray(codes), nontrivial=len(set(codes)) > 1)
    mon.sample([int(c) for c in codes[:12]])


def compare(mon, arr, codes, attrs, when=""):
    tab = table()
    for attr in attrs:
        got = mon.call("PdgArray." + attr, getattr, arr, attr)
        mon.obs("lookup")
        mon.obs("lookup-values", len(codes))
        mon.check(len(got) == len(codes), f"{attr} has one entry per particle" + when, got=len(got), want=len(codes))
        rows = [tab[int(c)] for c in codes]
        if attr in SCALARS:
            col, frac, scale = SCALARS[attr]
            want = np.array([number(r[col], frac) for r in rows], dtype=float) * scale
            got = np.asarray(got, dtype=float)
            mon.check(got.ndim == 1, f"{attr} is one-dimensional")
            mon.close(got, want, attr + when, rtol=1e-12)
        elif attr in TEXT:
            for g, r, c in zip(got.tolist(), rows, codes):
                mon.check(isinstance(g, str), f"{attr} is text", got=g)
                if r[attr] != "":
                    mon.check(g == r[attr], f"{attr} of code {c}", got=g, want=r[attr])
        else:
            base = attr.split("_")[0]
            mon.check(set(got.dtype.names) == {base + "lower", base + "upper"}, f"{attr} fields", got=got.dtype.names)
            for side in ("lower", "upper"):
                want = np.array([number(r[base + side]) for r in rows], dtype=float) * 1e-3
                mon.close(np.asarray(got[base + side], dtype=float), want, f"{attr} {side}" + when, rtol=1e-12)


def g_all(mon, rng, i):
    codes = sorted(table())
    k = 6
    part = codes[i::k]
    rng.shuffle(part)
    part = [int(c) for c in part]
    lookups(mon, rng, part)
    mon.obs("codes-covered", len(part))


def draw(rng, n):
    codes = np.array(sorted(table()))
    common = [c for c in (1, -1, 2, 3, 4, 5, -5, 6, -6, 21, 22, 23, 24, -24, 25, 11, -11, 13, 211, -211, 111, 2212) if c in table()]
    out = np.where(rng.random(n) < 0.5, rng.choice(codes, n), rng.choice(common, n)) if n else np.zeros(0, int)
    return [int(c) for c in out]


def g_lookup(mon, rng, i):
    n = int(rng.choice([0, 1, 2, 3, 5, 20, 80, 400], p=[0.05, 0.1, 0.15, 0.15, 0.2, 0.15, 0.15, 0.05]))
    lookups(mon, rng, draw(rng, n))
    if n and rng.random() < 0.3:  # a stretch with one repeated code
        lookups(mon, rng, [draw(rng, 1)[0]] * n)


def g_history(mon, rng, i):
    """look-ups follow the data through replacement, in-place use and selection."""
    import graphicle as gcl

    tab = table()
    arr = gcl.PdgArray(draw(rng, int(rng.integers(1, 12))))

    def judge(what, arr, codes):
        codes = [int(c) for c in codes]
        mon.same(arr.data, codes, f"codes after {what}")
        mon.close(mon.call("mass", getattr, arr, "mass"), [number(tab[c]["mass"]) * 1e-3 for c in codes], f"masses after {what}", rtol=1e-12)
        names = mon.call("name", getattr, arr, "name").tolist()
        mon.check(names == [tab[c]["name"] for c in codes], f"names after {what}", got=names)
        compare(mon, arr, codes, watched, f" after {what}")
        mon.obs("lookup", 2)

    codes = arr.data.tolist()
    watched = [str(a) for a in rng.choice(list(SCALARS) + list(TEXT) + list(PAIRS), 4, replace=False)]
    for _ in range(5):
        judge("start", arr, codes)
        r = rng.integers(4)
        if r == 0:
            codes = draw(rng, int(rng.integers(1, 12)))
            arr.data = codes
            judge("replacement", arr, codes)
        elif r == 1:
            order = rng.permutation(len(codes))
            sub = arr[order]
            judge("reordering", sub, [codes[j] for j in order])
        elif r == 2:
            m = rng.random(len(codes)) < 0.6
            judge("selection", arr[gcl.MaskArray(m)], [c for c, k in zip(codes, m) if k])
        else:
            j = int(rng.integers(len(codes)))
            new = draw(rng, 1)[0]
            arr.data[j] = new
            codes = list(codes)
            codes[j] = new
            judge("writing an element", arr, codes)
    mon.sig(codes, nontrivial=len(set(codes)) > 1)


def g_mask(mon, rng, i):
    import graphicle as gcl

    n = int(rng.choice([0, 1, 4, 30, 150]))
    r = rng.random()
    if r < 0.5:
        codes = np.array(draw(rng, n), dtype=int)
    elif r < 0.75:
        codes = rng.integers(-6, 7, n)
    else:
        codes = rng.integers(-2**31 + 1, 2**31, n)
    if n and rng.random() < 0.25:  # codes which share their low bits
        base = rng.choice([1, 6, 11, 21, 211], n)
        codes = base + rng.choice([0, 256, 65536, 2**24, -65536, 2**30], n)
        mon.obs("mask-shared-bits")
    arr = gcl.PdgArray(codes)
    pool = np.unique(np.concatenate([codes, -codes, [21, 6, -6, 11]]))
    k = int(rng.choice([0, 1, 1, 2, 2, 5, 5, 20, 90, 300]))
    target = rng.choice(pool, min(k, 5)).tolist()
    if k > 5:  # a long list of codes, most of them absent
        target += rng.integers(1, 10000, k - 5).tolist()
        rng.shuffle(target)
        mon.obs("long-target")
    target = [int(t) for t in target]
    forms = [target, tuple(target), np.array(target, dtype="<i4"), np.array(target, dtype="<i8"), gcl.PdgArray(target)]
    if k == 1:
        forms.append(target[0])
    form = forms[rng.integers(len(forms))]
    for blacklist in (True, False):
        for signed in (True, False):
            kw = dict(blacklist=blacklist, sign_sensitive=signed)
            if blacklist and rng.random() < 0.5:
                del kw["blacklist"]
            if not signed and rng.random() < 0.5:
                del kw["sign_sensitive"]
            got = mon.call("PdgArray.mask", arr.mask, form, **kw)
            mon.check(isinstance(got, gcl.MaskArray), "mask type", got=type(got))
            if signed:
                hit = [int(c) in target for c in codes]
            else:
                hit = [abs(int(c)) in {abs(t) for t in target} for c in codes]
            want = [not h for h in hit] if blacklist else hit
            mon.check(got.data.dtype == bool and got.data.tolist() == want, "code mask", got=got.data, want=want, codes=codes, target=target, kw=kw)
            mon.obs("mask")
            mon.obs("mask-hit", sum(hit))
            mon.obs("mask-miss", len(hit) - sum(hit))
            if signed:
                loose = [abs(int(c)) in {abs(t) for t in target} for c in codes]
                mon.obs("sign-sensitive-differs", int(loose != hit))
    mon.sig(codes, target, nontrivial=len(set(codes.tolist())) > 1)
    mon.sample(dict(codes=codes[:6].tolist(), target=target))


def g_names(mon, rng, i):
    import graphicle as gcl

    tab = table()
    byname = {}
    for c, r in tab.items():
        byname.setdefault(r["name"], []).append(c)
    uniq = [(nm, cs[0]) for nm, cs in byname.items() if len(cs) == 1 and nm]
    n = int(rng.choice([1, 2, 3, 10, 60]))
    pick = [uniq[j] for j in rng.integers(0, len(uniq), n)]
    names, codes = [p[0] for p in pick], [p[1] for p in pick]
    form = [names, tuple(names), iter(list(names)), (x for x in list(names))][rng.integers(4)]
    got = mon.call("from_name", gcl.PdgArray.from_name, form, pure=False)
    mon.check(isinstance(got, gcl.PdgArray), "from_name type")
    mon.same(got.data, codes, "codes from names", names=names)
    mon.check(got.name.tolist() == names, "names round trip", got=got.name.tolist()[:5], want=names[:5])
    back = mon.call("from_name", gcl.PdgArray.from_name, gcl.PdgArray(codes).name.tolist())
    mon.same(back.data, codes, "name round trip")
    one = mon.call("from_name", gcl.PdgArray.from_name, names[0])
    mon.same(one.data, codes[:1], "code of one name")
    mon.obs("roundtrip", len(names))
    bad = list(names)
    bad[rng.integers(n)] = "no such particle %d" % rng.integers(1000)
    mon.raises("from_name unknown", gcl.PdgArray.from_name, bad, types=(ValueError,))
    mon.raises("from_name unknown", gcl.PdgArray.from_name, bad[0] if bad[0] not in byname else "???", types=(ValueError,))
    bad = list(names)
    bad[rng.integers(n)] = [5, None, 2.5, b"u"][rng.integers(4)]
    mon.raises("from_name type", gcl.PdgArray.from_name, bad, types=(ValueError,))
    mon.raises("from_name type", gcl.PdgArray.from_name, int(rng.integers(100)), types=(ValueError,))
    mon.obs("bad-name", 4)
    mon.sig(names, nontrivial=len(set(names)) > 1)


GROUPS = [
    ("all-codes", g_all, 6, "once"),
    ("lookup", g_lookup, 60),
    ("history", g_history, 20),
    ("mask", g_mask, 200),
    ("names", g_names, 30),
]
