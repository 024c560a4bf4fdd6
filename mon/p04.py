"""P04 mask algebra and aggregation."""
import operator

import numpy as np

from . import core, gens

RULE = (
    "a case is a tuple of same-length masks, groups or arrays combined by the "
    "mask operators; non-trivial when the length is at least one; distinct by "
    "operand kinds and contents"
)
ASSUMPTIONS = ["single-element arrays broadcast in 'and'/'or' as numpy does; only comparisons promise not to"]
REQUIRED = {"pair:MaskArray-MaskGroup": 20, "pair:MaskGroup-ndarray": 20, "pair:MaskArray-ndarray": 20,
            "nested": 30, "array-first": 100, "in-place": 100, "reject:none aggregation": 10, "reject:comparison": 50, "setitem": 50, "crowd": 15}


def model_value(t):
    """(agg, {name: array or nested}) -> array"""
    agg, kids = t
    vals = [model_value(v) if isinstance(v, tuple) else v for v in kids.values()]
    out = vals[0].copy()
    for v in vals[1:]:
        out = (out | v) if agg == "or" else (out & v)
    return out


def build(t):
    import graphicle as gcl

    agg, kids = t
    return gcl.MaskGroup({k: build(v) if isinstance(v, tuple) else gcl.MaskArray(v.copy()) for k, v in kids.items()}, agg)


def bits(rng, n):
    return rng.random(n) < rng.choice([0.0, 0.2, 0.5, 0.8, 1.0])


def tree(rng, n, depth, lo=1):
    kids = {}
    for j in range(int(rng.integers(lo, 4))):
        if depth and rng.random() < 0.4:
            kids[f"g{j}"] = tree(rng, n, depth - 1)
        else:
            kids[f"m{j}"] = bits(rng, n)
    return (str(rng.choice(["or", "and"])), kids)


def operand(rng, n):
    """(library object, boolean value, kind)"""
    import graphicle as gcl

    r = rng.random()
    if r < 0.35:
        a = bits(rng, n)
        return gcl.MaskArray(a.copy()), a, "MaskArray"
    if r < 0.75:
        t = tree(rng, n, int(rng.integers(0, 3)))
        return build(t), model_value(t), "MaskGroup"
    a = bits(rng, n)
    return a.copy(), a, "ndarray"


def is_mask(mon, got, want, what):
    import graphicle as gcl

    mon.check(isinstance(got, gcl.MaskArray), what + ": result type", got=type(got))
    data = np.asarray(got.data)
    mon.check(data.dtype == np.bool_, what + ": result dtype")
    mon.same(data, want, what)


def g_pairs(mon, rng, i):
    n = gens.size(rng, big=True)
    while True:
        (a, av, ak), (b, bv, bk) = operand(rng, n), operand(rng, n)
        if ak != "ndarray":
            break
    mon.obs(f"pair:{ak}-{bk}")
    mon.state("pair", (ak, bk))
    mon.sig(ak, bk, av, bv, nontrivial=n > 0)
    mon.sample(f"{ak} op {bk}, n={n}")
    is_mask(mon, mon.call("and", lambda x, y: x & y, a, b), av & bv, f"{ak} & {bk}")
    is_mask(mon, mon.call("or", lambda x, y: x | y, a, b), av | bv, f"{ak} | {bk}")
    is_mask(mon, mon.call("eq", lambda x, y: x == y, a, b), av == bv, f"{ak} == {bk}")
    is_mask(mon, mon.call("ne", lambda x, y: x != y, a, b), av != bv, f"{ak} != {bk}")
    is_mask(mon, mon.call("not", lambda x: ~x, a), ~av, f"~{ak}")
    if bk != "ndarray":
        is_mask(mon, mon.call("and", lambda x, y: x & y, b, a), av & bv, f"{bk} & {ak}")
        is_mask(mon, mon.call("or", lambda x, y: x | y, b, a), av | bv, f"{bk} | {ak}")
        is_mask(mon, mon.call("eq", lambda x, y: x == y, b, a), av == bv, f"{bk} == {ak}")
        # De Morgan through the library alone
        lhs, rhs = ~(a & b), ~a | ~b
        mon.check(bool(np.all(np.asarray((lhs == rhs).data))), "De Morgan")
        is_mask(mon, (a | b) & ~(a & b), av ^ bv, "exclusive or by composition")
    else:  # the array first
        for nm, f in (("&", operator.and_), ("|", operator.or_), ("==", operator.eq), ("!=", operator.ne)):
            got = np.asarray(mon.call(f"array {nm}", f, b, a))
            mon.check(got.dtype == np.bool_, f"ndarray {nm} {ak}: result dtype")
            mon.same(got, f(bv, av), f"ndarray {nm} {ak}")
            mon.obs("array-first")
    if "MaskGroup" not in (ak, bk):
        for nm, f in (("^", operator.xor), ("logical_and", np.logical_and), ("logical_or", np.logical_or), ("logical_xor", np.logical_xor)):
            for x, y in ((a, b), (b, a)):
                is_mask(mon, mon.call(nm, f, x, y), f(av, bv), f"{ak} {nm} {bk}")
        is_mask(mon, mon.call("logical_not", np.logical_not, a), ~av, f"logical_not {ak}")
        for nm, f, g in (("&=", operator.iand, operator.and_), ("|=", operator.ior, operator.or_), ("^=", operator.ixor, operator.xor)):
            c = a.copy()
            got = f(c, b)
            mon.check(got is c, f"{ak} {nm} {bk}: altered in place")
            is_mask(mon, c, g(av, bv), f"{ak} {nm} {bk}")
            mon.obs("in-place")
        mon.same(np.asarray(b), bv, f"{bk} after being combined")
    mon.same(np.asarray(a), av, f"array value of {ak}")
    mon.same(np.asarray(a.data), av, f"data of {ak}")


def g_groups(mon, rng, i):
    import graphicle as gcl

    n = gens.size(rng)
    t = tree(rng, n, 3)
    g = build(t)
    deep = any(isinstance(v, tuple) for v in t[1].values())
    mon.obs("nested" if deep else "flat")
    mon.sig("group", repr(t), nontrivial=n > 0)
    mon.sample(f"group of {list(t[1])} agg={t[0]} n={n}")
    mon.same(g.data, model_value(t), "group data")
    mon.same(np.asarray(g), model_value(t), "group as array")
    mon.same(mon.call("bitwise_or", g.bitwise_or).data, model_value(("or", t[1])), "bitwise_or")
    mon.same(mon.call("bitwise_and", g.bitwise_and).data, model_value(("and", t[1])), "bitwise_and")
    # changing only the setting re-aggregates, children keep their own
    for agg in ("or", "and", "OR", "And", "or"):
        g.agg_op = agg
        mon.same(g.data, model_value((agg.lower(), t[1])), f"data after setting agg_op={agg}")
        mon.check(g.agg_op.value == agg.lower(), "agg_op read back")
    # 'none' refuses at any level
    g.agg_op = "none"
    mon.raises("none aggregation", lambda: g.data)
    mon.raises("none aggregation", lambda: g & np.ones(n, bool))
    mon.raises("none aggregation", lambda: g | np.ones(n, bool))
    mon.raises("none aggregation", lambda: ~g)
    mon.raises("none aggregation", lambda: g == np.ones(n, bool))
    mon.raises("none aggregation", lambda: g != np.ones(n, bool))
    mon.raises("none aggregation", lambda: gcl.MaskArray(np.ones(n, bool)) & g)
    mon.raises("none aggregation", lambda: gcl.MaskArray(np.ones(n, bool)) | g)
    mon.raises("none aggregation", lambda: gcl.MaskArray(np.ones(n, bool)) == g)
    outer = gcl.MaskGroup({"a": gcl.MaskArray(np.ones(n, bool)), "b": g}, "or")
    mon.raises("none aggregation", lambda: outer.data)
    g.agg_op = gcl.data.MaskAggOp.OR if hasattr(gcl.data, "MaskAggOp") else "or"
    mon.same(g.data, model_value(("or", t[1])), "data after setting an enum value")
    # replacing one child's contents in place shows through
    key = next(k for k in t[1])
    if not isinstance(t[1][key], tuple) and n:
        j = int(rng.integers(n))
        t[1][key][j] ^= True
        g[key][j] = bool(t[1][key][j])
        mon.same(g.data, model_value(("or", t[1])), "data after changing a child")


def g_rejects(mon, rng, i):
    import graphicle as gcl

    n = int(rng.integers(1, 20))
    m = int(rng.choice([k for k in range(0, 22) if k != n]))
    a = gcl.MaskArray(bits(rng, n))
    other = bits(rng, m)
    grp = gcl.MaskGroup({"x": bits(rng, n), "y": bits(rng, n)}, "or")
    for left in (a, grp):
        for right in (other, gcl.MaskArray(other), gcl.MaskGroup({"z": other, "w": other}, "and")):
            mon.raises("comparison", lambda: left == right)
            mon.raises("comparison", lambda: left != right)
            if m != 1 and n != 1:
                mon.raises("combination", lambda: left & right)
                mon.raises("combination", lambda: left | right)
        for junk in (True, 1, "mask", [True] * n, None):
            mon.raises("comparison", lambda: left == junk)
            mon.raises("comparison", lambda: left != junk)
            mon.raises("combination", lambda: left & junk)
            mon.raises("combination", lambda: left | junk)
    mon.sig(n, m, other)


def g_crowd(mon, rng, i):
    """Groups of many masks, with as many or as few as one selecting a particle."""
    import graphicle as gcl

    k = int([127, 128, 255, 256, 257, 300, 512, 513, 600, 1024][i % 10])
    n = int(rng.integers(1, 12))
    cols = rng.choice([0, 1, 2, 127, 128, 255, 256, k - 256, k - 1, k], n)
    m = np.zeros((k, n), bool)
    for j, c in enumerate(cols.tolist()):
        m[rng.permutation(k)[: min(max(c, 0), k)], j] = True
    agg = ["or", "and"][i % 2]
    g = gcl.MaskGroup({f"m{j}": m[j].copy() for j in range(k)}, agg)
    mon.same(g.data, m.any(0) if agg == "or" else m.all(0), f"{agg} of a large group", k=k)
    mon.same(mon.call("bitwise_or", g.bitwise_or).data, m.any(0), "bitwise_or of a large group", k=k)
    mon.same(mon.call("bitwise_and", g.bitwise_and).data, m.all(0), "bitwise_and of a large group", k=k)
    is_mask(mon, mon.call("not", lambda x: ~x, g), ~(m.any(0) if agg == "or" else m.all(0)), "~MaskGroup")
    mon.obs("crowd")
    mon.state("group-size", k)
    mon.sig("crowd", m, agg)


def g_setitem(mon, rng, i):
    """In-place item assignment of masks follows numpy."""
    import graphicle as gcl

    n = int(rng.integers(1, 25))
    want = bits(rng, n)
    m = gcl.MaskArray(want.copy())
    for _ in range(int(rng.integers(1, 5))):
        k, pk, lab = gens.keys_for(rng, n)
        if rng.random() < 0.3:
            pk = bits(rng, n)
            k, lab = gcl.MaskArray(pk), "MaskArray"
        size = np.atleast_1d(want[pk]).shape[0]
        val = bool(rng.integers(2)) if rng.random() < 0.5 or lab == "int" else bits(rng, size)
        want[pk] = val
        m[k] = val
        mon.same(m.data, want, f"mask after setting [{lab}]")
        mon.obs("setitem")
    mon.same(mon.call("not", lambda x: ~x, m).data, ~want, "not after setting")
    mon.sig("set", want)


def g_chains(mon, rng, i):
    """Random boolean expressions against numpy."""
    n = gens.size(rng)
    stack = []
    for _ in range(int(rng.integers(3, 9))):
        stack.append(operand(rng, n))
    while len(stack) > 1:
        j = int(rng.integers(len(stack)))
        k = int(rng.integers(len(stack)))
        if j == k or (stack[j][2] == "ndarray"):
            a, av, ak = stack[j]
            if ak == "ndarray":
                import graphicle as gcl

                stack[j] = (gcl.MaskArray(a), av, "MaskArray")
            else:
                stack[j] = (~a, ~av, "MaskArray")
            continue
        (a, av, _), (b, bv, _) = stack[j], stack[k]
        r = int(rng.integers(4))
        got, want = [(lambda: a & b, av & bv), (lambda: a | b, av | bv), (lambda: a == b, av == bv), (lambda: a != b, av != bv)][r]
        res = mon.call("expr", got)
        is_mask(mon, res, want, "random expression")
        stack = [s for x, s in enumerate(stack) if x not in (j, k)] + [(res, want, "MaskArray")]
    mon.sig("expr", n, stack[0][1], nontrivial=n > 0)


GROUPS = [("pairs", g_pairs, 900), ("groups", g_groups, 400), ("rejects", g_rejects, 120), ("crowd", g_crowd, 40), ("setitem", g_setitem, 250), ("chains", g_chains, 250)]
