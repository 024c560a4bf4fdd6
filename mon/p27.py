"""P27 tables, reprs and printed trees."""
import html.parser
import math
import os
import re

import numpy as np

from . import core, event, gens

RULE = (
    "a case is one particle set, event or mask group rendered as text and HTML and parsed back; non-trivial when it has "
    "rows (or names) to show; distinct by content"
)
ASSUMPTIONS = [
    "floating point cells are compared with the value rounded to the three significant digits shown",
    "printed trees are at most about thirty levels deep, and their names single lines",
]
REQUIRED = {"tables": 300, "html-tables": 150, "rows-read": 3000, "elided": 60, "at-limit": 10, "just-over-limit": 10,
            "partial-columns": 60, "with-edges": 60, "event-without-edges": 12, "event-without-edges-or-names": 8, "trees": 80, "tree-names": 300, "tree-depth>=3": 20, "reprs": 100,
            "no-particle-data": 5, "empty-tables": 5, "broad-trees": 6, "deep-trees": 6, "long-names": 10, "narrow-consoles": 20,
            "thousands": 5, "undefined-cells": 20}
LIMIT, SHOWN = 60, 5


class Html(html.parser.HTMLParser):
    def __init__(self):
        super().__init__()
        self.rows, self.cell, self.tail, self.depth = [], None, "", 0

    def handle_starttag(self, tag, attrs):
        if tag == "table":
            self.depth += 1
        if tag == "tr":
            self.rows.append([])
        if tag in ("td", "th"):
            self.cell = ""

    def handle_endtag(self, tag):
        if tag in ("td", "th"):
            self.rows[-1].append(self.cell.strip())
            self.cell = None
        if tag == "table":
            self.depth -= 1

    def handle_data(self, data):
        if self.cell is not None:
            self.cell += data
        elif not self.depth:
            self.tail += data


def plain(text):
    lines = text.split("\n")
    stat = lines[-1]
    body = [re.split(r"\s{2,}", ln.strip()) for ln in lines[:-1] if ln.strip()]
    return body, stat


COLUMNS = (
    ("pdg", ("name",)),
    ("pmu", ("px", "py", "pz", "energy")),
    ("color", ("color", "anticolor")),
    ("helicity", ("helicity",)),
    ("status", ("status",)),
    ("final", ("final",)),
    ("edges", ("src", "dst")),
)


def cells(arrays, names, i):
    out = []
    for key, _ in COLUMNS:
        if key not in arrays:
            continue
        v = arrays[key][i]
        if key == "pdg":
            out.append(names[int(v)])
        elif key == "pmu":
            out.extend(float(c) for c in v)
        elif key in ("color", "edges"):
            out.extend(int(c) for c in v)
        elif key == "final":
            out.append(bool(v))
        else:
            out.append(int(v))
    return out


def match(cell, want):
    if isinstance(want, bool) or isinstance(want, str):
        return cell == str(want)
    try:
        got = float(cell)
    except ValueError:
        return False
    if isinstance(want, int):
        return got == want
    if not math.isfinite(want):
        return cell.lower().lstrip("+") in ("nan", "inf", "-inf") and (got == want or (got != got and want != want))
    return got == float(f"{want:.2E}") or abs(got - want) <= 0.00501 * abs(want) * 1.001


def judge(mon, obj, arrays, n, names):
    heads = [h for key, hs in COLUMNS if key in arrays for h in hs]
    for form in ("plain", "html"):
        if form == "plain":
            text = mon.call("str", str, obj)
            body, stat = plain(text)
            head, body = (body[0], body[1:]) if body else ([], [])
            mon.check(stat.startswith("[") and stat.endswith("]"), "summary line in brackets", got=stat)
            stat = stat[1:-1]
        else:
            text = mon.call("_repr_html_", obj._repr_html_)
            p = Html()
            p.feed(text)
            head, body = (p.rows[0], p.rows[1:]) if p.rows else ([], [])
            stat = p.tail.strip()
            mon.obs("html-tables")
        mon.obs("tables")
        nums = re.findall(r"\d+", stat)
        mon.check(nums == [str(n), str(len(heads))] and "particles" in stat and "attributes" in stat, "summary counts", got=stat, n=n, attributes=len(heads))
        if n == 0:
            mon.obs("empty-tables")
        if not heads:
            continue
        if n or head:
            mon.check(head == heads, "columns", got=head, want=heads, form=form)
        if n > LIMIT:
            show = list(range(SHOWN)) + [None] + list(range(n - SHOWN, n))
            mon.obs("elided")
            mon.obs("just-over-limit", int(n == LIMIT + 1))
        else:
            show = list(range(n))
            mon.obs("at-limit", int(n == LIMIT))
        mon.check(len(body) == len(show), "rows shown", got=len(body), want=len(show), n=n, form=form)
        for row, i in zip(body, show):
            if i is None:
                mon.check(len(row) == len(heads) and set(row) == {"..."}, "elided row", got=row)
                continue
            want = cells(arrays, names, i)
            mon.check(len(row) == len(want) and all(match(c, w) for c, w in zip(row, want)), f"row of particle {i}", got=row, want=want, n=n, form=form)
            mon.obs("rows-read")


def build(arrays, edges):
    import graphicle as gcl

    cls = dict(pdg=gcl.PdgArray, pmu=gcl.MomentumArray, color=gcl.ColorArray, helicity=gcl.HelicityArray, status=gcl.StatusArray, final=gcl.MaskArray)
    parts = gcl.ParticleSet(**{k: cls[k](v) for k, v in arrays.items() if k != "edges"})
    if not edges:
        return parts
    return gcl.Graphicle(particles=parts, adj=gcl.AdjacencyList(arrays["edges"]))


_N = {}


def g_tables(mon, rng, i):
    import graphicle as gcl

    if not _N:
        _N.update({c: nm for c, nm in event.name_table().items() if nm and "  " not in nm and nm == nm.strip()})
    names = _N
    n = int([0, 1, 2, 5, 9, 10, 11, 30, 59, 60, 61, 62, 66, 120, 300][i % 15])
    if i % 15 == 14 and rng.random() < 0.7:
        n = int(rng.choice([999, 1000, 1001, 3000, 10_000, 12_345, 20_001]))
        mon.obs("thousands")
    codes = np.array(sorted(names))
    common = np.array([c for c in (21, 1, -1, 2, -2, 5, -5, 6, 24, -24, 11, -11, 22, 211, -211, 111, 321) if c in names])
    pdg = rng.choice(common, n) if rng.random() < 0.6 else rng.choice(codes, n)
    mags = 10.0 ** rng.uniform(-6, 6, (n, 4))
    pmu = mags * rng.choice([-1, 1], (n, 4))
    if n and rng.random() < 0.3:
        pmu[rng.random((n, 4)) < 0.2] = 0.0
    if n and rng.random() < 0.3:
        pmu = np.round(pmu % 1000)
    if n and rng.random() < 0.2:
        odd = rng.random((n, 4)) < 0.3
        odd[rng.integers(n), rng.integers(4)] = True
        pmu[odd] = rng.choice([np.nan, np.inf, -np.inf], int(odd.sum()))
        mon.obs("undefined-cells", int(odd.sum()))
    uniq = rng.permutation(np.arange(-n, n))[:n] if n else np.zeros(0, int)
    arrays = dict(
        pdg=pdg, pmu=pmu, color=np.column_stack([uniq + 500, rng.integers(0, 999, n)]), helicity=rng.permutation(uniq),
        status=rng.permutation(uniq) * (3 if n < 10_000 else 1), final=rng.random(n) < 0.5,
        edges=np.column_stack([rng.permutation(n) * -2 - 1, rng.permutation(n) + 1]) if n else np.zeros((0, 2), int),
    )
    full = arrays
    if rng.random() < 0.7:
        keys = list(arrays)
        keep = [k for k in keys if rng.random() < 0.5] or [keys[rng.integers(len(keys))]]
        if rng.random() < 0.2:
            keep = ["edges"]
        arrays = {k: arrays[k] for k in arrays if k in keep}
        mon.obs("partial-columns")
    if n and i % 15 in (3, 9, 14) and rng.random() < 0.7:
        few = [["pmu", "final"], ["status"], ["final"], ["color"], ["helicity"], ["pmu"], ["color", "status"]][rng.integers(7)]
        arrays = {k: full[k] for k in full if k in few}
        mon.obs("no-names-no-edges")
    edges = "edges" in arrays
    wrap = not edges and n > 0 and rng.random() < 0.5
    if n == 0:
        arrays = {}
    obj = build(arrays, edges and n > 0)
    if wrap:  # an event without its topology
        obj = gcl.Graphicle(particles=obj)
        mon.obs("event-without-edges")
        mon.obs("event-without-edges-or-names", int("pdg" not in arrays))
    mon.obs("with-edges", int(edges))
    mon.obs("no-particle-data", int(edges and set(arrays) == {"edges"}))
    judge(mon, obj, arrays, n, names)
    judge(mon, obj, arrays, n, names)  # rendering does not consume anything
    # a selection shows the selected rows
    if n:
        pick = rng.random(n) < 0.8
        if pick.any():
            sub = obj[pick]
            judge(mon, sub, {k: np.asarray(v)[pick] for k, v in arrays.items()}, int(pick.sum()), names)
    mon.sig(n, sorted(arrays), *[np.asarray(v) for v in arrays.values()], nontrivial=n > 0)
    mon.sample(dict(n=n, columns=sorted(arrays)))


def g_event(mon, rng, i):
    ev = event.Event(rng)
    arrays = {k: np.asarray(getattr(ev, k)) for k in ("pdg", "pmu", "color", "helicity", "status", "final", "edges")}
    g = ev.graph()
    judge(mon, g, arrays, ev.n, event.name_table())
    del arrays["edges"]
    judge(mon, g.particles, arrays, ev.n, event.name_table())
    mon.obs("with-edges")
    mon.sig(arrays["pmu"])


def tree_lines(group, depth=0):
    import graphicle as gcl

    out = []
    for k, v in group.items():
        out.append((depth, k))
        if isinstance(v, gcl.MaskGroup):
            out.extend(tree_lines(v, depth + 1))
    return out


def parse_tree(text):
    lines = [ln.rstrip() for ln in text.split("\n") if ln.strip()]
    out = []
    for ln in lines[1:]:
        m = re.match(r"^((?:│   |    )*)(?:├── |└── )(.*)$", ln)
        if not m:
            return lines[0], None
        out.append((len(m.group(1)) // 4, m.group(2)))
    return lines[0], out


def judge_tree(mon, mg):
    want = tree_lines(mg)
    text = mon.call("str(MaskGroup)", str, mg)
    head, got = parse_tree(text)
    agg = str(mg.agg_op).split(".")[-1].upper()
    mon.check(agg in head.upper() and "MaskGroup" in head, "tree heading", got=head, agg=agg)
    mon.check(got == want, "printed tree", got=got, want=want, text=text)
    rep = mon.call("repr(MaskGroup)", repr, mg)
    tops = [k for d, k in want if d == 0]
    mon.check(re.findall(r'"([^"]*)"', rep) == tops and agg in rep.upper(), "mask group repr", got=rep, want=tops)
    mon.obs("trees")
    mon.obs("tree-names", len(want))
    mon.obs("tree-depth>=3", int(max([d for d, _ in want], default=0) >= 2))
    return want


def g_tree(mon, rng, i):
    import graphicle as gcl

    n = int(rng.integers(0, 5))
    words = ["t", "t~", "W+", "b:0", "b:1", "nu(mu)", "latent", "jet [lead]", "[bold]x", "J/psi[3S1(8)]", "a b", "g:smile:", "x/y", "K*(892)0", "0"]

    if rng.random() < 0.4:
        words += [f"{w}:{'hadron cluster ' * int(k)}end" for w, k in zip(words, rng.integers(1, 25, 6))]
        mon.obs("long-names")

    def grow(depth):
        kids = {}
        some = rng.choice(words, int(rng.integers(1, 5)), replace=False).tolist()
        if rng.random() < 0.08:  # broad groups
            some = [f"{words[j % len(words)]}:{j}" for j in range(int(rng.choice([9, 21, 40, 130])))]
            mon.obs("broad-trees")
            depth = 0
        for w in some:
            w = str(w)
            if depth and rng.random() < 0.5:
                kids[w] = gcl.MaskGroup(grow(depth - 1), agg_op=["or", "and", "none"][rng.integers(3)])
            else:
                kids[w] = gcl.MaskArray(rng.random(n) < 0.5)
        return kids

    mg = gcl.MaskGroup(grow(int(rng.integers(0, 5))), agg_op=["or", "and", "none"][rng.integers(3)])
    if rng.random() < 0.15:  # deep groups
        for j in range(int(rng.integers(5, 30))):
            mg = gcl.MaskGroup({f"level:{j}": mg, words[j % len(words)]: gcl.MaskArray(rng.random(n) < 0.5)}, agg_op="or")
        mon.obs("deep-trees")
    kept = os.environ.get("COLUMNS")
    if rng.random() < 0.5:
        os.environ["COLUMNS"] = str(rng.choice([20, 40, 60, 132]))
        mon.obs("narrow-consoles")
    try:
        want = judge_tree(mon, mg)
    finally:
        os.environ.pop("COLUMNS", None)
        if kept is not None:
            os.environ["COLUMNS"] = kept
    mon.sig(want)
    mon.sample(want[:6])
    if i % 4 == 0:
        ev = event.Event(rng)
        hier = mon.call("hierarchy", gcl.select.hierarchy, ev.graph())
        judge_tree(mon, hier)


def g_repr(mon, rng, i):
    import graphicle as gcl

    n = int(rng.choice([0, 1, 2, 5, 14]))
    arrays = dict(
        pdg=rng.integers(-30, 30, n), pmu=np.round(rng.normal(size=(n, 4)) * 100, 2), color=rng.integers(0, 600, (n, 2)),
        helicity=rng.integers(-1, 2, n), status=rng.integers(-90, 90, n), final=rng.random(n) < 0.5,
        edges=rng.integers(-50, 50, (n, 2)),
    )
    cls = dict(pdg=gcl.PdgArray, pmu=gcl.MomentumArray, color=gcl.ColorArray, helicity=gcl.HelicityArray, status=gcl.StatusArray, final=gcl.MaskArray, edges=gcl.AdjacencyList)
    objs = {}
    for key, c in cls.items():
        obj = objs[key] = c(arrays[key])
        text = mon.call("repr", repr, obj)
        mon.check(text.startswith(c.__name__ + "(") and text.endswith(")"), "repr names the class", got=text)
        mon.check(" ".join(f"dtype={obj.data.dtype}".split()) in " ".join(text.split()), "repr states the dtype", got=text)
        body = text[len(c.__name__) + 1 : text.rindex("dtype=")]
        tok = re.findall(r"True|False|[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?", body)
        vals = [t == "True" if t in ("True", "False") else float(t) for t in tok]
        mon.close(np.array(vals, float), np.asarray(arrays[key], float).reshape(-1), f"repr of {c.__name__} shows its values", rtol=1e-7, atol=1e-6)
        mon.obs("reprs")
    parts = gcl.ParticleSet(**{k: objs[k] for k in ("pdg", "pmu", "color", "helicity", "status", "final")})
    text = mon.call("repr", repr, parts)
    mon.check(text.startswith("ParticleSet("), "repr of a particle set", got=text[:80])
    at = -1
    for k in ("pdg", "pmu", "color", "helicity", "status", "final"):
        nxt = text.find(repr(objs[k]), at + 1)
        mon.check(nxt > at, "repr of a particle set shows its components in order", missing=k)
        at = nxt
    mon.sig(*arrays.values(), nontrivial=n > 0)


GROUPS = [("tables", g_tables, 150), ("event", g_event, 20), ("tree", g_tree, 100), ("repr", g_repr, 40)]
