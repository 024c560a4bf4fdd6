"""Simulated generator records with known ancestry (Pythia conventions)."""
import numpy as np

from . import gens

# (pdg, children) nested; children=None means outgoing
TEMPLATES = {
    "ttbar": [
        (6, [(5, None), (24, "W+")]),
        (-6, [(-5, None), (-24, "W-")]),
    ],
    "ttbar_jet": [
        (6, [(24, "W+"), (5, None)]),
        (-6, [(-24, "W-"), (-5, None)]),
        (21, None),
    ],
    "w_jets": [(24, "W+"), (21, None), (21, None)],
    "z_jet": [(23, "Z"), (1, None)],
    "dijet": [(21, None), (21, None)],
    "qqbar": [(2, None), (-2, None)],
    "qgjets": [(2, None), (21, None), (21, None)],
    "ww": [(24, "W+"), (-24, "W-")],
    "higgs4l": [(25, [(23, [(11, None), (-11, None)]), (23, [(13, None), (-13, None)])])],
    "hbb": [(25, [(5, None), (-5, None)])],
    "deep": [(32, [(6, [(5, None), (24, "W+")]), (-6, [(-5, None), (-24, "W-")])])],
    "tw": [(6, [(5, None), (24, "W+")]), (-24, "W-")],
}
# rarer records, by name only
EXTRA = {
    "crowd": [(21, None)] * 13 + [(1, None), (-1, None)],
    "swarm": [(32, [(5, None)] * 11 + [(21, None)]), (21, None)],
    "chain": [(32, [(33, [(35, [(25, [(23, "Z"), (23, "Z")]), (21, None)]), (1, None)]), (11, None)])],
    "similar": [(25, [(25, [(5, None), (-5, None)]), (25, [(25, "Z"), (23, "Z")])])],
}
W_DECAY = [(2, -1), (4, -3), (-11, 12), (-13, 14), (-15, 16)]
Z_DECAY = [(11, -11), (13, -13), (1, -1), (5, -5)]
COLOURED = {1, 2, 3, 4, 5, 6, 21}


class Row:
    __slots__ = ("pdg", "status", "src", "dst", "final", "col", "acol", "p", "hel", "dir")

    def __init__(self, pdg, status, src, p, col=0, acol=0, hel=9):
        self.pdg, self.status, self.src, self.p = pdg, status, src, p
        self.dst, self.final, self.col, self.acol, self.hel = None, False, col, acol, hel


class Event:
    """rows, plus arrays: pdg status edges final color helicity pmu."""

    def __init__(self, rng, template=None, shower=True, ue=True, shuffle=None,
                 hadronise=True, max_branch=3, isr=True):
        self.rng = rng
        self.rows = []
        self._v = 0
        self._c = 500
        names = sorted(TEMPLATES)
        if template is None and rng.random() < 0.07:
            names = sorted(EXTRA)
        self.template = template or names[rng.integers(len(names))]
        self.shower_on = shower
        self.max_branch = max_branch
        self.open = []  # coloured partons awaiting hadronisation
        self._build(ue, hadronise, isr)
        self._close(shuffle)

    # -- helpers -------------------------------------------------------
    def vtx(self):
        self._v += 1
        return self._v

    def colour(self):
        self._c += 1
        return self._c

    def momentum(self, near=None, scale=30.0):
        rng = self.rng
        if near is None:
            eta, phi = rng.uniform(-2.5, 2.5), rng.uniform(-np.pi, np.pi)
        else:
            eta = near[0] + rng.normal(0, 0.5)
            phi = near[1] + rng.normal(0, 0.5)
        pt = scale * 10.0 ** rng.uniform(-1.0, 0.5)
        m = rng.choice([0.0, 0.14, 1.0])
        z = pt * np.sinh(eta)
        p = [pt * np.cos(phi), pt * np.sin(phi), z,
             np.sqrt(pt * pt + z * z + m * m)]
        return np.array(p), (eta, phi)

    def add(self, pdg, status, src, near=None, scale=30.0, col=0, acol=0):
        p, d = self.momentum(near, scale)
        row = Row(int(pdg), int(status), src, p, col, acol,
                  int(self.rng.choice([-1, 0, 1, 9])))
        row.dir = d
        self.rows.append(row)
        return row

    def coloured(self, pdg):
        return abs(pdg) in COLOURED

    # -- building ------------------------------------------------------
    def _build(self, ue, hadronise, isr):
        rng = self.rng
        root = 0
        beam_v = [self.vtx(), self.vtx()]
        hard_v = self.vtx()
        for v in beam_v:
            r = self.add(2212, -12, root)
            r.dst = v
        pend = []
        for i, v in enumerate(beam_v):
            pdg = int(rng.choice([21, 2, 1, -1]))
            src = v
            if isr and rng.random() < 0.5:
                r = self.add(pdg, -41, src, col=self.colour(), acol=0)
                mid = self.vtx()
                r.dst = mid
                g = self.add(21, -43, mid, scale=5.0, col=self.colour(), acol=self.colour())
                pend.append(g)
                src = mid
            r = self.add(pdg, -21, src, col=self.colour(), acol=0)
            r.dst = hard_v
        spec = TEMPLATES.get(self.template) or EXTRA[self.template]
        self._hard(spec, hard_v, {})
        if ue:
            for _ in range(int(rng.integers(0, 4))):
                v = beam_v[int(rng.integers(2))]
                pend.append(self.add(rng.choice([21, 1, -2, 3]), rng.choice([-33, -31]), v, scale=5.0,
                                     col=self.colour(), acol=self.colour()))
            for v in beam_v:
                pend.append(self.add(rng.choice([2101, 2, 1]), -63, v, scale=3.0,
                                     col=self.colour(), acol=0))
        for r in pend:
            self._shower(r, 1)
        if hadronise:
            self._hadronise()
        for r in self.open:  # parton level record
            r.final = True
            r.status = abs(r.status)

    def _decay(self, tag):
        rng = self.rng
        if tag == "W+":
            return [(p, None) for p in W_DECAY[rng.integers(len(W_DECAY))]]
        if tag == "W-":
            return [(-p, None) for p in W_DECAY[rng.integers(len(W_DECAY))]]
        if tag == "Z":
            return [(p, None) for p in Z_DECAY[rng.integers(len(Z_DECAY))]]
        return tag

    def _hard(self, spec, src, flow, col_in=(0, 0)):
        """Adds the particles of ``spec`` leaving vertex ``src``."""
        rng = self.rng
        todo = []
        # colour flow: quark pairs of a colour-neutral parent connect
        cols = self._colours([p for p, _ in spec], col_in)
        order = list(range(len(spec)))
        made = []
        for i in order:
            pdg, kids = spec[i]
            kids = self._decay(kids)
            status = -22 if kids else -23
            r = self.add(pdg, status, src, scale=80.0, col=cols[i][0], acol=cols[i][1])
            made.append((r, kids))
        for r, kids in made:
            if kids:
                last = r
                for _ in range(int(rng.integers(0, 4))) if self.shower_on else ():
                    v = self.vtx()
                    last.dst = v
                    cp = self.add(r.pdg, int(rng.choice([-44, -51, -52])), v,
                                  near=last.dir, scale=80.0, col=r.col, acol=r.acol)
                    if self.coloured(r.pdg) and rng.random() < 0.5:
                        g = self.add(21, -51, v, near=last.dir, scale=4.0,
                                     col=r.col or self.colour(), acol=self.colour())
                        self._shower(g, 1)
                    last = cp
                v = self.vtx()
                last.dst = v
                self._hard(kids, v, flow, (r.col, r.acol))
            else:
                todo.append(r)
        for r in todo:
            self._shower(r, 0)

    def _colours(self, pdgs, col_in):
        """A colour-conserving flow for the particles leaving a vertex."""
        out = [(0, 0)] * len(pdgs)
        q = [i for i, p in enumerate(pdgs) if p in (1, 2, 3, 4, 5, 6)]
        qb = [i for i, p in enumerate(pdgs) if -p in (1, 2, 3, 4, 5, 6)]
        g = [i for i, p in enumerate(pdgs) if p == 21]
        if col_in == (0, 0):
            rng = self.rng
            if len(q) == 1 and len(qb) == 1 and self._neutral_parent:
                c = self.colour()
                out[q[0]], out[qb[0]] = (c, 0), (0, c)
            else:
                for i in q:
                    out[i] = (self.colour(), 0)
                for i in qb:
                    out[i] = (0, self.colour())
            for i in g:
                out[i] = (self.colour(), self.colour())
            return out
        for i in q:
            out[i] = (col_in[0] or self.colour(), 0)
        for i in qb:
            out[i] = (0, col_in[1] or self.colour())
        for i in g:
            out[i] = (self.colour(), self.colour())
        return out

    @property
    def _neutral_parent(self):
        # at the hard vertex (3 or so rows in) partons connect to the beams
        hard = [r for r in self.rows if r.status == -22]
        return len(hard) > 0

    def _shower(self, row, depth):
        rng = self.rng
        if not self.coloured(row.pdg) and abs(row.pdg) != 2101:
            charged = abs(row.pdg) in (11, 13, 15)
            if self.shower_on and charged and rng.random() < 0.4 and depth < 2:
                v = self.vtx()
                row.dst = v
                row.status = -abs(row.status)
                lep = self.add(row.pdg, 51, v, near=row.dir, scale=20.0)
                pho = self.add(22, 51, v, near=row.dir, scale=2.0)
                lep.final = pho.final = True
                return
            if abs(row.pdg) == 15 and self.shower_on:
                v = self.vtx()
                row.dst = v
                a = self.add(-211 if row.pdg > 0 else 211, 91, v, near=row.dir, scale=10.0)
                b = self.add(16 if row.pdg > 0 else -16, 91, v, near=row.dir, scale=10.0)
                a.final = b.final = True
                return
            row.final = True
            row.status = abs(row.status)
            return
        if not self.shower_on or depth >= self.max_branch or rng.random() < 0.3:
            self.open.append(row)
            return
        v = self.vtx()
        row.dst = v
        row.status = -abs(row.status)
        if rng.random() < 0.25:
            c = self.add(row.pdg, -52, v, near=row.dir, scale=20.0, col=row.col, acol=row.acol)
            self._shower(c, depth + 1)
            return
        new = self.colour()
        a = self.add(row.pdg, -51, v, near=row.dir, scale=20.0, col=new, acol=row.acol)
        b = self.add(21, -51, v, near=row.dir, scale=5.0, col=row.col, acol=new)
        for c in (a, b):
            self._shower(c, depth + 1)

    def _hadronise(self):
        rng = self.rng
        partons = list(self.open)
        self.open = []
        rng.shuffle(partons)
        i = 0
        while i < len(partons):
            k = int(rng.integers(1, 6))
            string = partons[i : i + k]
            i += k
            v = self.vtx()
            for r in string:
                r.dst = v
                r.status = -abs(r.status)
            for _ in range(int(rng.integers(1, 3 + 2 * len(string)))):
                near = string[rng.integers(len(string))].dir if rng.random() < 0.8 else None
                st = int(rng.choice([80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90],
                                    p=[.03, .03, .03, .35, .35, .05, .03, .03, .03, .03, .04]))
                pdg = int(rng.choice([211, -211, 111, 321, 2212, 22, 130]))
                h = self.add(pdg, st, v, near=near, scale=3.0)
                if pdg == 111 or rng.random() < 0.15:
                    h.status = -st
                    dv = self.vtx()
                    h.dst = dv
                    for _ in range(int(rng.integers(1, 4))):
                        d = self.add(22, 91, dv, near=h.dir, scale=1.0)
                        d.final = True
                else:
                    h.final = True

    def _close(self, shuffle):
        rng = self.rng
        n = len(self.rows)
        ids = rng.permutation(np.arange(1, 2 * (self._v + n) + 2))
        remap, k = {0: 0}, 0
        for r in self.rows:
            if r.src not in remap:
                remap[r.src] = -int(ids[k])
                k += 1
        edges = []
        for r in self.rows:
            if r.dst is None:
                dst = int(ids[k])
                k += 1
            else:
                if r.dst not in remap:
                    remap[r.dst] = -int(ids[k])
                    k += 1
                dst = remap[r.dst]
            edges.append((remap[r.src], dst))
        order = np.arange(n)
        if shuffle is None:
            shuffle = rng.random() < 0.3
        if shuffle:
            order = rng.permutation(n)
        rows = [self.rows[i] for i in order]
        self.n = n
        self.pdg = np.array([r.pdg for r in rows], np.int32)
        self.status = np.array([r.status for r in rows], np.int16)
        self.edges = np.array([edges[i] for i in order], np.int32).reshape(-1, 2)
        self.final = np.array([r.final for r in rows], bool)
        self.color = np.array([(r.col, r.acol) for r in rows], np.int32).reshape(-1, 2)
        self.helicity = np.array([r.hel for r in rows], np.int16)
        self.pmu = np.array([r.p for r in rows]).reshape(-1, 4)
        self.shuffled = bool(shuffle)

    def arrays(self):
        return dict(pdg=self.pdg, pmu=self.pmu, color=self.color,
                    helicity=self.helicity, status=self.status,
                    final=self.final, edges=self.edges)

    def graph(self):
        import graphicle as gcl

        return gcl.Graphicle.from_numpy(**{k: v.copy() for k, v in self.arrays().items()})

    # -- oracle --------------------------------------------------------
    def desc_rows(self, row):
        """Row itself and everything reachable from its end point."""
        rows = gens.reach_rows(self.edges, [int(self.edges[row, 1])])
        rows.add(int(row))
        return rows

    def mask(self, rows):
        out = np.zeros(self.n, bool)
        out[sorted(rows)] = True
        return out

    def hard_rows(self):
        st = np.abs(self.status.astype(int))
        return [i for i in range(self.n) if st[i] in (22, 23, 24)]

    def hard_names(self, rows, name_of):
        names = [name_of[int(self.pdg[i])] for i in rows]
        out, seen = [], {}
        for nm in names:
            if names.count(nm) > 1:
                out.append(f"{nm}:{seen.get(nm, 0)}")
                seen[nm] = seen.get(nm, 0) + 1
            else:
                out.append(nm)
        return out

    def hard_parents(self):
        """row -> closest hard ancestor row (or None), and descendant sets."""
        rows = self.hard_rows()
        desc = {i: self.desc_rows(i) for i in rows}
        parent = {}
        for c in rows:
            anc = [p for p in rows if p != c and c in desc[p]]
            close = [p for p in anc if not any(q != p and q in desc[p] for q in anc)]
            assert len(close) <= 1, "ambiguous template"
            parent[c] = close[0] if close else None
        return rows, desc, parent


def mcpid_table():
    """Independent reading of the particle data table (csv module)."""
    import csv
    import os

    import mcpid

    path = os.path.join(os.path.dirname(mcpid.__file__), "_mcpid.csv")
    with open(path, newline="") as f:
        lines = [ln for ln in f if not ln.startswith("#")]
    return list(csv.DictReader(lines))


def name_table():
    return {int(float(r["id"])): r["name"] for r in mcpid_table()}
