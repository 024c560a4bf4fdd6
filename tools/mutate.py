#!/usr/bin/env python3
"""Mutation survey of the monitors (development aid, registered nowhere).

mutate.py OUT.jsonl [--file F] [--func REGEX] [--limit N] [--seed S] [--jobs J]

Changes one expression of a copy of the repository at a time, runs the monitors
which ought to notice, and for the survivors the repository's tests.
"""
import argparse
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
MAP = [
    (r"calculate:weighted_centroid|calculate:resultant_coords|calculate:combined_mass|calculate:aggregate", "11 29"),
    (r"calculate:_rapidity|calculate:_root", "06 10 29 09"),
    (r"calculate:_delta_R", "09 13 29"),
    (r"calculate:_clust|calculate:cluster_coeff|calculate:_thread_scope", "13 29"),
    (r"calculate:.*(thrust|spherocity|c_param|_three_norm|_angles)", "10 29"),
    (r"calculate:.*jaccard", "12"),
    (r"calculate:_assignment", "22 29"),
    (r"data:_array_ufunc", "07 01 03"),
    (r"data:_array_(eq|ne)", "01 07"),
    (r"data:_array_repr|data:_table_repr|rich|__str__|__repr__|_table_|_repr_html", "27"),
    (r"data:(_map_invert|_reorder|_row_contig|_array_field|_truthy|_array_interface)", "01 06 29 02"),
    (r"data:_mask_(eq|neq|compat)", "04"),
    (r"data:_mask_dict|data:_maskgroup_equal", "05 04"),
    (r"data:MaskArray.__(and|or|invert|eq|ne)__", "04"),
    (r"data:MaskArray", "01 02 03 04 27"),
    (r"data:MaskGroup.(__and|__or|__inv|__eq|__ne|bitwise|data)", "04 05"),
    (r"data:MaskGroup", "05 04 02 03"),
    (r"data:PdgArray.(from_name|mask|__get|name|latex|charge|mass|quark|width|iso|g_par|space)", "19"),
    (r"data:MomentumArray.from_spher", "26"),
    (r"data:MomentumArray.(_clear|data|__array_ufunc)", "07 03 29"),
    (r"data:MomentumArray.(shift)", "08 07 03"),
    (r"data:MomentumArray.delta_R", "09 29"),
    (r"data:MomentumArray.(_|x|y|z|energy|pt|eta|rap|phi|theta|mass)", "06 07 01 02 03"),
    (r"data:StatusArray.(in_range|hard_mask)|Graphicle.hard_mask", "20"),
    (r"data:(_dsets|_nonempty|_composite)", "02 03 01"),
    (r"from_lhe|from_event", "28"),
    (r"data:AdjacencyList", "14 15 01 02 03 07"),
    (r"data:(Graphicle|ParticleSet)", "01 02 03 28 14"),
    (r"data:", "01 02 03 07"),
    (r"matrix:", "24"),
    (r"select:(_param|fastjet)", "21"),
    (r"select:(find_vertex|hadron_vert)", "18"),
    (r"select:(vertex_desc|edge_desc)", "15"),
    (r"select:(_hadron|_partition|partition)", "17"),
    (r"select:(_hard|_flat|_pdgs|hard_desc|hierarchy|_make|_leaf|leaf)", "16 17"),
    (r"select:(any_overlap|centroid|color)", "25 17"),
    (r"select:clusters", "17"),
    (r"select:(arg_closest|monte)", "22"),
    (r"transform:", "23"),
]


def props(where):
    for rx, ps in MAP:
        if re.search(rx, where):
            return ["P" + p for p in ps.split()]
    return []


class Gen(ast.NodeVisitor):
    def __init__(self, src, mod):
        self.src, self.mod, self.q, self.out = src, mod, [], []
        self.lines = src.split("\n")
        self.off = [0]
        for ln in self.lines:
            self.off.append(self.off[-1] + len(ln.encode()) + 1)

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.span(n)
        return self.src.encode()[a:b].decode()

    def add(self, n, new, kind):
        a, b = self.span(n)
        self.out.append(dict(file=self.mod, func=".".join(self.q) or "<module>", line=n.lineno, a=a, b=b,
                             old=self.text(n), new=new, kind=kind))

    def visit_FunctionDef(self, n):
        self.q.append(n.name)
        body = n.body
        if isinstance(body[0], ast.Expr) and isinstance(getattr(body[0], "value", None), ast.Constant):
            body = body[1:]
        for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
            self.visit(d)
        for s in body:
            self.visit(s)
        self.q.pop()

    def visit_ClassDef(self, n):
        self.q.append(n.name)
        for s in n.body:
            if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                self.visit(s)
        self.q.pop()

    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)

    def visit_Import(self, n): pass
    visit_ImportFrom = visit_Import
    def visit_JoinedStr(self, n): pass

    def visit_Raise(self, n):
        self.add(n, "pass", "raise->pass")

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            m = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="],
                 ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
            for o in m[type(n.ops[0])]:
                self.add(n, f"({self.text(n.left)} {o} {self.text(n.comparators[0])})", "cmp")
        else:
            m = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}
            for j, o in enumerate(n.ops):
                ops = [m[type(q)] for q in n.ops]
                ops[j] = {"<": "<=", "<=": "<", ">": ">=", ">=": ">"}[ops[j]]
                t = self.text(n.left) + "".join(f" {o2} {self.text(c)}" for o2, c in zip(ops, n.comparators))
                self.add(n, "(" + t + ")", "cmp")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        m = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.BitAnd: ["|"], ast.BitOr: ["&"], ast.Pow: ["*"],
             ast.Mod: ["*"], ast.FloorDiv: ["/"], ast.MatMult: ["*"]}
        L, R = self.text(n.left), self.text(n.right)
        for o in m.get(type(n.op), []):
            self.add(n, f"(({L}) {o} ({R}))", "binop")
        if not isinstance(n.op, (ast.BitOr, ast.Mod)):
            self.add(n, f"({L})", "left")
            self.add(n, f"({R})", "right")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        self.add(n, f"({self.text(n.operand)})", "unary")
        if not isinstance(n.operand, ast.Constant):
            self.visit(n.operand)

    def visit_BoolOp(self, n):
        o = " or " if isinstance(n.op, ast.And) else " and "
        self.add(n, "(" + o.join(f"({self.text(v)})" for v in n.values) + ")", "boolop")
        for j in range(len(n.values)):
            o2 = " and " if isinstance(n.op, ast.And) else " or "
            self.add(n, "(" + o2.join(f"({self.text(v)})" for k, v in enumerate(n.values) if k != j) + ")", "boolop-drop")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.add(n, str(not v), "const")
        elif isinstance(v, int):
            for w in {v + 1, v - 1, -v} - {v}:
                self.add(n, f"({w})", "const")
        elif isinstance(v, float):
            for w in {v * 1.5, v + 1.0, 0.0} - {v}:
                self.add(n, repr(w), "const")
        elif isinstance(v, str) and 0 < len(v) < 14 and not v.startswith("<"):
            self.add(n, repr(v + "_"), "str")

    def visit_Call(self, n):
        t = self.text(n.func)
        if t.split(".")[-1] in ("copy", "abs", "ascontiguousarray", "absolute", "asarray", "unique", "tuple", "list", "sorted", "reversed", "bool_", "sqrt", "sort", "ravel", "asfortranarray", "astype", "flatten", "rint", "wrap"):
            if n.args:
                self.add(n, f"({self.text(n.args[0])})", "uncall")
            elif isinstance(n.func, ast.Attribute):
                self.add(n, f"({self.text(n.func.value)})", "uncall")
        for k in n.keywords:
            if k.arg:
                ks = [f"{q.arg}={self.text(q.value)}" if q.arg else f"**{self.text(q.value)}" for q in n.keywords if q is not k]
                self.add(n, f"{t}({', '.join([self.text(a) for a in n.args] + ks)})", "kw-drop")
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
            a = [self.text(x) for x in n.args]
            a[0], a[1] = a[1], a[0]
            ks = [f"{q.arg}={self.text(q.value)}" if q.arg else f"**{self.text(q.value)}" for q in n.keywords]
            self.add(n, f"{t}({', '.join(a + ks)})", "swap-args")
        swap = {"minimum": "maximum", "maximum": "minimum", "argmin": "argmax", "argmax": "argmin", "min": "max", "max": "min", "sin": "cos",
                "cos": "sin", "any": "all", "all": "any", "less": "greater", "bitwise_and": "bitwise_or", "bitwise_or": "bitwise_and", "sum": "max", "mean": "max", "floor": "ceil"}
        if isinstance(n.func, ast.Attribute) and n.func.attr in swap:
            a, b = self.span(n.func)
            self.out.append(dict(file=self.mod, func=".".join(self.q), line=n.lineno, a=a, b=b, old=t,
                                 new=f"{self.text(n.func.value)}.{swap[n.func.attr]}", kind="func-swap"))
        self.generic_visit(n)

    def visit_Subscript(self, n):
        if isinstance(n.slice, ast.Slice):
            s = n.slice
            for f in ("lower", "upper", "step"):
                if getattr(s, f) is not None:
                    parts = {g: (self.text(getattr(s, g)) if getattr(s, g) is not None else "") for g in ("lower", "upper", "step")}
                    parts[f] = ""
                    self.add(n, f"{self.text(n.value)}[{parts['lower']}:{parts['upper']}:{parts['step']}]", "slice")
        self.generic_visit(n)

    def visit_If(self, n):
        t = self.text(n.test)
        self.add(n.test, f"(not ({t}))", "if-not")
        self.add(n.test, f"(False and ({t}))", "if-false")
        self.add(n.test, f"(True or ({t}))", "if-true")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, f"({self.text(n.body)})", "ifexp")
        self.add(n, f"({self.text(n.orelse)})", "ifexp")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, "pass", "del-aug")
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Call):
            self.add(n, "pass", "del-expr")
        self.generic_visit(n)

    def visit_Assign(self, n):
        if isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            self.add(n, "pass", "del-assign")
        self.generic_visit(n)

    def visit_For(self, n):
        self.generic_visit(n)

    def visit_Continue(self, n):
        self.add(n, "break", "cont->break")

    def visit_Break(self, n):
        self.add(n, "continue", "break->cont")


def sh(cmd, cwd, env, timeout):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PATH="/opt/venv/bin:/usr/bin:/bin", **env)
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def run(m, root, repo):
    d = f"{root}/{m['id']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        for name in ("graphicle", "tests"):
            shutil.copytree(f"{repo}/{name}", f"{d}/{name}", symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
        for f in ("pyproject.toml", "setup.py", "setup.cfg"):
            if os.path.exists(f"{repo}/{f}"):
                shutil.copy(f"{repo}/{f}", d)
        f = f"{d}/graphicle/{m['file']}.py"
        b = open(f, "rb").read()
        b = b[: m["a"]] + m["new"].encode() + b[m["b"]:]
        try:
            compile(b, f, "exec")
        except SyntaxError:
            return dict(m, verdict="syntax")
        open(f, "wb").write(b)
        res = {}
        for p in m["props"]:
            rc, out = sh(f"python3 {HERE}/check.py {p}", HERE, dict(MON_REPO=d), 600)
            if rc == 1 and f"VIOLATION property={p}" in out:
                return dict(m, verdict="killed", by=p, tried=res)
            res[p] = rc
            if rc == 2 and "import" in out.lower():
                return dict(m, verdict="noimport", out=out[-300:])
            if rc:
                res[p] = f"{rc}: {out[-200:]}"
        rc, out = sh(f"{PY} -m pytest -q -x -p no:cacheprovider --timeout=300 tests", d, dict(NUMBA_CACHE_DIR=d + "/nb"), 600)
        return dict(m, verdict="tests" if rc else "SURVIVED", tried=res)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--file", default="calculate data matrix select transform")
    ap.add_argument("--func", default=".")
    ap.add_argument("--limit", type=int, default=10**9)
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--jobs", type=int, default=6)
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--count", action="store_true")
    a = ap.parse_args()
    muts = []
    for mod in a.file.split():
        src = open(f"{a.repo}/graphicle/{mod}.py").read()
        g = Gen(src, mod)
        g.visit(ast.parse(src))
        muts += g.out
    seen, keep = set(), []
    for m in muts:
        m["props"] = props(f"{m['file']}:{m['func']}")
        k = (m["file"], m["a"], m["b"], m["new"])
        if k in seen or not re.search(a.func, f"{m['file']}:{m['func']}") or not m["props"] or m["old"] == m["new"]:
            continue
        seen.add(k)
        keep.append(m)
    random.Random(a.seed).shuffle(keep)
    keep = keep[: a.limit]
    print(len(keep), "mutants")
    if a.count:
        return
    done = set()
    if os.path.exists(a.out):
        for ln in open(a.out):
            r = json.loads(ln)
            done.add((r["file"], r["a"], r["b"], r["new"]))
    root = "/tmp/mutants"
    lock = threading.Lock()
    with ThreadPoolExecutor(a.jobs) as ex, open(a.out, "a") as f:
        def go(m):
            if (m["file"], m["a"], m["b"], m["new"]) in done:
                return
            r = run(m, root, a.repo)
            with lock:
                f.write(json.dumps(r) + "\n")
                f.flush()
        for i, m in enumerate(keep):
            m["id"] = f"m{i}"
        list(ex.map(go, keep))


main()
