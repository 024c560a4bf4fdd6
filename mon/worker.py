"""Child process: runs one property's monitor against the real library."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback
import warnings


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--cap", type=float, default=300.0)
    ap.add_argument("--out", required=True)
    ap.add_argument("--progress", required=True)
    ap.add_argument("--only", default=None)  # group:idx (replay)
    ap.add_argument("--known", default="")
    a = ap.parse_args()
    repo = os.environ.get("MON_REPO", "/repo")
    sys.path.insert(0, repo)
    warnings.simplefilter("ignore")
    t0 = time.time()
    import graphicle

    got = os.path.realpath(os.path.dirname(graphicle.__file__))
    if got != os.path.realpath(os.path.join(repo, "graphicle")):
        raise SystemExit(f"wrong graphicle imported: {got}")
    t_import = time.time() - t0
    from . import core

    mod = importlib.import_module("." + a.pid.lower(), __package__)
    mon = core.Mon(a.pid, [k for k in a.known.split(",") if k])
    mon.seed, mon.only = a.seed, a.only
    res = dict(
        pid=a.pid, seed=a.seed, violations=[], harness=None, groups={}, capped=False
    )
    prog = open(a.progress, "w")

    def mark(group, idx):
        prog.seek(0)
        prog.write(f"{group}:{idx}\n")
        prog.truncate()
        prog.flush()

    t1 = time.time()
    for name, fn, n_quick, *rest in mod.GROUPS:
        once = bool(rest and rest[0] == "once")
        n = n_quick if once else max(1, int(round(n_quick * a.scale)))
        ids = range(n)
        if a.only is not None:
            g, i = a.only.rsplit(":", 1)
            if g != name:
                continue
            ids = [int(i)]
        done = bad = 0
        tg = time.time()
        for i in ids:
            if time.time() - t1 > a.cap:
                res["capped"] = True
                break
            mark(name, i)
            mon.label = name
            rng = core.case_rng(a.seed, name, i)
            try:
                fn(mon, rng, i)
            except core.Inconclusive as exc:
                res["harness"] = f"{name}:{i}: {exc}"
                break
            except core.Violation as exc:
                bad += 1
                res["violations"].append(dict(group=name, idx=i, msg=str(exc)))
            except MemoryError:
                res["harness"] = f"{name}:{i}: out of memory"
                break
            except Exception as exc:  # noqa
                # The case only handles values produced by the library, in the
                # types and shapes its documentation promises: anything else
                # surfaces here, and is a deviation of the observed execution.
                bad += 1
                tb = traceback.format_exc().strip().splitlines()
                res["violations"].append(
                    dict(
                        group=name,
                        idx=i,
                        msg=f"unexpected {type(exc).__name__}: {exc}",
                        trace=tb[-8:],
                    )
                )
            done += 1
            if bad >= 2:
                break
        res["groups"][name] = dict(done=done, planned=n, s=round(time.time() - tg, 2))
        if len(res["violations"]) >= 6 or res["harness"]:
            break
    fin = getattr(mod, "finish", None)
    if fin and a.only is None and not res["violations"] and not res["harness"]:
        mark("finish", 0)
        try:
            fin(mon)
        except core.Violation as exc:
            res["violations"].append(dict(group="finish", idx=0, msg=str(exc)))
    res.update(
        counts=dict(mon.counts),
        states={k: len(v) for k, v in mon.states.items()},
        sigs=[s.hex() for s in mon.sigs],
        samples=mon.samples,
        known=dict(mon.known_hits),
        t_import=round(t_import, 2),
        t_run=round(time.time() - t1, 2),
        required=getattr(mod, "REQUIRED", {}),
        rule=getattr(mod, "RULE", ""),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
    )
    with open(a.out, "w") as f:
        json.dump(res, f)
    prog.close()
    sys.stdout.flush()
    os._exit(0)


main()
