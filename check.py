#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough] : decide one property by symbolic execution of /repo.

Exit 0: held on everything explored.  Exit 1: VIOLATION (confirmed by replaying the solver's
counterexample on the real code).  Exit 2: the check could not decide anything.
"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

import importlib
import json
import multiprocessing as mp
import random
import signal
import subprocess
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
VENV = "/opt/venv"
TRACE = bool(os.environ.get("SX_TB"))
sys.dont_write_bytecode = True
sys.path[:0] = [HERE]
sys.path.append(f"{VENV}/lib/python3.12/site-packages")
sys.setrecursionlimit(5000)

from sx import core, env, harness, ops, xform  # noqa: E402


def load(module):
    env.install()
    sys.meta_path.insert(0, xform.Finder([REPO, os.path.join(REPO, "wiggle_shell"), os.path.join(HERE, "props")]))
    sys.path[:0] = [REPO, os.path.join(REPO, "wiggle_shell")]
    for m in ("wiggle_shell.core.query.query", "wiggle_shell.core.select_gdbms", "wiggle_shell.wiggleshell",
              "core.query.query"):
        try:
            importlib.import_module(m)
        except Exception:   # the harnesses that need it will say so
            if TRACE:
                traceback.print_exc()
    mod = importlib.import_module(f"props.{module}")
    keeper = xform.StateKeeper()
    keeper.snapshot()
    return mod, keeper


ASSUMPTIONS = [
    "bounds: every case is decided for the inputs its bounds describe; cases that are not explored_fully only for the paths walked",
    "characters outside the alphabet (sx/alphabet.py: ASCII and 41 others) behave like some character inside it",
    "integers of unbounded size are not analysed digit by digit once they are written to a text",
    "console, clock and file system behave as documented; no other process uses the DBMS",
    "json, ast.literal_eval, pathlib, os, glob, shutil, datetime are represented by models in sx/env.py, re by sx/sregex.py, methods of str by "
    "sx/strs.py; sampled paths are run on the real ones (traces_validated_against_impl)",
    "values listed in values_fixed were fixed to one model of the path condition",
]


def jsonable(values):
    return [[k, n, v] for k, n, v in values]


def readable(values):
    return {f"{i}:{n}": v for i, (k, n, v) in enumerate(values)}


def run_path(fn, prefix, tier, stats, keeper, want_model, solver_ms, max_dec):
    c = core.Ctx(prefix, stats, max_decisions=max_dec, solver_ms=solver_ms)
    core.set_ctx(c)
    h = harness.Symbolic(tier)
    h.start()
    r = {"status": "ok", "vec": None}
    try:
        ops.call(fn, h)
        # the path condition itself is confirmed satisfiable by the solver
        if not c.sat():
            r["status"] = "infeasible"
        elif want_model is not None:
            m = c.random_model(want_model)
            if m is not None:
                r["vec"] = jsonable(h.vector(m))
                r["obs"] = json.loads(json.dumps(m.value(h.obs), default=repr))
    except harness.Violation as v:
        r = {"status": "violation", "msg": v.msg, "key": v.key, "vec": jsonable(v.values)}
    except core.Infeasible:
        r["status"] = "infeasible"
    except (core.PathLimit, core.Inconclusive, ops.Hang, env.InputExhausted, RecursionError) as e:
        tb = traceback.format_exc()[-2500:] if TRACE else None
        r = {"status": "inconclusive", "msg": f"{type(e).__name__}: {e}", "vec": fallback(c, h), "tb": tb}
        if isinstance(e, ops.Hang):
            r["hang"] = True
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        r = {"status": "error", "msg": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()[-2500:],
             "vec": fallback(c, h)}
    r["checks"], r["solver_checks"] = h.checks, h.solver_checks
    r["reached"] = sorted(h.reached)
    r["ndec"] = len(c.trace)
    core.set_ctx(None)
    keeper.restore()
    alts = []
    for i in range(len(c.trace) - 1, len(prefix) - 1, -1):
        t, k = c.trace[i]
        for j in range(t + 1, k):
            alts.append([x[0] for x in c.trace[:i]] + [j])
    return r, alts


def fallback(c, h):
    try:
        m = c.model()
        return None if m is None else jsonable(h.vector(m))
    except BaseException:
        return None


def worker(conn, mod, keeper, tier, seed, slice_s, solver_ms, max_dec):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    rng = random.Random(seed)
    seen_reach = set()
    while True:
        msg = conn.recv()
        if msg is None:
            return
        ci, prefixes, quota = msg
        case = mod.CASES[ci]
        stats = core.Stats()
        t0 = time.perf_counter()
        stack = prefixes
        out = dict(ci=ci, paths=0, infeasible=0, ndec=0, checks=0, solver_checks=0, reached={}, viol=[], incon=[], samples=[],
                   nincon=0)
        ops.COVER.clear()
        while stack and time.perf_counter() - t0 < slice_s:
            # mostly depth first; some random picks for variety when the tree is large
            k = len(stack) - 1 if rng.random() < 0.7 else rng.randrange(len(stack))
            stack[k], stack[-1] = stack[-1], stack[k]
            prefix = stack.pop()
            want = rng if quota > 0 and (out["paths"] == 0 or rng.random() < 0.15) else None
            r, alts = run_path(case["fn"], prefix, tier, stats, keeper, want, solver_ms, max_dec)
            stack.extend(alts)
            st = r["status"]
            if st == "infeasible":
                out["infeasible"] += 1
                continue
            out["ndec"] += r["ndec"]
            out["checks"] += r.get("checks", 0)
            out["solver_checks"] += r.get("solver_checks", 0)
            for x in r["reached"]:
                out["reached"][x] = out["reached"].get(x, 0) + 1
            if st == "ok":
                out["paths"] += 1
                if want and r["vec"] is not None:
                    quota -= 1
                    out["samples"].append((r["vec"], r["obs"]))
            elif st == "violation":
                out["paths"] += 1
                out["viol"].append(r)
                if len(out["viol"]) >= 4:
                    break
            else:
                out["nincon"] += 1
                if len(out["incon"]) < 5:
                    out["incon"].append(r)
        out["left"] = stack
        out["time"] = time.perf_counter() - t0
        out["stats"] = stats.asdict()
        out["cover"] = sorted(ops.COVER)
        conn.send(out)


class Replayer:
    def __init__(self):
        self.p = None

    def run(self, module, case, tier, values, timeout=20):
        if self.p is None or self.p.poll() is not None:
            e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH="", SX_REPO=REPO)
            self.p = subprocess.Popen([f"{VENV}/bin/python", os.path.join(HERE, "replay.py"), "--serve"],
                                      stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=e, cwd="/")
        req = dict(module=module, case=case, tier=tier, values=values, timeout=timeout)
        try:
            self.p.stdin.write(json.dumps(req) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
            return json.loads(line)
        except (OSError, ValueError) as e:
            self.p = None
            return {"status": "error", "msg": f"replayer: {e}", "obs": []}

    def close(self):
        if self.p is not None:
            self.p.stdin.close()
            self.p.wait(10)


def known(prop):
    """Lines `known: property=C15 key=<key> <what fails>`; lines that start with `fixed:` suppress nothing."""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            w = line.strip().split(" ", 3)
            if w[0] == "known:" and w[1] == f"property={prop}":
                out[w[2].removeprefix("key=")] = {"what": w[3]}
    return out


def main():
    prop = sys.argv[1]
    tier = (sys.argv[2:] or [os.environ.get("VERIF_TIER", "quick")])[0]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = sys.argv[3] if len(sys.argv) > 3 else None
    module = prop.lower()
    t_start = time.time()
    mod, keeper = load(module)
    cases = mod.CASES
    budget = float(os.environ.get("SX_BUDGET", 0)) or (
        getattr(mod, "QUICK_S", 60) if tier == "quick" else getattr(mod, "THOROUGH_S", 420))
    solver_ms = 10000 if tier == "quick" else 60000
    nw = min(8, os.cpu_count() or 1)
    nsample = getattr(mod, "SAMPLES", 4 if tier == "quick" else 12)
    active = [i for i, c in enumerate(cases) if (tier == "thorough" or not c.get("thorough_only"))
              and (only is None or c["name"] == only)]
    frontier = {i: [[]] for i in active}
    agg = {i: dict(paths=0, infeasible=0, ndec=0, checks=0, solver_checks=0, reached={}, nincon=0, time=0.0, samples=0,
                   incon=[], validated=0, mismatch=[]) for i in active}
    tot = dict(queries=0, solver_s=0.0, decisions=0, unknown=0)
    conc = {}
    cover = set()
    knowns = known(prop)
    known_seen = {}
    violations, spurious, errors = [], [], []
    samples = []
    rp = Replayer()
    workers = []
    ctxm = mp.get_context("fork")
    for w in range(nw):
        a, b = ctxm.Pipe()
        p = ctxm.Process(target=worker, args=(b, mod, keeper, tier, seed * 100 + w, 0.4, solver_ms, 6000), daemon=True)
        p.start()
        b.close()
        workers.append([p, a, None])
    deadline = t_start + budget
    stop = False
    while True:
        busy = [w for w in workers if w[2] is not None]
        if not stop and time.time() < deadline:
            for w in workers:
                if w[2] is None:
                    live = [i for i in active if frontier[i]]
                    if not live:
                        break
                    i = min(live, key=lambda x: (agg[x]["time"] + 0.3 * sum(1 for v in workers if v[2] == x)) / cases[x].get("weight", 1))
                    f = frontier[i]
                    k = max(1, min(40, len(f) // nw))
                    chunk, frontier[i] = f[:k], f[k:]
                    q = max(0, nsample - agg[i]["samples"])
                    w[1].send((i, chunk, q))
                    w[2] = i
                    busy.append(w)
        if not busy:
            break
        ready = mp.connection.wait([w[1] for w in busy], timeout=30)
        if not ready and time.time() > deadline + 2 * solver_ms / 1000 + 60:
            for w in busy:
                errors.append(f"worker stuck on {cases[w[2]]['name']}")
                agg[w[2]]["nincon"] += 1
                w[0].kill()
                workers.remove(w)
            break
        for w in busy:
            if w[1] in ready:
                try:
                    o = w[1].recv()
                except EOFError:
                    errors.append(f"worker ended while on {cases[w[2]]['name']}")
                    w[2] = None
                    w[1].close()
                    workers.remove(w)
                    continue
                i = o["ci"]
                w[2] = None
                g = agg[i]
                for k in ("paths", "infeasible", "ndec", "checks", "solver_checks", "nincon", "time"):
                    g[k] += o[k]
                for k, v in o["reached"].items():
                    g["reached"][k] = g["reached"].get(k, 0) + v
                frontier[i].extend(o["left"])
                tot["queries"] += o["stats"]["queries"]
                tot["solver_s"] += o["stats"]["solver_s"]
                tot["decisions"] += o["stats"]["decisions"]
                tot["unknown"] += o["stats"]["unknown"]
                for k, v in o["stats"]["concretised"].items():
                    conc[k] = conc.get(k, 0) + v
                cover.update(o["cover"])
                for vec, obs in o["samples"]:
                    if g["samples"] >= nsample:
                        continue
                    g["samples"] += 1
                    r = rp.run(module, i, tier, vec)
                    if r["status"] == "ok" and r.get("left") == 0 and r["obs"] == obs:
                        g["validated"] += 1
                        if len(samples) < 40:
                            samples.append({"case": cases[i]["name"], "inputs": readable(vec)})
                    elif r["status"] == "violation":
                        record(prop, module, i, cases, tier, dict(vec=vec, msg=r["msg"], key=r.get("key")), r, violations,
                               knowns, known_seen)
                    else:
                        g["mismatch"].append({"inputs": readable(vec), "real": r, "model": obs})
                for v in o["viol"]:
                    if len(violations) >= 3:
                        break
                    if v["key"] is not None and v["key"] in known_seen:
                        continue
                    r = rp.run(module, i, tier, v["vec"])
                    if r["status"] in ("violation", "hang"):
                        record(prop, module, i, cases, tier, v, r, violations, knowns, known_seen)
                    else:
                        if len(spurious) < 10:
                            spurious.append({"case": cases[i]["name"], "msg": v["msg"], "inputs": readable(v["vec"]), "real": r})
                        g["nincon"] += 1
                for v in o["incon"]:
                    if len(g["incon"]) < 12 and len(violations) < 3:
                        r = rp.run(module, i, tier, v["vec"]) if v["vec"] is not None else {"status": "no model"}
                        if r["status"] == "violation" or (r["status"] == "hang" and v.get("hang")):
                            record(prop, module, i, cases, tier, dict(vec=v["vec"], msg=r.get("msg", ""), key=r.get("key")), r,
                                   violations, knowns, known_seen)
                        else:
                            g["incon"].append({"why": v["msg"], "real": r["status"], "real_msg": r.get("msg"),
                                               "inputs": readable(v["vec"] or []), "tb": v.get("tb")})
                if len(violations) >= 2:
                    stop = True
    for w in workers:
        try:
            w[1].send(None)
        except OSError:
            pass
    rp.close()
    wall = time.time() - t_start
    npaths = sum(g["paths"] for g in agg.values())
    exhaustive = all(not frontier[i] for i in active) and not any(g["nincon"] for g in agg.values())
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": npaths,
            "transitions": sum(g["ndec"] for g in agg.values()),
            "traces_validated_against_impl": sum(g["validated"] for g in agg.values()),
            "samples": samples[:25],
            "exhaustive": exhaustive,
            "explanation": "states = feasible symbolic paths executed to the end (each stands for all inputs that satisfy its "
                           "path condition), transitions = fork decisions on them; an assertion is discharged when z3 "
                           "finds no value of the symbolic inputs on the path that falsifies it",
            "assertions_checked": sum(g["checks"] for g in agg.values()),
            "assertions_needing_a_query": sum(g["solver_checks"] for g in agg.values()),
            "infeasible_paths": sum(g["infeasible"] for g in agg.values()),
            "solver": "z3 " + ".".join(map(str, __import__("z3").get_version()[:3])),
            "solver_queries": tot["queries"], "solver_s": round(tot["solver_s"], 2),
            "solver_unknown": tot["unknown"],
            "functions_encoded": sorted(c for c in cover if not c.startswith("props.")),
            "cases": [{
                "name": cases[i]["name"], "bounds": cases[i].get("bounds", ""),
                "paths": agg[i]["paths"], "decisions": agg[i]["ndec"], "explored_fully": not frontier[i],
                "prefixes_left": len(frontier[i]), "inconclusive_paths": agg[i]["nincon"], "reached": agg[i]["reached"],
                "validated": agg[i]["validated"], "cpu_s": round(agg[i]["time"], 1),
            } for i in active],
            "values_fixed": conc,
            "inconclusive": [dict(case=cases[i]["name"], **x) for i in active for x in agg[i]["incon"]][:20],
            "spurious": spurious, "mismatches": [dict(case=cases[i]["name"], **x) for i in active for x in agg[i]["mismatch"]][:10],
            "known_findings_seen": sorted(known_seen),
        },
        "assumptions": ASSUMPTIONS + list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", f"{prop}.json"))
    for i in active:
        g = agg[i]
        print(f"{prop} {cases[i]['name']}: {g['paths']} paths, {g['ndec']} decisions, {g['checks']} assertions, "
              f"{'complete' if not frontier[i] else f'{len(frontier[i])} prefixes left'}, {g['nincon']} inconclusive, "
              f"{g['validated']}/{g['samples']} validated, {g['time']:.1f}s cpu, reached {g['reached']}")
        for x in g["mismatch"][:3]:
            print("  MISMATCH", json.dumps(x)[:400])
        for x in g["incon"][:3]:
            print("  INCONCLUSIVE", json.dumps({k: v for k, v in x.items() if k != 'tb'})[:700])
            if x.get("tb") and os.environ.get("SX_TB"):
                print(x["tb"])
    for s in spurious[:3]:
        print("  SPURIOUS", json.dumps(s)[:400])
    for k, d in known_seen.items():
        print(f"KNOWN-FINDING: property={prop} {knowns[k].get('what', k)}")
    for e in errors:
        print("ERROR", e)
    print(f"{prop} {tier}: {npaths} paths, {tot['queries']} queries, {tot['solver_s']:.1f}s in the solver, {wall:.1f}s wall"
          + (", complete within bounds" if exhaustive else ""))
    if violations:
        for v in violations:
            print(f"violated: {v['msg']}")
            print(f"VIOLATION property={prop} replay={v['file']}")
        return 1
    if npaths == 0:
        print("nothing could be explored")
        return 2
    bad = [i for i in active if agg[i]["paths"] == 0 and agg[i]["nincon"]]
    if bad:
        print("cases without one conclusive path:", [cases[i]["name"] for i in bad])
        return 2
    return 0


def record(prop, module, i, cases, tier, v, r, violations, knowns, known_seen):
    key = r.get("key") or v.get("key")
    if key is not None and key in knowns and r["status"] == "violation":
        known_seen[key] = v
        return
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, f"{prop}-{len(violations) + 1}.json")
    with open(f, "w") as fh:
        json.dump(dict(property=prop, module=module, case=i, case_name=cases[i]["name"], tier=tier, values=v["vec"],
                       msg=r.get("msg") or v["msg"]), fh, indent=1)
    violations.append(dict(msg=f"[{cases[i]['name']}] {r.get('msg') or v['msg']} inputs={readable(v['vec'])}", file=f))


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
