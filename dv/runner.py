"""Runs one property's check: discharges its proof obligations (engine A) and cross-checks the same
contracts at run time on the real code (engine B), decides, writes the evidence file."""
import hashlib, importlib, json, multiprocessing as mp, os, pickle, random, sys, time, traceback
from multiprocessing.connection import wait as mpwait
from . import env

EVID = os.environ.get("VERIF_EVID") or os.path.join(env.VERIF, "evidence")


class Task:
    """One proof task: fn(ctx) explores a function and states its obligations."""
    def __init__(self, name, fn, branch_ms=100, oblige_ms=15000, max_paths=3000, timeout=300, expect_paths=1):
        self.name, self.fn, self.branch_ms, self.oblige_ms = name, fn, branch_ms, oblige_ms
        self.max_paths, self.timeout, self.expect_paths = max_paths, timeout, expect_paths


def run_task(task, deadline=None):
    import z3
    from .core import Run
    t0 = time.time()
    r = Run(task.name, branch_ms=task.branch_ms, oblige_ms=task.oblige_ms, max_paths=task.max_paths, deadline=deadline)
    def body(ctx):
        task.fn(ctx)
        s = z3.Solver(); s.set("timeout", 100); s.add(*ctx.assumptions)
        if s.check() != z3.unsat: r.reached = getattr(r, "reached", 0) + 1
    err = None
    try:
        r.explore(body)
    except Exception as e:          # an engine limitation, never a verdict about the code
        err = f"engine: {type(e).__name__}: {e} @ {traceback.extract_tb(e.__traceback__)[-1]}"
        r.unsupported.append(err)
    if not r.obligations and not r.unsupported: r.unsupported.append("no obligation generated")
    if not getattr(r, "reached", 0) and not r.unsupported and not any(o.status == "refuted" for o in r.obligations):
        r.unsupported.append("vacuous: no feasible path reached the end of the function")
    obs = {}
    for o in r.obligations:
        d = obs.setdefault(o.name, {"name": o.name, "paths": 0, "discharged": 0, "status": "discharged", "seconds": 0.0, "backends": {}, "bad": None})
        d["paths"] += 1
        d["seconds"] += o.seconds
        if o.status == "discharged":
            d["discharged"] += 1
            d["backends"][o.backend] = d["backends"].get(o.backend, 0) + 1
        else:
            if d["status"] == "discharged" or o.status == "refuted": d["status"] = o.status
            if d["bad"] is None or o.status == "refuted" and d["bad"]["status"] != "refuted":
                d["bad"] = {"status": o.status, "detail": o.detail[:1500], "model": o.model, "branch": str(o.where)[:300]}
    return {"task": task.name, "paths": r.paths, "completed": r.completed, "reached": getattr(r, "reached", 0),
            "obligations": list(obs.values()), "unsupported": r.unsupported, "solver_s": r.solver_s,
            "functions": sorted(getattr(r, "inlined", ())), "contracts": sorted(getattr(r, "used_contracts", ())),
            "models": sorted(str(m) for m in getattr(r, "used_models", ())), "notes": sorted(r.notes),
            "loops": r.loops_inferred, "wall_s": time.time() - t0}


def _child(conn, fn, args):
    try:
        conn.send(("ok", fn(*args)))
    except BaseException as e:
        conn.send(("err", f"{type(e).__name__}: {e}\n{traceback.format_exc()}"))
    finally:
        conn.close()
        os._exit(0)


def pool(jobs, workers=8, cut=None):
    """jobs: [(id, fn, args, timeout)]; yields (id, status, result)."""
    ctx = mp.get_context("fork")
    todo, live = list(jobs), {}
    while todo or live:
        while todo and len(live) < workers:
            jid, fn, args, to = todo.pop(0)
            a, b = ctx.Pipe(False)
            sys.stdout.flush(); sys.stderr.flush()
            p = ctx.Process(target=_child, args=(b, fn, args))
            p.start(); b.close()
            live[a] = (jid, p, time.time() + to)
        for c in mpwait(list(live), timeout=0.5):
            jid, p, _ = live.pop(c)
            try: st, r = c.recv()
            except EOFError: st, r = "err", "worker died"
            c.close(); p.join(5)
            if p.is_alive(): p.kill()
            yield jid, st, r
        now = time.time()
        if cut and now > cut.get("at", 1e18):
            for jid, *_ in todo: yield jid, "cut short after a failing input", None
            todo = []
        for c in [c for c, v in live.items() if now > v[2] or cut and now > cut.get("at", 1e18)]:
            jid, p, _ = live.pop(c)
            p.kill(); p.join(); c.close()
            yield jid, "timeout", None


# ---------------------------------------------------------------- engine B
def run_scenarios(spec, scenarios, seconds):
    """Runs scenarios on the real code; returns counts, samples and the first failures."""
    t0 = time.time()
    n, kinds, samples, fails, incon = 0, set(), [], [], []
    for scn in scenarios:
        if time.time() - t0 > seconds: break
        n += 1
        try:
            bad = spec.run_scenario(scn)
        except Exception as e:
            bad = None
            incon.append((scn, f"{type(e).__name__}: {e} @ {traceback.format_exc()[-600:]}"))
            if len(incon) > 5: break
        kinds.add(hashlib.md5(json.dumps(scn, sort_keys=True, default=str).encode()).hexdigest())
        if len(samples) < 3 and (n % 7 == 1): samples.append(scn)
        if bad:
            fails.append((scn, bad))
            if len(fails) >= 2: break
    return {"n": n, "kinds": kinds, "samples": samples, "fails": fails, "harness_errors": incon, "wall_s": time.time() - t0}


def shard(spec, tier, seed, part, parts, seconds):
    rnd = random.Random(f"{seed}/{part}")
    def mine():
        ex = (s for i, s in enumerate(spec.exhaustive(tier)) if i % parts == part)
        rd = spec.scenarios(tier, rnd)
        live = [ex, rd]
        while live:
            for g in list(live):
                try: yield next(g)
                except StopIteration: live.remove(g)
    return run_scenarios(spec, mine(), seconds)


def shrink(spec, scn, bad, seconds=20):
    """Greedy removal of list elements of the scenario while it still fails."""
    t0 = time.time()
    changed = True
    while changed and time.time() - t0 < seconds:
        changed = False
        for key in [k for k, v in scn.items() if isinstance(v, list)]:
            i = 0
            while i < len(scn[key]) and time.time() - t0 < seconds:
                c = dict(scn); c[key] = scn[key][:i] + scn[key][i + 1:]
                try: b = spec.run_scenario(c)
                except Exception: b = None
                if b: scn, bad, changed = c, b, True
                else: i += 1
    return scn, bad


def check(prop, tier="quick", only=None, verbose=False, repeats=1):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    env.bootstrap()
    spec = importlib.import_module(f"specs.{prop}")
    os.makedirs(EVID, exist_ok=True)
    tasks = spec.proof_tasks(tier)
    secs = getattr(spec, "RUNTIME_S", {"quick": 20, "thorough": 240})[tier]
    parts = getattr(spec, "SHARDS", 4)
    jobs = [(("A", t.name), run_task, (t, time.time() + t.timeout), t.timeout + 60) for t in tasks]
    bjobs = [(("B", p), shard, (spec, tier, seed, p, parts, secs), secs + 60) for p in range(parts)] if hasattr(spec, "run_scenario") else []
    if os.environ.get('VERIF_NOB'): bjobs = []          # development: proofs alone
    if only: jobs, bjobs = [j for j in jobs if only in j[0][1]], []
    # interleave so that both engines start at once
    jobs = bjobs[:4] + jobs + bjobs[4:]
    A, B, errs = {}, [], []
    cut = {}
    for (kind, nm), st, r in pool(jobs, cut=cut):
        if kind == "B" and st == "ok" and r["fails"]: cut.setdefault("at", time.time() + 60)
        if kind == "A":
            if st != "ok": r = {"task": nm, "paths": 0, "completed": 0, "reached": 0, "obligations": [], "unsupported": [f"{st}: {r}"], "solver_s": 0.0, "functions": [], "contracts": [], "models": [], "notes": [], "loops": 0, "wall_s": 0}
            A[nm] = r
            if verbose: report(r)
        else:
            if st == "ok": B.append(r)
            else: errs.append(f"runtime shard {nm}: {st} {str(r)[-800:]}")
    fails = [f for b in B for f in b["fails"]]
    harness = [h for b in B for h in b["harness_errors"]]
    refuted = [(t, o) for t in A.values() for o in t["obligations"] if o["status"] == "refuted"]
    unproved = [(t["task"], o["name"]) for t in A.values() for o in t["obligations"] if o["status"] == "undecided"]
    unsup = [(t["task"], u) for t in A.values() for u in t["unsupported"]]
    extra = 0
    bounded = bool(unproved or unsup)
    if not fails and (refuted or bounded) and bjobs:
        # the proof does not go through: look for a failing input with a larger budget (bounded stand-in)
        more = getattr(spec, "FALLBACK_S", {"quick": 60, "thorough": 400})[tier]
        ej = [(p, shard, (spec, "thorough", seed + 7919, p, 8, more), more + 60) for p in range(8)]
        for nm, st, r in pool(ej):
            if st == "ok":
                B.append(r); extra += r["n"]
                fails += r["fails"]; harness += r["harness_errors"]
            else: errs.append(f"stand-in shard {nm}: {st} {str(r)[-800:]}")
    n_ob = sum(len(t["obligations"]) for t in A.values())
    n_ok = sum(1 for t in A.values() for o in t["obligations"] if o["status"] == "discharged")
    proved = n_ob > 0 and n_ob == n_ok and not unsup
    kinds = set().union(*[b["kinds"] for b in B]) if B else set()
    viol = []
    if fails:
        scn, bad = fails[0]
        try: scn, bad = shrink(spec, scn, bad)
        except Exception: pass
        path = os.path.join(EVID, f"replay_{prop}.json")
        json.dump({"property": prop, "kind": "input", "what": bad, "scenario": scn, "repo": env.REPO,
                   "replay_cmd": f"/opt/venv/bin/python check.py {prop} --replay {path}",
                   "failed_obligations": [{"task": t["task"], "obligation": o["name"]} for t, o in refuted] + [{"task": a, "obligation": b} for a, b in unproved]},
                  open(path, "w"), indent=1, default=str)
        viol.append(f"VIOLATION property={prop} replay={path}")
        print(f"# {bad}")
    elif refuted:
        path = os.path.join(EVID, f"replay_{prop}.json")
        t, o = refuted[0]
        json.dump({"property": prop, "kind": "failed-obligation", "obligation": o["name"], "task": t["task"], "verifier_output": o["bad"],
                   "all": [{"task": t["task"], "obligation": o["name"], "output": o["bad"]} for t, o in refuted]}, open(path, "w"), indent=1, default=str)
        print(f"# obligation refuted: {t['task']}: {o['name']}")
        viol.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
    lvl = "proof"
    trusted = list(getattr(spec, "TRUSTED", [])) + ["z3 and cvc5 (unsat answers)", "the verification-condition generator in /verif/dv (its models of Python built-ins are cross-checked by the run-time engine)"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": lvl, "wall_s": round(time.time() - t0, 2), "violations": len(viol),
          "coverage": {
              "obligations": n_ob, "discharged": n_ok,
              "checker_cmd": f"/opt/venv/bin/python check.py {prop} --tier {tier}",
              "trusted_base": trusted,
              "verdict": "violation" if viol else "proved" if proved else "bounded (proof incomplete on this tree: see undischarged and unsupported)",
              "undischarged": [f"{a}: {b}" for a, b in unproved][:40], "unsupported": [f"{a}: {b}" for a, b in unsup][:40],
              "obligation_instances": sum(o["paths"] for t in A.values() for o in t["obligations"]),
              "paths": sum(t["paths"] for t in A.values()), "feasible_ends": sum(t["reached"] for t in A.values()),
              "loops_with_inferred_invariants": sum(t["loops"] for t in A.values()),
              "back_ends": _sum([o["backends"] for t in A.values() for o in t["obligations"]]),
              "solver_s": round(sum(t["solver_s"] for t in A.values()), 2),
              "functions_under_contract": sorted({f for t in A.values() for f in t["functions"]}),
              "callee_contracts_used": sorted({f for t in A.values() for f in t["contracts"]}),
              "models_used": sorted({f for t in A.values() for f in t["models"]}),
              "per_task": [{"task": t["task"], "obligations": [f"{o['name']} [{o['status']}, {o['paths']} paths]" for o in t["obligations"]], "solver_s": round(t["solver_s"], 2), "feasible_ends": t["reached"]} for t in A.values()],
              "runtime_cross_check": {"evaluations": sum(b["n"] for b in B), "distinct": len(kinds), "stand_in_evaluations": extra,
                                      "samples": [s for b in B for s in b["samples"]][:3], "rule": getattr(spec, "RULE", ""), "harness_errors": [h[1][:300] for h in harness][:5] + errs[:5]},
          },
          "assumptions": list(getattr(spec, "ASSUMPTIONS", [])) + sorted({n for t in A.values() for n in t["notes"]})}
    if not only:
        json.dump(ev, open(os.path.join(EVID, f"{prop}.json"), "w"), indent=1, default=str)
    for a, b in unproved: print(f"# undecided: {a}: {b}")
    for a, b in unsup: print(f"# outside the verifier: {a}: {b}")
    for h in (harness[:3] + [(None, e) for e in errs[:3]]): print(f"# harness: {h[1][-1200:]}")
    if os.path.exists(os.path.join(env.VERIF, "known_findings.txt")):
        for line in open(os.path.join(env.VERIF, "known_findings.txt")):
            if line.startswith(f"known: property={prop} "): print("KNOWN-FINDING: " + line[len("known: "):].strip())
    print(f"{prop}: {n_ok}/{n_ob} obligations discharged, {'proved' if proved else 'NOT fully proved (bounded stand-in)'}; "
          f"{sum(b['n'] for b in B)} run-time contract evaluations; {time.time() - t0:.1f}s")
    for v in viol: print(v)
    if viol: return 1
    if bjobs and not any(b["n"] for b in B):
        print("# no run-time evaluation succeeded"); return 2
    if not bjobs and not proved and not only: 
        print("# undecided and no stand-in"); return 2
    return 0


def _sum(ds):
    out = {}
    for d in ds:
        for k, v in d.items(): out[k] = out.get(k, 0) + v
    return out


def report(r):
    print(f"[{r['task']}] paths {r['paths']} end {r['completed']} reached {r['reached']} solver {r['solver_s']:.1f}s wall {r['wall_s']:.1f}s unsupported {r['unsupported']}")
    for o in r["obligations"]:
        if o["status"] != "discharged":
            print("    ", o["status"], o["name"], "|", o["bad"]["detail"][:500], o["bad"]["branch"], {k: v for k, v in list((o["bad"]["model"] or {}).items())[:12]})


def replay(prop, path):
    env.bootstrap()
    spec = importlib.import_module(f"specs.{prop}")
    d = json.load(open(path))
    if d.get("kind") != "input":
        print("no failing input recorded:", json.dumps(d, indent=1)[:3000]); return 1
    bad = spec.run_scenario(d["scenario"])
    print("still fails:" if bad else "passes", bad or "")
    return 1 if bad else 0
