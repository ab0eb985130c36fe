"""Runs the contracts and the end-to-end oracle of one property and decides."""
import importlib
import json
import multiprocessing as mp
import os
import random
import re
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("PYVC_OUT", VERIF)     # where evidence and replay files go


class Prop:
    """one property: contracts (helpers first), the labels of its entry contracts and an end-to-end oracle"""
    def __init__(self, id, contracts, entries, e2e, level_note="", assumptions=(), timeout=240, bounded=()):
        self.id, self.contracts, self.entries, self.e2e = id, contracts, set(entries), e2e
        self.level_note, self.assumptions, self.timeout = level_note, list(assumptions), timeout
        self.bounded = set(bounded)      # labels that are known to be out of the verifier's reach: bounded stand-ins


class E2E:
    """case(rng, hints) -> JSON-able case; run(case) -> None or a description of the difference"""
    quick = 12
    deep = 150

    def case(self, rng, hints):
        raise NotImplementedError

    def run(self, case):
        raise NotImplementedError


def load(pid):
    m = importlib.import_module("contracts." + pid.lower())
    return m.PROPERTY


# ------------------------------------------------------------------ worker side
def quiet():
    import logging
    logging.disable(10 ** 6)


def _verify_worker(pid, label, excluded, tier, seed, conn):
    quiet()
    from . import contract as C, prove as PV
    out = {"label": label, "excluded": sorted(excluded)}
    try:
        prop = load(pid)
        c = next(x() if isinstance(x, type) else x for x in prop.contracts if (x() if isinstance(x, type) else x).label() == label)
        r = C.verify(c, tier=tier, seed=seed, use_contracts=set(excluded))
        fk = _fixed_pre(r)
        out.update(summary(c, r))
        # replays: cross check on agreement, search on failure
        problems, hints = [], {}
        rng = random.Random(seed * 7919 + 17)
        if c.replayable and getattr(r, "want", None) is not None and not r.vacuous:
            consts = C.harvest_constants(c, r.functions)
            hints["consts"] = [k for k in consts if isinstance(k, int) and 2 <= k <= 400]
            hints["bigs"] = [k for k in consts if isinstance(k, int) and 400 < k <= 3000]
            hints["floats"] = [k for k in consts if isinstance(k, float) and k not in (0.5, 1.0, 2.0, 0.0, -0.5)]
            n = c.trials if tier == "quick" else c.trials * 4
            fixed_list = [(None, None)]
            for o in r.failed[:4]:
                try:
                    f, cells = C.model_to_fixed(o.hyps, r.ctx)
                    if f:
                        fixed_list.append((f, cells))
                        hints.setdefault("scalars", []).append({k: v for k, v in f.items() if isinstance(v, (int, float)) and "$" not in k and "#" not in k})
                except Exception:
                    pass
            if r.failed:
                n = max(n, 30)
            t0 = time.time()
            for i in range(n):
                if time.time() - t0 > (40 if r.failed else 15):
                    break
                f, cells = fixed_list[i % len(fixed_list)]
                try:
                    pr = C.replay(c, r, rng, f, cells, consts if i % 2 else ())
                except Exception as e:
                    out.setdefault("replay_errors", []).append(f"{type(e).__name__}: {e}"[:200])
                    if os.environ.get("PYVC_DEBUG"):
                        traceback.print_exc()
                    continue
                if pr and pr != "skip":
                    problems.append({"differences": pr[:6], "input": C.describe_env(r.last_env), "arguments": r.last_args})
                    break
        out["replays"] = r.replays
        out["problems"] = problems
        out["hints"] = hints
        out["stats"] = dict(PV.STATS)
        if r.failed and not r.unsupported:
            out["smt"] = smt_dump(r.failed[0])
    except Exception as e:
        out["engine_error"] = f"{type(e).__name__}: {e}"
        out["unsupported"] = out["engine_error"]
        out["trace"] = traceback.format_exc()
        out.setdefault("obligations", [])
        out.setdefault("failed", [])
        out.setdefault("status", "unsupported")
    conn.send(out)
    conn.close()


def _fixed_pre(r):
    return None


def smt_dump(o):
    return {"obligation": o.name, "detail": o.detail[:1500], "hypotheses": [str(h)[:200] for h in o.hyps[:12]]}


def summary(c, r):
    st = "proved" if r.proved else ("unsupported" if r.unsupported else ("vacuous" if r.vacuous else "failed"))
    if r.failed:
        st = "failed"
    return {"status": st, "target": c.target, "obligations": [o.asdict() for o in r.obligations],
            "failed": [o.asdict() for o in r.failed], "unsupported": r.unsupported, "vacuous": r.vacuous,
            "paths": r.paths, "loops": r.loops, "functions": sorted(r.functions), "contracts_used": sorted(r.contracts_used),
            "natives": sorted(map(str, r.natives)), "time": round(r.time, 2), "trace": getattr(r, "trace", None)}


def _e2e_worker(pid, seed, n, hints, budget, conn):
    t0 = time.time()
    done, samples, kinds = 0, [], set()
    problem = None
    quiet()
    import io, contextlib
    try:
        prop = load(pid)
        rng = random.Random(seed)
        e = prop.e2e
        for i in range(n):
            if time.time() - t0 > budget:
                break
            case = e.case(rng, hints)
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    p = e.run(case)
            except Exception as ex:
                if os.environ.get("PYVC_DEBUG"):
                    traceback.print_exc()
                p = f"raised {type(ex).__name__}: {ex}"[:500] + " | " + " < ".join(f"{f.name}:{f.lineno}" for f in traceback.extract_tb(ex.__traceback__)[-4:])
            done += 1
            kinds.add(json.dumps(case, sort_keys=True, default=str))
            if len(samples) < 2:
                samples.append(case)
            if p:
                problem = {"case": case, "difference": p}
                break
    except Exception as ex:
        conn.send({"error": traceback.format_exc(), "done": done, "samples": samples, "distinct": len(kinds), "problem": None})
        return
    conn.send({"done": done, "samples": samples, "distinct": len(kinds), "problem": problem, "t": time.time() - t0})
    conn.close()


class Job:
    def __init__(self, target, args, timeout, key):
        self.r, w = mp.Pipe(False)
        self.p = mp.Process(target=target, args=(*args, w), daemon=True)
        self.key, self.timeout = key, timeout
        self.w = w

    def start(self):
        self.t0 = time.time()
        self.p.start()
        self.w.close()


def run_jobs(jobs, width=8):
    """run with a limit; a job that dies or times out yields None"""
    out, todo, live = {}, list(jobs), []
    while todo or live:
        while todo and len(live) < width:
            j = todo.pop(0)
            j.start()
            live.append(j)
        time.sleep(0.02)
        for j in list(live):
            done = False
            try:
                if j.r.poll(0):
                    out[j.key] = j.r.recv()
                    done = True
            except (EOFError, OSError):
                out[j.key] = None
                done = True
            if not done and time.time() - j.t0 > j.timeout:
                out[j.key] = None
                done = True
            if not done and not j.p.is_alive() and not j.r.poll(0.1):
                out[j.key] = None
                done = True
            if done:
                if j.p.is_alive():
                    j.p.join(0.5)
                    if j.p.is_alive():
                        j.p.kill()
                live.remove(j)
    return out


# ------------------------------------------------------------------ decision
def check(pid, tier="quick", seed=1, verbose=False):
    t0 = time.time()
    prop = load(pid)
    made = [x() if isinstance(x, type) else x for x in prop.contracts]
    labels = [x.label() for x in made if tier != "quick" or not getattr(x, "thorough_only", False)]
    dup = [l for l in labels if labels.count(l) > 1]
    assert not dup, f"duplicate contract labels {dup}"
    helpers = [l for l in labels if l not in prop.entries]
    res = {}
    left = lambda most, keep=0: max(20, min(most, 800 - keep - (time.time() - t0)))     # a check must answer within 900 s
    jobs = [Job(_verify_worker, (pid, l, (), tier, seed), prop.timeout, l) for l in labels]
    ne2e = prop.e2e.quick if tier == "quick" else prop.e2e.deep
    jobs.insert(0, Job(_e2e_worker, (pid, seed, ne2e, {}, 60 if tier == "quick" else 300), 90 if tier == "quick" else 400, "@e2e"))
    got = run_jobs(jobs)
    e2e = got.pop("@e2e")
    for l in labels:
        r = got.get(l)
        res[l] = r if r is not None else {"label": l, "status": "unsupported", "unsupported": "time limit", "obligations": [], "failed": [], "problems": [], "functions": [], "contracts_used": [], "hints": {}, "replays": 0, "natives": [], "paths": 0, "loops": 0}
    def bad(l):
        # a concrete disagreement between the real code and a helper's specification also breaks its contract
        return res[l]["status"] != "proved" or bool(res[l].get("problems"))
    broken = {l for l in helpers if bad(l)}
    first_broken = set(broken)
    # whatever rests on a broken helper contract is verified again with that function executed in place
    rounds = 0
    while broken and rounds < 5 and time.time() - t0 < 520:
        stale = [l for l in labels if set(res[l].get("contracts_used", ())) & broken]
        if not stale:
            break
        again = run_jobs([Job(_verify_worker, (pid, l, tuple(sorted(broken)), tier, seed), left(prop.timeout, 200), l) for l in stale])
        for l in stale:
            if again.get(l) is not None:
                res[l] = again[l]
            else:
                res[l] = dict(res[l], status="unsupported", unsupported="time limit (helpers inlined)", excluded=sorted(broken), contracts_used=[], failed=[])
        broken |= {l for l in helpers if bad(l)}
        rounds += 1
    entries_ok = all(res[e]["status"] == "proved" and not res[e].get("problems") for e in labels if e in prop.entries)
    violation = None
    note = []
    if e2e is None:
        note.append("end-to-end oracle did not finish")
    elif e2e.get("error"):
        note.append("end-to-end oracle error: " + e2e["error"][-300:])
    elif e2e.get("problem"):
        violation = {"kind": "end-to-end", "problem": e2e["problem"], "concrete": True}
    failed = [l for l in labels if res[l]["status"] == "failed" or res[l].get("problems")]
    if not violation:
        for e in labels:
            if e in prop.entries and res[e].get("problems") and res[e]["status"] != "unsupported":
                violation = {"kind": "contract replay", "contract": e, "problem": res[e]["problems"][0], "concrete": True,
                             "obligations": res[e]["failed"][:5]}
                break
    # contracts the verifier could not follow (although it can on the reference code): the bounded oracle looks harder
    lost = [l for l in labels if res[l]["status"] in ("unsupported", "vacuous") and l not in prop.bounded]
    failed += [l for l in lost if l not in failed]
    if not violation and failed:
        entry_failed = [e for e in failed if e in prop.entries and e not in lost]
        if entries_ok:
            note.append(f"helper contracts changed ({failed}), property proved with those functions inlined")
        else:
            # search harder for a failing input
            hints = {"scalars": [s for l in failed for s in res[l].get("hints", {}).get("scalars", [])],
                     "inputs": [p["input"] for l in failed for p in res[l].get("problems", [])]}
            for key in ("consts", "bigs", "floats"):
                hints[key] = sorted({k for l in failed for k in res[l].get("hints", {}).get(key, [])})
            k = 6
            more = run_jobs([Job(_e2e_worker, (pid, seed * 1000 + i, prop.e2e.deep, hints, left(120, 40)), left(160), i) for i in range(k)])
            for i in range(k):
                m = more.get(i)
                if m and e2e:
                    e2e["done"] += m["done"]
                if m and m.get("problem") and not violation:
                    violation = {"kind": "end-to-end", "problem": m["problem"], "concrete": True, "failed_contracts": failed}
            failed = [l for l in failed if l not in lost]
            if not violation and failed:
                violation = {"kind": "obligation", "contract": (entry_failed or failed)[0], "concrete": False,
                             "obligations": [o for l in (entry_failed or failed) for o in res[l]["failed"]][:8],
                             "problem": [p for l in failed for p in res[l].get("problems", [])][:2],
                             "smt": [res[l].get("smt") for l in failed if res[l].get("smt")][:3]}
    unsup = [l for l in labels if res[l]["status"] in ("unsupported", "vacuous")]
    wall = time.time() - t0
    evidence(prop, tier, seed, res, labels, e2e, violation, note, unsup, wall)
    code = 0
    for l in labels:
        r = res[l]
        print(f"  {r['status']:12s} {l}  obligations={len(r['obligations'])} failed={len(r['failed'])} paths={r.get('paths')} loops={r.get('loops')} replays={r.get('replays')} t={r.get('time')}" + (f"  [{r['unsupported']}]" if r.get("unsupported") else "") + (f"  [{r['vacuous']}]" if r.get("vacuous") else ""))
        for o in r["failed"][:4]:
            print("      failed:", o["name"], "|", o["detail"][:200])
        for p in r.get("problems", [])[:1]:
            print("      replay:", "; ".join(p["differences"][:3])[:300])
        if verbose and r.get("replay_errors"):
            print("      replay errors:", r["replay_errors"][:2])
        if verbose and r.get("trace"):
            print("\n".join(r["trace"].strip().split("\n")[-7:]))
    if e2e:
        print(f"  end-to-end oracle: {e2e['done']} runs" + (f", difference: {str(e2e['problem']['difference'])[:300]}" if e2e.get("problem") else "") + (e2e.get("error") or ""))
    for n in note:
        print("  note:", n)
    for line in known_findings(pid):
        print(line)
    if violation:
        d = os.path.join(OUT, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{pid}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, **violation}, f, indent=1, default=str)
        print(f"VIOLATION property={pid} replay={path}" + ("" if violation["concrete"] else " no-failing-input-found"))
        code = 1
    else:
        print(f"{pid}: held ({sum(len(res[l]['obligations']) for l in labels)} obligations, {wall:.1f} s" + (f"; bounded only: {unsup}" if unsup else "") + ")")
    return code


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith(f"KNOWN-FINDING: property={pid} "):
                out.append(line)
    return out


def evidence(prop, tier, seed, res, labels, e2e, violation, note, unsup, wall):
    from . import npmodel
    by_label = {c.label(): c for c in (x() if isinstance(x, type) else x for x in prop.contracts)}
    note_of = {l: getattr(by_label.get(l), "bounded_note", None) for l in labels}
    bounded = [l for l in labels if note_of[l]]
    obs = [o for l in labels if not note_of[l] for o in res[l]["obligations"]]
    backends = {}
    for o in obs:
        if o["status"] == "proved":
            backends[o["backend"] or "normaliser"] = backends.get(o["backend"] or "normaliser", 0) + 1
    natives = sorted({n for l in labels for n in res[l].get("natives", ())})
    fns = sorted({f for l in labels for f in res[l].get("functions", ())})
    stats = {}
    for l in labels:
        for k, v in (res[l].get("stats") or {}).items():
            if isinstance(v, (int, float)):
                stats[k] = round(stats.get(k, 0) + v, 3)
    level = "proof"
    shown = lambda ls: [{"contract": l, "function": res[l].get("target"), "status": res[l]["status"], "obligations": len(res[l]["obligations"]), "paths": res[l].get("paths"), "loops_by_induction": res[l].get("loops"), "callee_contracts_used": res[l].get("contracts_used"), "inlined_after_failure": res[l].get("excluded") or [], "seconds": res[l].get("time"), "unsupported": res[l].get("unsupported"), **({"bound": note_of[l]} if note_of[l] else {})} for l in ls]
    cov = {"obligations": len(obs), "discharged": sum(o["status"] == "proved" for o in obs),
           "checker_cmd": f"/opt/venv/bin/python check.py {prop.id} --tier {tier}",
           "trusted_base": TRUSTED + [f"library contract: {n}" for n in natives],
           "functions_under_contract": shown([l for l in labels if not note_of[l]]),
           "bounded_contracts": {"label": "bounded, not counted as proved", "contracts": shown(bounded),
                                 "obligations": sum(len(res[l]["obligations"]) for l in bounded),
                                 "accepted": sum(o["status"] == "proved" for l in bounded for o in res[l]["obligations"])},
           "functions_executed_symbolically": fns,
           "discharged_by_backend": backends, "solver": stats,
           "bounded_only": unsup,
           "real_code_replays": sum(res[l].get("replays") or 0 for l in labels),
           "end_to_end_oracle": {"label": "bounded", "runs": (e2e or {}).get("done"), "distinct": (e2e or {}).get("distinct"), "samples": (e2e or {}).get("samples")},
           "notes": note, "samples": [o["name"] for o in obs[:5]]}
    ev = {"property": prop.id, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": ASSUMPTIONS + prop.assumptions, "wall_s": round(wall, 2), "violations": 1 if violation else 0}
    d = os.path.join(OUT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


TRUSTED = ["CPython's ast parser and the pyvc symbolic executor (/verif/pyvc)", "pyvc polynomial normaliser (terms.py)", "z3 4.x (python binding); cvc5 cross-check on arithmetic queries"]
ASSUMPTIONS = ["floating point arithmetic is treated as exact real arithmetic (comparisons by allclose as equality)",
               "numpy/scipy calls behave as their library contracts in pyvc/npmodel.py state",
               "array arguments do not alias unless the code creates the alias",
               "denominators that occur in the code are non-zero where stated in the contract"]


def replay_file(path):
    d = json.load(open(path))
    prop = load(d["property"])
    if d.get("kind") == "end-to-end":
        p = prop.e2e.run(d["problem"]["case"])
        print("difference:", p)
        return 1 if p else 0
    print(json.dumps(d, indent=1)[:4000])
    return 1
