#!/usr/bin/env python3
"""Decides a property: verification conditions of the contracts for the current source,
replay of counterexamples, and the cross-check with the unmodified code.

usage: check.py --property C02 [--tier quick|thorough]
       check.py --replay evidence/replay/....json
       check.py --property C02 --dev [--contract NAME] [--choices JSON]"""
import argparse
import collections
import json
import multiprocessing
import multiprocessing.connection
import os
import signal
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = "/opt/venv/bin/python"
if os.path.realpath(sys.executable) != os.path.realpath(PYTHON) and os.path.exists(PYTHON) and os.environ.get("VERIF_REEXEC") != "1" and sys.prefix != "/opt/venv":
    os.environ["VERIF_REEXEC"] = "1"
    os.execv(PYTHON, [PYTHON] + sys.argv)
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True

REPO = os.environ.get("VERIF_REPO", "/repo")


class Concrete:
    """a process with the plain package"""

    def __init__(self, prop):
        env = dict(os.environ, VERIF_REPO=REPO, PYTHONPATH=HERE, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", VERIF_ONLY_PROPERTY=prop)
        self.p = subprocess.Popen([PYTHON, "-W", "ignore", "-m", "pyvc.conkit"], cwd=HERE, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE, text=True, env=env, start_new_session=True)
        self.lock = threading.Lock()
        self.err = []
        threading.Thread(target=self._drain, daemon=True).start()

    def _drain(self):
        for line in self.p.stderr:
            self.err.append(line)
            del self.err[:-60]

    def ask(self, msg):
        with self.lock:
            try:
                self.p.stdin.write(json.dumps(msg) + "\n")
                self.p.stdin.flush()
                line = self.p.stdout.readline()
            except (BrokenPipeError, OSError):
                line = ""
        if not line:
            raise RuntimeError("the concrete process failed: " + "".join(self.err[-12:]))
        return json.loads(line)

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass


_S = None


def _job(args):
    cid, choices, timeout_ms, seconds, max_paths = args
    from pyvc import api, symkit
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    try:
        return symkit.run_job(api.find(cid), choices, _S, timeout_ms=timeout_ms, deadline=time.time() + seconds, max_paths=max_paths)
    except BaseException as e:     # pylint: disable=broad-except
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = " < ".join(f"{f.filename.rsplit('/', 1)[-1]}:{f.lineno}" for f in reversed(tb[-6:]))
        return {"contract": cid, "choices": choices, "paths": {"error": 1}, "errors": [f"engine: {type(e).__name__}: {e} [{where}]"],
                "obligations": [], "refuted": [], "witnesses": [], "solver_time": 0.0, "queries": 0}


def _child(conn, job, attempt):
    import z3
    if attempt:
        z3.set_param("smt.random_seed", 7 * attempt)
        z3.set_param("sat.random_seed", 7 * attempt)
    conn.send(_job(job))
    conn.close()
    sys.stdout.flush()
    os._exit(0)


def undecided(r):
    """results, that a different seed of the solver might decide"""
    return any(o["status"] == "unknown" for o in r["obligations"]) or any(r["paths"].get(k) for k in ("timeout", "error"))


def run_jobs(jobs, workers, end, show_result):
    """runs each job in a process of its own, so that its outcome does not depend on the jobs before.
    Jobs, that the solver does not decide or that hang, are repeated with another seed of the solver."""
    import gc
    gc.collect()
    gc.freeze()
    ctx = multiprocessing.get_context("fork")
    todo = collections.deque((j, 0) for j in jobs)
    running, results, best = {}, [], {}

    def failed(j, what, message):
        return {"contract": j[0], "choices": j[1], "paths": {what: 1}, "errors": [message], "obligations": [], "refuted": [], "witnesses": [], "solver_time": 0.0, "queries": 0}

    def finish(k, j, attempt, r):
        if undecided(r) and attempt < 2 and time.time() < end - 20:
            if k not in best or not best[k]["obligations"]:
                best[k] = r
            todo.append((j, attempt + 1))
            return
        if undecided(r) and not r["obligations"] and k in best:
            r = best[k]
        results.append(r)
        show_result(r)

    while (todo or running) and time.time() < end:
        while todo and len(running) < workers:
            j, attempt = todo.popleft()
            recv, send = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_child, args=(send, j, attempt), daemon=True)
            p.start()
            send.close()
            running[recv] = (p, j, attempt, time.time() + (j[3] + 30 if attempt else j[3] * 0.6))
        for conn in multiprocessing.connection.wait(list(running), timeout=1.0):
            p, j, attempt, _ = running.pop(conn)
            try:
                r = conn.recv()
            except (EOFError, OSError) as e:
                r = failed(j, "error", f"worker: {type(e).__name__}")
            conn.close()
            p.join(timeout=5)
            finish((j[0], json.dumps(j[1], sort_keys=True)), j, attempt, r)
        for conn, (p, j, attempt, limit) in list(running.items()):
            if time.time() > limit:
                del running[conn]
                p.kill()
                p.join(timeout=5)
                conn.close()
                finish((j[0], json.dumps(j[1], sort_keys=True)), j, attempt, failed(j, "timeout", "the solver did not return in time"))
    for p, *_ in running.values():
        p.kill()
    done = {key_of(r) for r in results}
    for j in jobs:
        k = (j[0], json.dumps(j[1], sort_keys=True))
        if k not in done:
            results.append(best.get(k) or failed(j, "timeout", "time budget exceeded"))
    return results


def key_of(job):
    return (job["contract"], json.dumps(job["choices"], sort_keys=True))


def load_known(prop):
    path = os.path.join(HERE, "known-findings.json")
    if not os.path.exists(path):
        return []
    with open(path, encoding="utf-8") as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop and k.get("status") != "fixed"]


def matches(known, fail):
    """a known finding is identified by the contract, the choices and (optionally) conditions on the input"""
    if known["contract"] != fail["contract"]:
        return False
    for k, v in known.get("choices", {}).items():
        if fail["choices"].get(k) != v:
            return False
    if "obligation" in known and known["obligation"] != fail["obligation"]:
        return False
    if "detail" in known and known["detail"] not in str(fail.get("detail")):
        return False
    cond = known.get("when")
    if cond:
        class Env(dict):
            def __missing__(self, k):
                raise KeyError(k)
        try:
            return bool(eval(cond, {"__builtins__": {"abs": abs, "min": min, "max": max}}, {"v": fail.get("assignment", {})}))    # pylint: disable=eval-used
        except Exception:       # pylint: disable=broad-except
            return False
    return True


def main():
    global _S
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--dev", action="store_true")
    ap.add_argument("--contract")
    ap.add_argument("--choices")
    ap.add_argument("--no-concrete", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a.replay:
        sys.exit(replay(a.replay))
    prop = a.property
    os.environ["VERIF_ONLY_PROPERTY"] = prop
    start = time.time()
    thorough = a.tier == "thorough"
    budget = 1500 if thorough else 480          # seconds for the proofs
    job_seconds = 900 if thorough else 300
    timeout_ms = 30000 if thorough else 8000
    rand_seconds = 90 if thorough else 12
    import warnings
    warnings.simplefilter("ignore")
    concrete = [Concrete(prop) for _ in range(1 if a.no_concrete else 2)]
    # ------------------------------------------------------------ load
    load_error = None
    from pyvc import loader, api
    try:
        _S = loader.install()
    except BaseException as e:      # pylint: disable=broad-except
        load_error = f"{type(e).__name__}: {e}"
    import contracts    # noqa: F401
    cs = [c for c in api.contracts_of(prop) if thorough or c.tier == "quick"]
    if a.contract:
        cs = [c for c in cs if c.name == a.contract]
    jobs = []
    for c in cs:
        if c.random_only:
            continue
        for ch in c.combinations():
            if a.choices and any(ch.get(k) != v for k, v in json.loads(a.choices).items()):
                continue
            jobs.append((c.id, ch, timeout_ms, job_seconds, 20000 if thorough else 6000))
    jobs.sort(key=lambda j: -api.find(j[0]).weight)
    # ------------------------------------------------------------ concrete run-time checks in the background
    random_results = []

    def background(k):
        try:
            random_results.append(concrete[k].ask({"cmd": "random", "prop": prop, "seed": seed, "seconds": rand_seconds, "part": k, "parts": len(concrete), "thorough": thorough}))
        except Exception as e:      # pylint: disable=broad-except
            random_results.append({"error": str(e), "counts": {}, "fails": []})
    threads = []
    if not a.no_concrete:
        for k in range(len(concrete)):
            t = threading.Thread(target=background, args=(k,), daemon=True)
            t.start()
            threads.append(t)
    # ------------------------------------------------------------ proofs
    results = []
    if load_error is None and jobs:
        results = run_jobs(jobs, max(1, min(a.jobs, len(jobs))), start + budget, (lambda r: show(r, time.time() - start)) if a.dev else (lambda r: None))
    for t in threads:
        t.join(timeout=3 * rand_seconds + 120)
    # contracts, that are not decided by the verifier, get more run-time checks
    only = [[r["contract"], r["choices"]] for r in results if any(o["status"] != "proved" for o in r["obligations"]) or any(r["paths"].get(k) for k in ("unsupported", "budget", "timeout", "error"))]
    if only and not a.no_concrete and not any(r["fails"] or r.get("error") for r in random_results):
        more = max(10.0, min(120.0 if thorough else 60.0, budget + 200 - (time.time() - start)))

        def again(k):
            try:
                random_results.append(concrete[k].ask({"cmd": "random", "prop": prop, "seed": f"{seed}:more", "seconds": more, "part": k, "parts": len(concrete), "thorough": thorough, "only": only}))
            except Exception as e:      # pylint: disable=broad-except
                random_results.append({"error": str(e), "counts": {}, "fails": []})
        threads = [threading.Thread(target=again, args=(k,), daemon=True) for k in range(len(concrete))]
        for t in threads:
            t.start()
        for t in threads:
            t.join(timeout=3 * more + 60)
    # ------------------------------------------------------------ replay of models, cross-check of witnesses
    failures, replayed, cross, engine_gaps = [], 0, {"runs": 0, "pass": 0, "other": 0}, []
    unreproduced = []
    if a.no_concrete:
        pass
    else:
        for r in random_results:
            failures.extend(r["fails"])
            if r.get("error"):
                failures.append({"contract": prop, "choices": {}, "assignment": {}, "seed": 0, "obligation": "the concrete process", "detail": r["error"], "fatal": True})
        failing_now = []

        def replays(worker, part):
            for r in part:
                items, meta = [], []
                for q in r["refuted"]:
                    for v in range(4):
                        items.append({"assignment": q["assignment"], "seed": f"{seed}:{v}", "variant": v})
                        meta.append(q)
                wit = r["witnesses"]
                if len(wit) > (400 if thorough else 120):
                    step = len(wit) / (400 if thorough else 120)
                    wit = [wit[int(i * step)] for i in range(400 if thorough else 120)]
                for k, w in enumerate(wit):
                    items.append({"assignment": w, "seed": f"{seed}:w{k}", "variant": k % 3})
                    meta.append(None)
                if not items:
                    continue
                try:
                    out = concrete[worker].ask({"cmd": "run", "contract": r["contract"], "choices": r["choices"], "items": items})["results"]
                except Exception as e:      # pylint: disable=broad-except
                    failing_now.append(("error", r, None, None, str(e)))
                    return
                for it, m, o in zip(items, meta, out):
                    failing_now.append(("ok", r, it, m, o))
        parts = [results[k::len(concrete)] for k in range(len(concrete))]
        ts = [threading.Thread(target=replays, args=(k, parts[k]), daemon=True) for k in range(len(concrete))]
        for t in ts:
            t.start()
        for t in ts:
            t.join(timeout=400 if thorough else 200)
        seen_q = {}
        for tag, r, it, m, o in failing_now:
            if tag == "error":
                failures.append({"contract": r["contract"], "choices": r["choices"], "assignment": {}, "seed": 0, "obligation": "the concrete process", "detail": o})
                continue
            if m is None:
                cross["runs"] += 1
                cross["pass" if o["outcome"] == "pass" else "other"] += 1
            if o["outcome"] == "fail":
                failures.append({"contract": r["contract"], "choices": r["choices"], "assignment": o["used"], "seed": it["seed"], "variant": it["variant"], "size": 8,
                                 "obligation": o["obligation"], "detail": o["detail"], "source": "model of a refuted obligation: " + m["obligation"] if m else "witness of an explored path"})
            if m is not None:
                replayed += 1
                seen_q.setdefault(id(m), (r, m, []))[2].append(o["outcome"])
        for r, m, outs in seen_q.values():
            if "fail" not in outs:
                unreproduced.append({"contract": r["contract"], "choices": r["choices"], "obligation": m["obligation"], "assignment": m["assignment"], "goal": m["goal"],
                                     "replays": outs, "exception": m.get("exception", False)})
    for c in concrete:
        c.kill()
    # ------------------------------------------------------------ verdict
    total = proved = 0
    backends, open_obs = {}, []
    for r in results:
        for o in r["obligations"]:
            total += o["count"]
            if o["status"] == "proved":
                proved += o["count"]
                backends[o["backend"]] = backends.get(o["backend"], 0) + o["count"]
            else:
                open_obs.append({"contract": r["contract"], "choices": r["choices"], "obligation": o["name"], "status": o["status"], "count": o["count"], "detail": o["detail"]})
        for kind in ("unsupported", "budget", "timeout", "error"):
            if r["paths"].get(kind):
                total += r["paths"][kind]
                open_obs.append({"contract": r["contract"], "choices": r["choices"], "obligation": "path outside of the verifier's reach", "status": kind, "count": r["paths"][kind], "detail": "; ".join(r["errors"][:3])})
    known = load_known(prop)
    new, hits = [], {}
    for f in failures:
        k = next((k for k in known if matches(k, f)), None)
        if k is not None:
            hits.setdefault(k["id"], (k, f))
        else:
            new.append(f)
    # refuted obligations of contracts, for which a failing input has been found, are explained by this input
    explained = {(f["contract"], json.dumps(f["choices"], sort_keys=True)) for f in failures}
    nff = []
    for u in unreproduced:
        if u["exception"] or (u["contract"], json.dumps(u["choices"], sort_keys=True)) in explained:
            continue
        nff.append(u)
    # refuted obligations, whose failing inputs are known findings, are reported as such and not as open obligations
    known_obs = []
    for o in list(open_obs):
        fs = [f for f in failures if f["contract"] == o["contract"] and f["choices"] == o["choices"]]
        if o["status"] in ("refuted", "exception") and fs and all(any(matches(k, f) for k in known) for f in fs):
            open_obs.remove(o)
            known_obs.append(o)
            total -= o["count"]
    violations = 0
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for name in os.listdir(rdir):
        if name.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, name))
    lines = []
    per = {}
    for f in new:
        k = (f["contract"], f["obligation"])
        if per.setdefault(k, 0) >= 2 or violations >= 12:
            per[k] += 1
            continue
        per[k] += 1
        violations += 1
        path = os.path.join(rdir, f"{prop}-{violations}.json")
        with open(path, "w", encoding="utf-8") as h:
            json.dump({"property": prop, **f, "reproduce": f"{PYTHON} {HERE}/check.py --replay {path}"}, h, indent=1, default=str)
        lines.append((f"VIOLATION property={prop} replay={path}", f"  {f['contract']} {f['choices']}: {f['obligation']}: {str(f['detail'])[:300]}\n  input: {json.dumps(f['assignment'])[:400]}"))
    for u in nff[:6]:
        violations += 1
        path = os.path.join(rdir, f"{prop}-{violations}.json")
        with open(path, "w", encoding="utf-8") as h:
            json.dump({"property": prop, **u, "note": "the verifier refutes this obligation; the model has not been reproduced on the real code"}, h, indent=1, default=str)
        lines.append((f"VIOLATION property={prop} replay={path} no-failing-input-found", f"  {u['contract']} {u['choices']}: {u['obligation']}: {u['goal'][:300]}"))
    runs = sum(c["pass"] + c["fail"] for r in random_results for c in r["counts"].values())
    functions = sorted({f for c in cs for f in c.functions})
    by_contract = {}
    for r in results:
        q = by_contract.setdefault(r["contract"], {"jobs": 0, "paths": 0, "infeasible": 0, "obligations": 0, "proved": 0, "solver_s": 0.0, "queries": 0, "witnessed_paths": 0})
        q["jobs"] += 1
        q["paths"] += r["paths"].get("ok", 0)
        q["infeasible"] += r["paths"].get("infeasible", 0)
        q["obligations"] += sum(o["count"] for o in r["obligations"])
        q["proved"] += sum(o["count"] for o in r["obligations"] if o["status"] == "proved")
        q["solver_s"] = round(q["solver_s"] + r["solver_time"], 2)
        q["queries"] += r["queries"]
        q["witnessed_paths"] += len(r["witnesses"])
    bounded = sorted({o["contract"] for o in open_obs} | {c.id for c in cs if c.random_only})
    from pyvc import trusted
    wall = time.time() - start
    level = "proof" if total else "exploration"
    ev = {
        "property": prop, "tier": a.tier, "seed": seed, "level": level,
        "coverage": {
            "obligations": total, "discharged": proved,
            "checker_cmd": f"{PYTHON} {HERE}/check.py --property {prop} --tier {a.tier}",
            "trusted_base": trusted.BASE,
            "functions_under_contract": functions,
            "backends": backends,
            "solver_seconds": round(sum(r["solver_time"] for r in results), 2),
            "solver_queries": sum(r["queries"] for r in results),
            "proof_jobs": len(jobs),
            "contracts": by_contract,
            "open_obligations": open_obs[:40],
            "refuted_by_known_findings": known_obs,
            "bounded_not_proved": bounded,
            "evaluations": runs + cross["runs"] + replayed,
            "distinct_nontrivial": sum(c["pass"] for r in random_results for c in r["counts"].values()) + cross["pass"],
            "rule": "run-time contract checks of the unmodified code: one run per model of an explored path and random inputs (sizes up to about 40 per dimension), stratified over the case distinctions of the contracts; a run counts, if its precondition holds and all of its checks are evaluated",
            "samples": [{"contract": r["contract"], "choices": r["choices"], "input": r["witnesses"][0]} for r in results if r["witnesses"]][:5],
            "runtime_contract_runs": {k: v for r in random_results for k, v in r["counts"].items()},
            "witness_replays": cross, "model_replays": replayed,
            "unreproduced_models": unreproduced[:10],
            "load_error": load_error,
        },
        "assumptions": trusted.assumptions(prop),
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w", encoding="utf-8") as h:
        json.dump(ev, h, indent=1, default=str)
    for kid, (k, f) in hits.items():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for k in known:
        if k["id"] not in hits:
            print(f"KNOWN-FINDING: property={prop} {k['what']} (not reproduced in this run)")
    print(f"{prop}: {proved}/{total} obligations discharged {backends}, {len(jobs)} jobs, {sum(r['paths'].get('ok', 0) for r in results)} paths, "
          f"{runs} run-time contract runs, {cross['runs']} witness replays ({cross['other']} not runnable), solver {ev['coverage']['solver_seconds']} s, wall {wall:.1f} s")
    for o in open_obs[:12]:
        print(f"  open: {o['contract']} {o['choices']} {o['obligation']} [{o['status']} x{o['count']}] {str(o['detail'])[:200]}")
    if load_error:
        print("  the instrumented package could not be loaded:", load_error)
    for line, detail in lines:
        print(line)
        print(detail)
    sys.stdout.flush()
    code = 1 if violations else 0
    if not a.dev and not code and (total == 0 and not any(c.random_only for c in cs)) and load_error is None:
        print("no obligations have been generated")
        code = 1
    os._exit(code)


def show(r, t):
    bad = [o for o in r["obligations"] if o["status"] != "proved"]
    n = sum(o["count"] for o in r["obligations"])
    print(f"[{t:6.1f}] {r['contract']} {r['choices']} paths={r['paths']} obligations={n} open={sum(o['count'] for o in bad)} witnesses={len(r['witnesses'])} solver={r['solver_time']}")
    for o in bad[:6]:
        print("      ", o["name"], o["status"], o["count"], o["detail"][:400])
    for e in r["errors"][:4]:
        print("      ", e[:400])
    for q in r["refuted"][:3]:
        print("       model:", q["obligation"], json.dumps(q["assignment"])[:300], q["goal"][:300].replace("\n", " "))
    sys.stdout.flush()


def replay(path):
    with open(path, encoding="utf-8") as f:
        d = json.load(f)
    c = Concrete(d["property"])
    out = c.ask({"cmd": "run", "contract": d["contract"], "choices": d["choices"],
                 "items": [{"assignment": d.get("assignment"), "seed": d.get("seed", 0), "size": d.get("size", 8), "variant": d.get("variant", 0)}]})
    c.kill()
    print(json.dumps(out, indent=1))
    return 1 if out["results"][0]["outcome"] == "fail" else 0


if __name__ == "__main__":
    main()
