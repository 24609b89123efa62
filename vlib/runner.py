"""Runs one check: the proof part and the run-time part, evidence, verdict."""
import importlib
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PATH = os.pathsep.join([HERE] + [os.environ[v] for v in ("PYVC_REPO",) if v in os.environ])   # (a copy of the repository, when developing)
PY = "/opt/venv/bin/python"
Z3PATH = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


# ------------------------------------------------------------------ run-time part
def run_exec(pid, tier, seed, budget, mult=1, limit=1e9):
    fd, out = tempfile.mkstemp(suffix=".jsonl")
    os.close(fd)
    env = dict(os.environ, NUMBA_BOUNDSCHECK="1", PYTHONPATH=PATH, OMP_NUM_THREADS="4", NUMBA_NUM_THREADS="8",
               PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
    cmd = [PY, "-m", "vlib.execmain", pid, tier, str(seed), out, str(budget), str(mult)]
    try:
        p = subprocess.run(cmd, cwd=HERE, env=env, capture_output=True, text=True, timeout=max(30, min(budget + 260, limit)))
        rc, err = p.returncode, p.stderr[-3000:]
    except subprocess.TimeoutExpired as e:
        rc, err = "timeout", ""
    recs, last, done = read_log(out)
    os.unlink(out)
    crash = None
    if not done:
        if rc == "timeout" or (isinstance(rc, int) and rc < 0):
            # the process died or hung inside a case: confirm on its own
            name, k = last
            crash = confirm(pid, tier, seed, name, k)
            if crash:
                recs.append(crash)
            else:
                recs.append(dict(case=name, k=k, seed=seed, result="skip", why=f"process ended with {rc}, not confirmed",
                                 inputs={}, key="", trivial=True, wall=0))
        else:
            raise RuntimeError(f"run-time part failed (rc={rc}):\n{err}")
    return recs, dict(returncode=rc)


def read_log(out):
    recs, last, done = [], None, False
    for line in open(out):
        try:
            d = json.loads(line)
        except json.JSONDecodeError:
            continue
        if "begin" in d:
            last = d["begin"]
        elif "done" in d:
            done = True
        else:
            recs.append(d)
    return recs, last, done


def confirm(pid, tier, seed, name, k):
    fd, out = tempfile.mkstemp(suffix=".jsonl")
    os.close(fd)
    env = dict(os.environ, NUMBA_BOUNDSCHECK="1", PYTHONPATH=PATH, PYTHONDONTWRITEBYTECODE="1")
    try:
        p = subprocess.run([PY, "-m", "vlib.execmain", pid, tier, str(seed), out, "60", "1", name, str(k)], cwd=HERE,
                           env=env, capture_output=True, text=True, timeout=120)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = "timeout"
    recs, last, done = read_log(out)
    os.unlink(out)
    if done:
        v = [r for r in recs if r["result"] == "violation"]
        return v[0] if v else None
    return dict(case=name, k=k, seed=seed, result="violation", why=f"the process ended with {rc} inside this case",
                inputs={}, key="", trivial=False, wall=0, finding=None)


# ------------------------------------------------------------------ proof part
class ProofJob:
    """`fn()` explores and returns a Job, a list of Jobs, or (jobs, replay) with replay(ob) -> failing input text or None."""

    def __init__(self, name, fn, timeout=90, tier="quick", slow_s=20, shards=1):
        """`shards`: the obligations are discharged by that many processes (each generates them all)."""
        self.name, self.fn, self.timeout, self.tier, self.slow_s, self.shards = name, fn, timeout, tier, slow_s, shards


def ser_model(ob):
    m = getattr(ob, "model", None)
    if m is None:
        return None
    try:
        return str(m)[:4000]
    except Exception:
        return None


def _work(args):
    modname, idx, tier, shard = args
    sys.path.append(Z3PATH) if Z3PATH not in sys.path else None
    t0 = time.time()
    sys.setrecursionlimit(20000)
    out = dict(obligations=[], status="ok", reason=None, inlined=[], assumed=[], paths=0)
    try:
        m = importlib.import_module(modname)
        pj = m.jobs(tier)[idx]
        out["name"] = pj.name + (f" [{shard + 1}/{pj.shards}]" if pj.shards > 1 else "")
        from pyvc.solve import discharge
        from pyvc.values import CannotAttach, Unsupported
        deadline = t0 + pj.timeout
        try:
            r = pj.fn()
        except (CannotAttach, Unsupported) as e:
            out.update(status="undecided", reason=f"{type(e).__name__}: {e}")
            return out
        replay = None
        if isinstance(r, tuple):
            r, replay = r
        jobs = r if isinstance(r, list) else [r]
        for j in jobs:
            out["paths"] += j.paths
            out["inlined"] += sorted(map(str, j.inlined))
            out["assumed"] += sorted(map(str, j.assumed))
            if j.ended == 0:
                out.update(status="undecided", reason=f"{j.name}: no path reaches the end (vacuous)")
            if j.used_bound:
                out["bounded"] = True
        obs = [o for j in jobs for o in j.obligations]
        none = not obs
        obs = obs[shard::pj.shards]
        discharge(obs, slow_s=pj.slow_s, workers=2, deadline=deadline)
        for o in obs:
            if o.status == "open":
                o.status, o.reason = "unknown", "time budget"
        for o in obs:
            d = dict(name=o.name, job=pj.name, where=o.where, kind=o.kind, status=o.status, backend=o.backend, time=round(o.time, 3),
                     id=o.ident(), bounded=bool(out.get("bounded")))
            if o.status == "refuted":
                d["goal"] = str(o.goal)[:3000]
                d["model"] = ser_model(o)
                d["hyps"] = [str(h)[:500] for h in o.hyps[:60]]
                if replay is not None:
                    try:
                        d["replay"] = replay(o)
                    except BaseException as e:
                        d["replay_error"] = f"{type(e).__name__}: {e}"
            out["obligations"].append(d)
        if none and out["status"] == "ok":
            out.update(status="undecided", reason="no obligations generated")
    except BaseException as e:
        out.update(status="undecided", reason=f"{type(e).__name__}: {str(e)[:500]}", traceback=traceback.format_exc()[-2500:])
    out.setdefault("name", f"{modname}[{idx}]")
    out["wall"] = round(time.time() - t0, 2)
    return out


def _proc(args, q):
    try:
        q.send(_work(args))
    finally:
        q.close()


def run_proofs(pid, tier, workers=7):
    modname = f"checks.p_{pid.lower()}"
    try:
        m = importlib.import_module(modname)
    except ModuleNotFoundError as e:
        if e.name == modname:
            return []
        raise
    pjs = m.jobs(tier)
    todo = [(i, s) for i in range(len(pjs)) for s in range(pjs[i].shards)]
    running, results = [], []
    end = time.time() + (330 if tier == "quick" else 1500)
    while todo or running:
        if time.time() > end:
            for (i, sh), p, a, t0 in running:
                p.kill()
                results.append(((i, sh), dict(name=pjs[i].name, obligations=[], status="undecided", reason="overall time limit",
                                              inlined=[], assumed=[], paths=0, wall=time.time() - t0)))
            results += [((i, sh), dict(name=pjs[i].name, obligations=[], status="undecided", reason="overall time limit",
                                       inlined=[], assumed=[], paths=0, wall=0)) for i, sh in todo]
            break
        while todo and len(running) < workers:
            i, sh = todo.pop(0)
            a, b = mp.Pipe(duplex=False)
            p = mp.get_context("fork").Process(target=_proc, args=((modname, i, tier, sh), b), daemon=False)
            p.start()
            b.close()
            running.append(((i, sh), p, a, time.time()))
        nxt = []
        for (i, sh), p, a, t0 in running:
            r = None
            if a.poll(0.02):
                try:
                    r = a.recv()
                except EOFError:
                    r = dict(name=pjs[i].name, obligations=[], status="undecided", reason="prover process died", inlined=[],
                             assumed=[], paths=0, wall=time.time() - t0)
            elif time.time() - t0 > pjs[i].timeout * 1.6 + 60:
                p.kill()
                r = dict(name=pjs[i].name, obligations=[], status="undecided", reason="time limit", inlined=[], assumed=[],
                         paths=0, wall=time.time() - t0)
            if r is not None:
                results.append(((i, sh), r))
                p.join(5)
                if p.is_alive():
                    p.kill()
                a.close()
            else:
                nxt.append(((i, sh), p, a, t0))
        running = nxt
    return [r for _, r in sorted(results, key=lambda x: x[0])]


# ------------------------------------------------------------------ verdict
def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": []}


def write_replay(pid, data):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    n = re.sub(r"[^A-Za-z0-9]+", "_", data.get("label", "violation"))[:60]
    p = os.path.join(d, f"{pid}_{n}.json")
    json.dump(data, open(p, "w"), indent=1, default=str)
    return os.path.relpath(p, HERE)


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    sys.path.insert(0, HERE)
    if Z3PATH not in sys.path:
        sys.path.append(Z3PATH)
    os.environ["NUMBA_BOUNDSCHECK"] = "1"
    from checks.meta import META
    meta = META[pid]
    findings = {f["id"]: f for f in known_findings()["findings"] if f["property"] == pid and f.get("status", "open") == "open"}
    budget = meta.get("exec_s", 60) if tier == "quick" else 420
    proofs = run_proofs(pid, tier) if "--no-proof" not in argv else []
    total = 700 if tier == "quick" else 1e9     # seconds for everything but a last confirmation
    recs, info = run_exec(pid, tier, seed, budget, 1, total - (time.time() - t0)) if "--no-exec" not in argv else ([], {})
    viol, lines, kf = [], [], {}
    for r in recs:
        if r["result"] == "violation":
            if r.get("finding") in findings:
                kf[r["finding"]] = r
            else:
                viol.append(r)
    obs = [o for p in proofs for o in p["obligations"]]
    refuted = []
    for o in obs:
        if o["status"] == "refuted" and o["kind"] == "lemma":
            o["status"] = "unknown"      # an auxiliary step of the argument, not part of the contract
        if o["status"] != "refuted":
            continue
        f = [i for i, x in findings.items() if x.get("obligation") and re.search(x["obligation"], o["id"])]
        if f:
            kf[f[0]] = o
        else:
            refuted.append(o)
    for p in proofs:
        # what follows a step of the argument that was not discharged is not counted as discharged
        if any(x["kind"] == "lemma" and x["status"] != "proved" for x in p["obligations"]):
            for x in p["obligations"]:
                if x["status"] == "proved" and x["kind"] != "lemma":
                    x["status"] = "conditional"
    open_ = [o["id"] for o in obs if o["status"] not in ("proved", "refuted")] + [p["name"] for p in proofs if p["status"] != "ok"]
    if viol:
        r = viol[0]
        p = write_replay(pid, dict(label=r["case"] + f"_{r['k']}", property=pid, kind="input", **r,
                                   tier=tier, refuted_obligations=[o["id"] for o in refuted],
                                   command=f"/opt/venv/bin/python /verif/replay.py <this file>"))
        lines.append((f"VIOLATION property={pid} replay={p}", r["why"]))
    elif refuted or open_:
        o = next((x for x in refuted if x.get("replay")), None)
        left = total - (time.time() - t0)
        if o is None and "--no-exec" not in argv and left > 60:
            # search harder for a failing input before reporting the failed obligation alone (an obligation or function
            # the provers cannot decide is not reported without one)
            recs2, _ = run_exec(pid, tier, seed + 1000, min(120, left - 30), 4, left)
            v2 = [r for r in recs2 if r["result"] == "violation" and r.get("finding") not in findings]
            recs += recs2
            if v2:
                r = v2[0]
                p = write_replay(pid, dict(label=r["case"] + f"_{r['k']}", property=pid, kind="input", **r, tier=tier,
                                           refuted_obligations=[x["id"] for x in refuted]))
                lines.append((f"VIOLATION property={pid} replay={p}", r["why"]))
        if not lines and refuted:
            x = o or refuted[0]
            p = write_replay(pid, dict(label="obligation_" + x["name"], property=pid, kind="obligation", obligation=x,
                                       failed=[y["id"] for y in refuted], input=x.get("replay")))
            tail = "" if x.get("replay") else " no-failing-input-found"
            lines.append((f"VIOLATION property={pid} replay={p}{tail}", "failed obligation: " + x["id"]))
    for i, r in kf.items():
        print(f"KNOWN-FINDING: property={pid} {findings[i]['what']}")
    # ---- evidence
    ev = evidence(pid, tier, seed, meta, proofs, recs, time.time() - t0, len(lines), sorted(kf))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1, default=str)
    for o in obs:
        if o["status"] != "proved":
            print(f"  [{o['status']}] {o['id']} ({o['time']} s)")
    for p in proofs:
        if p["status"] != "ok":
            print(f"  [undecided] {p['name']}: {p['reason']}")
    print(f"{pid}: {sum(o['status'] == 'proved' for o in obs)}/{len(obs)} obligations discharged in {len(proofs)} proof jobs, "
          f"{len(recs)} run-time evaluations, {time.time() - t0:.1f} s")
    if lines:
        for a, b in lines:
            print(b)
            print(a)
        return 1
    if not obs and not recs:
        print("nothing was checked")
        return 2
    return 0


def evidence(pid, tier, seed, meta, proofs, recs, wall, nviol, kf):
    obs = [o for p in proofs for o in p["obligations"]]
    proved = [o for o in obs if o["status"] == "proved" and not o.get("bounded")]
    backends = {}
    for o in proved:
        backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    ok = [r for r in recs if r["result"] == "ok"]
    nontriv = {r["key"] for r in ok if not r["trivial"]}
    percase = {}
    for r in recs:
        percase.setdefault(r["case"], {}).setdefault(r["result"], 0)
        percase[r["case"]][r["result"]] += 1
    cov = dict(
        obligations=len([o for o in obs if not o.get("bounded")]),
        discharged=len(proved),
        checker_cmd=f"/opt/venv/bin/python check.py {pid} --tier {tier}",
        trusted_base=sorted(set(meta.get("trusted", []))) + TRUSTED,
        backends=backends,
        solver_s=round(sum(o["time"] for o in obs), 2),
        functions_under_contract=sorted({f for p in proofs if p["status"] == "ok" for f in p["inlined"]}),
        assumed_contracts=sorted({f for p in proofs for f in p["assumed"]}),
        proof_jobs=[dict(name=p["name"], status=p["status"], reason=p["reason"], obligations=len(p["obligations"]),
                         proved=sum(o["status"] == "proved" for o in p["obligations"]), paths=p["paths"], wall_s=p.get("wall"))
                    for p in proofs],
        undischarged=[dict(id=o["id"], status=o["status"]) for o in obs if o["status"] != "proved"],
        bounded_obligations=len([o for o in obs if o.get("bounded")]),
        evaluations=len(ok),
        distinct_nontrivial=len(nontriv),
        rule="run-time contract evaluations on the real code (bounded stand-in, not counted as proved): one per seeded case; "
             "non-trivial unless the case marks its input as degenerate; distinct by digest of the drawn inputs",
        samples=[dict(case=r["case"], k=r["k"], inputs=r["inputs"]) for r in ok[:3]] or
                [dict(obligation=o["id"], status=o["status"]) for o in obs[:3]],
        cases=percase,
        known_findings=kf,
    )
    if meta.get("level") == "other":
        cov["explanation"] = meta["level_note"]
    return dict(property=pid, tier=tier, seed=seed, level=meta["level"], coverage=cov,
                assumptions=meta.get("assumptions", []) + ASSUME, wall_s=round(wall, 2), violations=nviol)


TRUSTED = [
    "pyvc: the verification-condition generator in /verif/pyvc (interprets the AST of the functions imported from /repo)",
    "z3 5.3.2, z3-new and cvc5 as back ends",
    "the models of Python built-ins and numpy primitives in /verif/pyvc/models.py and arrays.py",
]
ASSUME = ["machine integers are mathematical integers and machine floats are real numbers in the proofs (rounding, overflow and "
          "NaN are covered only by the bounded run-time evaluations)"]
