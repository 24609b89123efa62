"""Discharging obligations: z3 in process, then z3 and cvc5 command lines in parallel."""
import concurrent.futures as cf
import os
import shutil
import subprocess
import tempfile
import time

import z3


def solver_for(ob, ms):
    s = z3.Solver()
    s.set("timeout", ms)
    for h in ob.hyps:
        s.add(h)
    s.add(z3.Not(ob.goal))
    return s


def inline(ob, ms):
    t0 = time.time()
    g = ob.goal
    if z3.is_true(g):
        ob.status, ob.backend = "proved", "syntactic"
        return
    local(ob)
    if ob.status != "open":
        return
    t0 = time.time()
    s = solver_for(ob, ms)
    r = s.check()
    ob.time += time.time() - t0
    if r == z3.unsat:
        ob.status, ob.backend = "proved", "z3 " + z3.get_version_string()
    elif r == z3.sat:
        ob.status, ob.backend = "refuted", "z3 " + z3.get_version_string()
        ob.model = s.model()
    else:
        ob.reason = s.reason_unknown()


def nlsat(ob, ms):
    t0 = time.time()
    try:
        t = z3.TryFor(z3.Then("simplify", "solve-eqs", "purify-arith", "nlsat"), ms)
        s = t.solver()
        for h in ob.hyps:
            s.add(h)
        s.add(z3.Not(ob.goal))
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    ob.time += time.time() - t0
    if r == z3.unsat:
        ob.status, ob.backend = "proved", "z3 nlsat"


_CONSTS = {}


def consts(t):
    """Names of the uninterpreted symbols in t."""
    k = t.get_id()
    if k in _CONSTS and _CONSTS[k][0].eq(t):
        return _CONSTS[k][1]
    acc, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(x.decl().name())
            st.extend(x.children())
        elif z3.is_quantifier(x):
            st.append(x.body())
    _CONSTS[k] = (t, frozenset(acc))
    return _CONSTS[k][1]


def local(ob, ms=800):
    """Try with the hypotheses that mention nothing but the symbols of the goal, then also those of the definitions
    `symbol == term` of these symbols (dropping hypotheses is sound)."""
    t0 = time.time()
    g = consts(ob.goal)
    if not g:
        return
    n0 = -1
    for level in range(2):
        if level:
            g2 = set(g)
            for h in ob.hyps:
                if z3.is_eq(h):
                    for x in h.children():
                        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in g:
                            g2 |= consts(h)
            g = g2
        hs = [h for h in ob.hyps if consts(h) <= g]
        if len(hs) == len(ob.hyps) or len(hs) == n0:
            break
        n0 = len(hs)
        s = z3.Solver()
        s.set("timeout", ms)
        s.add(*hs)
        s.add(z3.Not(ob.goal))
        if s.check() == z3.unsat:
            ob.status, ob.backend = "proved", "z3 " + z3.get_version_string()
            break
    ob.time += time.time() - t0


def smt2(ob):
    return solver_for(ob, 1000).to_smt2()


def cli(text, cmd, timeout):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(text)
        p = f.name
    t0 = time.time()
    try:
        r = subprocess.run(cmd + [p], capture_output=True, text=True, timeout=timeout)
        out = r.stdout.strip().split("\n")[0] if r.stdout else ""
    except subprocess.TimeoutExpired:
        out = "timeout"
    finally:
        os.unlink(p)
    return out, time.time() - t0


def discharge(obs, quick_ms=3000, slow_s=40, workers=6, deadline=None):
    left = []
    for ob in obs:
        if ob.status != "open":
            continue
        inline(ob, quick_ms)
        if ob.status == "open":
            left.append(ob)
        if deadline and time.time() > deadline:
            break
    left = [ob for ob in obs if ob.status == "open"]
    if not left:
        return
    z3n = shutil.which("z3-new") or shutil.which("z3")
    cvc = shutil.which("cvc5")
    jobs = []
    with cf.ThreadPoolExecutor(workers) as ex:
        for ob in left:
            t = smt2(ob)
            if z3n:
                jobs.append((ob, "z3-new", ex.submit(cli, t, [z3n, f"-T:{slow_s}"], slow_s + 5)))
            if cvc:
                jobs.append((ob, "cvc5", ex.submit(cli, "(set-logic ALL)\n" + t, [cvc, f"--tlimit={slow_s * 1000}"], slow_s + 5)))
        for ob, nm, fu in jobs:
            out, dt = fu.result()
            ob.time += dt
            if ob.status == "open" and out == "unsat":
                ob.status, ob.backend = "proved", nm
            elif ob.status == "open" and out == "sat":
                ob.status, ob.backend = "refuted", nm
    for ob in left:
        if ob.status == "open":
            nlsat(ob, 10000)
        if ob.status == "open":
            ob.status = "unknown"
