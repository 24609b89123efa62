"""Run-time contract execution: the bounded stand-in that accompanies the proofs.

A case draws inputs from a seeded generator, runs the real code from /repo and evaluates the property's contract with an
independent oracle. Cases are identified by (name, seed, k), so a replay regenerates the inputs exactly."""
import hashlib
import importlib
import inspect
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib

import numpy as np


class Violation(Exception):
    def __init__(self, msg, finding=None):
        super().__init__(msg)
        self.finding = finding


class Skip(Exception):
    """The internal this case talks to does not exist (any more) in this form."""


class Hang(BaseException):
    pass


def check(cond, msg, finding=None):
    if not cond:
        raise Violation(msg, finding)


def internal(mod, name, *args, **kw):
    """A module-level internal; the case is skipped when it is gone or its signature no longer takes the arguments."""
    try:
        importlib.import_module(mod)
        f = getattr(sys.modules[mod], name)
    except (ImportError, AttributeError):
        raise Skip(f"{mod}.{name} not found")
    if args or kw:
        sig_ok(f, *args, **kw)
    return f


def sig_ok(f, *args, **kw):
    g = getattr(f, "py_func", f)
    try:
        inspect.signature(g).bind(*args, **kw)
    except TypeError:
        raise Skip(f"{getattr(g, '__name__', g)}: signature changed")
    except ValueError:
        pass
    return f


class Env:
    def __init__(self, tmp, tier):
        self.tmp, self.tier = tmp, tier
        self.inputs = {}
        self.is_trivial = False

    def note(self, **kw):
        self.inputs.update(kw)

    def trivial(self):
        self.is_trivial = True

    def path(self, name):
        return os.path.join(self.tmp, name)


class Case:
    def __init__(self, name, fn, quick=20, thorough=None, timeout=170):
        self.name, self.fn, self.quick, self.thorough, self.timeout = name, fn, quick, thorough or quick * 10, timeout

    def n(self, tier, mult=1):
        return (self.thorough if tier == "thorough" else self.quick) * mult


def case(quick=20, thorough=None, timeout=170):
    """Decorator: registers the function in its module's CASES."""
    def deco(fn):
        m = sys.modules[fn.__module__]
        if not hasattr(m, "CASES"):
            m.CASES = []
        m.CASES.append(Case(fn.__name__, fn, quick, thorough, timeout))
        return fn
    return deco


def rng_for(name, seed, k):
    return np.random.default_rng([zlib.crc32(name.encode()), int(seed), int(k)])


def describe(x, depth=0):
    if isinstance(x, np.ndarray):
        if x.size <= 24:
            return {"shape": list(x.shape), "dtype": str(x.dtype), "values": np.asarray(x).tolist()}
        return {"shape": list(x.shape), "dtype": str(x.dtype), "crc32": zlib.crc32(np.ascontiguousarray(x).tobytes())}
    if isinstance(x, dict):
        return {str(a): describe(b) for a, b in x.items()}
    if isinstance(x, (list, tuple)):
        return [describe(a) for a in x][:64]
    if isinstance(x, (np.integer, np.floating, np.bool_)):
        return x.item()
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)[:200]


def run_case(cs, seed, k, tier="quick"):
    """-> dict(result=ok|violation|skip, ...)"""
    tmp = tempfile.mkdtemp(prefix="vc_")
    env = Env(tmp, tier)
    env.k = k
    old = os.getcwd()
    out = dict(case=cs.name, seed=int(seed), k=int(k))

    def alarm(*_):
        raise Hang()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(cs.timeout)
    t0 = time.time()
    try:
        os.chdir(tmp)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            cs.fn(rng_for(cs.name, seed, k), env)
        out["result"] = "ok"
    except Skip as e:
        out.update(result="skip", why=str(e))
    except Violation as e:
        out.update(result="violation", why=str(e), finding=e.finding)
    except Hang:
        out.update(result="violation", why=f"no answer within {cs.timeout} s", finding=None)
    except MemoryError as e:
        out.update(result="skip", why=f"out of memory: {e}")
    except Exception as e:
        tb = traceback.format_exc()
        out.update(result="violation", why=f"unexpected {type(e).__name__}: {e}", finding=None, traceback=tb[-3000:])
    finally:
        signal.alarm(0)
        os.chdir(old)
        shutil.rmtree(tmp, ignore_errors=True)
    out["wall"] = round(time.time() - t0, 3)
    out["trivial"] = env.is_trivial
    try:
        out["inputs"] = describe(env.inputs)
    except Exception as e:
        out["inputs"] = repr(e)
    out["key"] = hashlib.sha1((cs.name + json.dumps(out["inputs"], sort_keys=True, default=str)).encode()).hexdigest()[:16]
    return out


def load_cases(pid):
    try:
        m = importlib.import_module(f"checks.x_{pid.lower()}")
    except ModuleNotFoundError as e:
        if e.name == f"checks.x_{pid.lower()}":
            return []
        raise
    return list(m.CASES)


def main():
    """python -m vlib.execlib ID TIER SEED OUT BUDGET MULT [CASE K]"""
    pid, tier, seed, outp, budget, mult = sys.argv[1:7]
    seed, budget, mult = int(seed), float(budget), int(mult)
    cases = load_cases(pid)
    only = sys.argv[7:9]
    f = open(outp, "a")

    def emit(d):
        f.write(json.dumps(d, default=str) + "\n")
        f.flush()
    if only:
        cs = next(c for c in cases if c.name == only[0])
        emit({"begin": [cs.name, int(only[1])]})
        emit(run_case(cs, seed, int(only[1]), tier))
        emit({"done": True})
        return
    t0 = time.time()
    skipped = set()
    kmax = max([c.n(tier, mult) for c in cases] or [0])
    timed_out = False
    for k in range(kmax):
        for cs in cases:
            if k >= cs.n(tier, mult) or cs.name in skipped:
                continue
            if time.time() - t0 > budget and k > 0:
                timed_out = True
                break
            emit({"begin": [cs.name, k]})
            r = run_case(cs, seed, k, tier)
            emit(r)
            if r["result"] == "skip" and k >= 2:
                skipped.add(cs.name)
            if r["result"] == "violation" and not r.get("finding"):
                emit({"done": True})
                return
        if timed_out:
            break
    emit({"done": True, "timed_out": timed_out})

