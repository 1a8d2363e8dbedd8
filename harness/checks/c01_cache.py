"""C01: the result cache.  Replays every history of spec/Cache.tla on the real
CachedFunction / npy_cached, replays every schedule of spec/CacheConc.tla with
real threads, and validates recorded random histories (including processes
killed while saving) against spec/CacheTrace.tla."""
from __future__ import annotations

import contextlib
import io
import json
import os
import random
import resource
import shutil
import signal
import tempfile
import threading
from pathlib import Path

import numpy as np

from vlib import stable_hash


class Res(dict):
    """A result mapping that remembers the evaluation that produced it."""

    eid = 0


class Unsaveable:
    def __reduce__(self):
        msg = "cannot be saved"
        raise RuntimeError(msg)


class Boom(Exception):
    pass


def make_result(n, arg, out):
    r = Res()
    r.eid = n
    if out != "empty":
        r["arg"] = arg
        r["pad"] = bytes(range(256)) * 40 + bytes([n % 256])
    if out == "unsaveable":
        r["bad"] = Unsaveable()
    return r


def same_result(r, n, arg):
    if not isinstance(r, dict) or getattr(r, "eid", None) != n:
        return False
    return not dict(r) or (r["arg"] == arg and r["pad"] == bytes(range(256)) * 40 + bytes([n % 256]))


class Pickled:
    """The cache under test: CachedFunction over a scratch directory."""

    kinds = ("ok", "raise", "unsaveable", "empty")

    def __init__(self, d, layout, variant):
        from surface_potential_analysis.util.decorators import CachedFunction, cached

        self.d = Path(d)
        self.layout = layout
        self.variant = variant
        self.evals = 0
        self.out = "ok"
        self.seen_path_args = []
        self.owner = {}

        def f(x, *, y=0):
            self.evals += 1
            n = self.evals
            self.owner[n] = x
            if self.out == "raise":
                raise Boom
            return make_result(n, x, self.out)

        path_fn = lambda x, *, y=0: self.path(x)  # noqa: E731
        if layout == "shared" and variant % 2:
            path = self.d / "s.pkl"
        elif layout == "nopath" and variant % 2:
            path = None
        else:
            path = path_fn
        if variant % 3 == 0:
            self.fn = CachedFunction(f, path)
            self.named = None
        else:
            self.fn = cached(path)(f)
            self.named = f
        self.path_arg = path

    def path(self, x):
        k = {"perarg": x, "shared": "s", "nopath": "none", "mixed": "a" if x == "a" else "none"}[self.layout]
        return None if k == "none" else self.d / f"{k}.pkl"

    def file(self, k):
        return self.d / f"{k}.pkl"

    def call(self, mode, x, out, how):
        from surface_potential_analysis.util.decorators import cached

        self.out = out
        kw = {"y": 1} if how % 2 else {}
        args = () if how % 3 == 1 else (x,)
        if not args:
            kw["x"] = x
        if how % 5 == 2:
            self.fn.default_call = mode
            return self.fn(*args, **kw)
        if how % 5 == 4 and self.named is not None:
            return cached(self.path_arg, default_call=mode)(self.named)(*args, **kw)
        return getattr(self.fn, mode)(*args, **kw)


class Npy:
    """npy_cached: always load-or-call-and-save, results are arrays."""

    def __init__(self, d, layout, variant):
        from surface_potential_analysis.util.decorators import npy_cached

        self.d = Path(d)
        self.layout = layout
        self.variant = variant
        self.evals = 0
        self.out = "ok"
        self.owner = {}
        self.obj = variant % 4 == 3

        def f(x, *, y=0):
            self.evals += 1
            self.owner[self.evals] = x
            if self.out == "raise":
                raise Boom
            if self.out == "unsaveable":
                return np.array([Unsaveable(), self.evals], dtype=object)
            return self.value(self.evals)

        path = (self.d / "s.npy") if (layout == "shared" and variant % 2) else (
            None if (layout == "nopath" and variant % 2) else (lambda x, *, y=0: self.path(x)))
        how = variant // 4 % 3
        # plain arrays need no pickle, and are saved and loaded the same without
        kw = {"load_pickle": True} if self.obj or how == 0 else {} if how == 1 else {"save_pickle": False}

        def refuse(*a, **k):
            try:
                return inner(*a, **k)
            except ValueError as e:
                # the refusal to pickle counts as a failure to save
                if self.out == "unsaveable" and not kw.get("save_pickle", True):
                    raise RuntimeError from e
                raise
        inner = npy_cached(path, **kw)(f)
        self.fn = refuse if "save_pickle" in kw else inner

    path = None

    def value(self, n):
        k = self.variant % 4
        if k == 0:
            return np.arange(2000.0) + n
        if k == 1:
            return np.array(float(n))
        if k == 2:
            return (np.arange(6) + 1j * n).reshape(2, 3)
        return np.array([{"n": n}, "x" * 3000], dtype=object)

    def same(self, got, n):
        want = self.value(n)
        if self.obj:
            return np.asarray(got).dtype == object and np.asarray(got).tolist() == want.tolist()
        g = np.asarray(got)
        return g.shape == want.shape and g.dtype == want.dtype and bool(np.all(g == want))


def _npy_path(self, x):
    k = {"perarg": x, "shared": "s", "nopath": "none", "mixed": "a" if x == "a" else "none"}[self.layout]
    return None if k == "none" else self.d / f"{k}.npy"


Npy.path = _npy_path


def replay(chk, case, i, root):
    d = Path(root) / f"h{i}"
    d.mkdir()
    try:
        c = Pickled(d, case["layout"], i)
        for j, e in enumerate(case["hist"]):
            where = {"layout": case["layout"], "hist": case["hist"][: j + 1]}
            if e["op"] == "delete":
                c.file(e["path"]).unlink(missing_ok=True)
            else:
                before = c.evals
                try:
                    r = c.call(e["mode"], e["arg"], e["out"], stable_hash(i, j))
                    res = "value"
                except (Boom, RuntimeError) as err:
                    res = "raise"
                    if e["res"] == "raise" and e["out"] == "raise":
                        chk.expect("exceptions of the function propagate unchanged",
                                   isinstance(err, Boom), where, repr(err))
                except Exception as err:  # noqa: BLE001
                    chk.fail("calls only fail with the function's own error", where, repr(err))
                    return
                if not chk.expect("call outcome", res == e["res"], where, f"{res}, specified {e['res']}"):
                    return
                if not chk.expect("evaluated exactly when specified",
                                  c.evals - before == (1 if e["evaluated"] else 0), where,
                                  f"{c.evals - before} evaluations"):
                    return
                if res == "value":
                    ok = same_result(r, e["val"], c.owner.get(e["val"]))
                    if not chk.expect("returned result", ok, where, f"got eval {getattr(r, 'eid', r)}"):
                        return
            for p, v in e["after"].items():
                if p != "none":
                    if not chk.expect("cache file exists iff a result was saved",
                                      c.file(p).exists() == (v != 0), where, p):
                        return
        if c.layout == "nopath":
            chk.expect("no path, no file", not any(d.iterdir()), case, "files written")
        chk.traces += 1
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay_npy(chk, case, i, root):
    """The sub-histories in which every call is load_or_call_cached."""
    d = Path(root) / f"n{i}"
    d.mkdir()
    try:
        c = Npy(d, case["layout"], i)
        for j, e in enumerate(case["hist"]):
            where = {"npy": True, "variant": i % 4, "layout": case["layout"], "hist": case["hist"][: j + 1]}
            if e["op"] == "delete":
                (c.d / f"{e['path']}.npy").unlink(missing_ok=True)
                continue
            before = c.evals
            c.out = e["out"]
            how = stable_hash(i, j)
            try:
                r = c.fn(e["arg"]) if how % 2 else c.fn(x=e["arg"], y=1)
                res = "value"
            except (Boom, RuntimeError):
                res = "raise"
            except Exception as err:  # noqa: BLE001
                chk.fail("npy: calls only fail with the function's own error", where, repr(err))
                return
            if not chk.expect("npy: call outcome", res == e["res"], where, f"{res}, specified {e['res']}"):
                return
            if not chk.expect("npy: evaluated exactly when specified",
                              c.evals - before == (1 if e["evaluated"] else 0), where, ""):
                return
            if res == "value" and e["out"] != "unsaveable":
                if not chk.expect("npy: returned result", c.same(r, e["val"]), where, repr(r)[:80]):
                    return
        chk.traces += 1
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ schedules
class Stuck:
    """Pickled slowly: waits for the scheduler half-way through saving."""

    def __init__(self, gate):
        self.gate = gate

    def __reduce__(self):
        self.gate()
        return (dict, ())


def replay_conc(chk, case, i, root):
    from surface_potential_analysis.util.decorators import CachedFunction

    d = Path(root) / f"c{i}"
    d.mkdir()
    lock = threading.Lock()
    evals = [0]
    procs = sorted(case["mode"])
    gates = {p: {s: threading.Event() for s in ("begin", "evaluated", "publish")} for p in procs}
    reached = {p: threading.Semaphore(0) for p in procs}
    place = {p: "idle" for p in procs}
    results = {}
    who = threading.local()

    def arrive(p, where):
        place[p] = where
        reached[p].release()

    class Val(dict):
        def __reduce__(self):
            p = getattr(who, "p", None)
            if p is not None:
                arrive(p, "saving")
                gates[p]["publish"].wait(20)
            return (_Val.make, (self.eid, b"z" * 70000))

    def f():
        p = getattr(who, "p", None)
        with lock:
            evals[0] += 1
            n = evals[0]
        if p is not None:
            arrive(p, "eval")
            gates[p]["evaluated"].wait(20)
        v = Val()
        v.eid = n
        v["pad"] = b"z" * 70000
        return v

    fn = CachedFunction(f, d / "x.pkl")
    try:
        if case["pre"]:
            fn.call_cached()

        def body(p):
            who.p = p
            gates[p]["begin"].wait(20)
            try:
                results[p] = ("value", getattr(fn, case["mode"][p])())
            except BaseException as err:  # noqa: BLE001
                results[p] = ("raise", repr(err))
            arrive(p, "done")

        ts = {p: threading.Thread(target=body, args=(p,), daemon=True) for p in procs}
        for t in ts.values():
            t.start()
        bad = None
        for j, s in enumerate(case["sched"]):
            p = s["p"]
            gates[p][s["step"]].set()
            if not reached[p].acquire(timeout=20):
                bad = (j, "no progress")
                break
            # the real place has to be the specified one
            want = "done" if s["done"] else {"begin": "eval", "evaluated": "saving"}[s["step"]]
            if place[p] != want:
                bad = (j, f"{p} is at {place[p]} ({results.get(p)}), specified {want}"[:300])
                break
            if want == "done":
                kind, v = results[p]
                if kind != "value" or getattr(v, "eid", None) != s["val"] or v.get("pad") != b"z" * 70000:
                    bad = (j, f"{p} returned {kind} {getattr(v, 'eid', v)}, specified {s['val']}")
                    break
        for p in procs:
            for g in gates[p].values():
                g.set()
        for t in ts.values():
            t.join(20)
        short = {"mode": case["mode"], "pre": case["pre"],
                 "sched": [(s["p"], s["step"], s["val"]) for s in case["sched"]]}
        if not chk.expect("concurrent callers follow the schedule", bad is None, short, str(bad)):
            return
        who.p = None
        before = evals[0]
        r = fn.load_or_call_uncached()
        chk.expect("the cache ends whole", (case["store"] == 0 and evals[0] == before + 1)
                   or (case["store"] != 0 and r.eid == case["store"]), short, f"{r.eid}")
        chk.traces += 1
    finally:
        shutil.rmtree(d, ignore_errors=True)


class _Val(dict):
    eid = 0

    @staticmethod
    def make(eid, pad):
        v = _Val()
        v.eid = eid
        v["pad"] = pad
        return v


# --------------------------------------------------------- recorded histories
def record(chk, i, root, rng, layout, length, kind):
    """Drive the real cache at random, with processes killed while saving, and
    record what could be observed."""
    d = Path(root) / f"r{i}"
    d.mkdir()
    c = Pickled(d, layout, i) if kind == "pickle" else Npy(d, layout, i)
    ext = "pkl" if kind == "pickle" else "npy"
    paths = sorted({{"perarg": x, "shared": "s", "nopath": "none", "mixed": "a" if x == "a" else "none"}[layout]
                    for x in "ab"})
    modes = (["load_or_call_cached", "load_or_call_uncached", "call_cached", "call_uncached"]
             if kind == "pickle" else ["load_or_call_cached"])
    trace = []
    try:
        for _ in range(length):
            k = rng.random()
            x = rng.choice("ab")
            mode = rng.choice(modes)
            if k < 0.12 and paths != ["none"]:
                p = rng.choice([q for q in paths if q != "none"])
                if (d / f"{p}.{ext}").exists():
                    (d / f"{p}.{ext}").unlink()
                    trace.append({"op": "delete", "path": p})
                continue
            if k < 0.4 and c.path(x) is not None:
                m = rng.choice([m for m in modes if m in ("load_or_call_cached", "call_cached")])
                limit = rng.choice([0, 1, 7, 60, 130, 300, 1000])
                if kind == "npy" and c.variant % 4 in (1, 2):
                    limit = rng.choice([0, 1, 60, 127])
                pid = os.fork()
                if pid == 0:
                    try:
                        os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
                        signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
                        c.out = "ok"
                        if kind == "pickle":
                            getattr(c.fn, m)(x)
                        else:
                            c.fn(x)
                    finally:
                        os._exit(0)
                os.waitpid(pid, 0)
                # the doomed process evaluated (unless it loaded a saved result)
                ev = {"op": "crash", "mode": m, "arg": x}
                trace.append(ev)
                pre = [t for t in trace[:-1]]
                ev["limit"] = limit
                # evaluation ids stay in step: the specification counts the lost evaluation
                if not (m == "load_or_call_cached" and _hit(pre, layout, x)):
                    c.evals += 1
                    c.owner[c.evals] = x
                continue
            out = rng.choice(["ok", "ok", "ok", "raise", "unsaveable", "empty"] if kind == "pickle"
                             else ["ok", "ok", "raise"])
            before = c.evals
            try:
                r = c.call(mode, x, out, rng.randrange(1000)) if kind == "pickle" else _npy_call(c, x, out)
                res = "value"
            except (Boom, RuntimeError):
                res, r = "raise", None
            except Exception as err:  # noqa: BLE001
                res, r = "error " + repr(err)[:100], None
            ev = c.evals > before
            if res == "value":
                if kind == "pickle":
                    val = getattr(r, "eid", -1)
                    if not same_result(r, val, c.owner.get(val)):
                        val = -1
                else:
                    val = next((n for n in range(1, c.evals + 1) if c.same(r, n)), -1)
            else:
                val = 0
            trace.append({"op": "call", "mode": mode, "arg": x, "out": out if ev else "ok",
                          "res": res, "val": val, "evaluated": ev})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return trace


def _hit(trace, layout, x):
    """Would a loading call have found a result (used only to keep evaluation
    numbers aligned after a crash; ambiguous cases are cut off by the caller)."""
    key = {"perarg": lambda a: a, "shared": lambda a: "s", "nopath": lambda a: "none",
           "mixed": lambda a: "a" if a == "a" else "none"}[layout]
    have = False
    for e in trace:
        if e["op"] == "delete" and e["path"] == key(x):
            have = False
        if (e["op"] == "call" and key(e["arg"]) == key(x) and e["res"] == "value"
                and (not e["evaluated"] or e["mode"] in ("load_or_call_cached", "call_cached"))
                and (e["evaluated"] or e["mode"].startswith("load"))):
            have = True
    return have


def _npy_call(c, x, out):
    c.out = out
    return c.fn(x)


def timed_cases(chk):
    """timed is transparent: same arguments, same result, same exception."""
    from surface_potential_analysis.util.decorators import timed

    for out in ("value", "raise"):
        for args, kw in (((1, 2), {}), ((), {"a": 3}), ((1,), {"b": [1]})):
            seen = []
            obj = object()

            def fn(*a, _out=out, _s=seen, _o=obj, **k):
                _s.append((a, k))
                if _out == "raise":
                    raise Boom
                return _o

            buf = io.StringIO()
            case = {"timed": out, "args": args, "kw": kw}
            with contextlib.redirect_stdout(buf):
                try:
                    g = timed(fn)
                    r = g(*args, **kw)
                    res = "value"
                except Boom:
                    res, r = "raise", None
                except Exception as err:  # noqa: BLE001
                    res, r = repr(err), None
            chk.expect("timed: outcome", res == out and (out == "raise" or r is obj), case, res)
            chk.expect("timed: arguments", seen == [(args, kw)], case, repr(seen))
            chk.expect("timed: reports the duration once", buf.getvalue().count("fn") >= 1
                       and len(buf.getvalue().strip().splitlines()) == 1, case, buf.getvalue())


def pickle_cases(chk, root):
    """npy_cached pickles and unpickles only as allowed."""
    from surface_potential_analysis.util.decorators import npy_cached

    d = Path(root) / "pickles"
    d.mkdir()
    objects = np.array([{"a": 1}, None], dtype=object)
    for load in (None, False, True):
        for save in (None, True, False):
            path = d / f"{load}{save}.npy"
            calls = []

            def f(_c=calls):
                _c.append(1)
                return objects

            kw = {k: v for k, v in (("load_pickle", load), ("save_pickle", save)) if v is not None}
            fn = npy_cached(path, **kw)(f)
            case = {"npy": "objects", **kw}
            try:
                first = fn().tolist() == objects.tolist()
            except ValueError:
                first = "refused"
            chk.expect("npy: objects are saved as allowed", first == ("refused" if save is False else True), case, str(first))
            chk.expect("npy: refused objects leave nothing", [x.name for x in d.iterdir()] == ([] if save is False else [path.name]), case, str(list(d.iterdir())))
            try:
                second = fn().tolist() == objects.tolist()
            except ValueError:
                second = "refused"
            want = "refused" if save is False or not load else True
            chk.expect("npy: objects are loaded as allowed", second == want, case, str(second))
            chk.expect("npy: objects: evaluations", len(calls) == (2 if save is False else 1), case, str(len(calls)))
            for x in d.iterdir():
                x.unlink()


def run(chk):
    root = tempfile.mkdtemp(prefix="c01_")
    try:
        depth = 4 if chk.thorough else 3
        inv = ("StoreSound", "NoPathNoSave", "ResultSound", "FreshIsNew", "SavedIsLoaded", "Emit")
        i = chk.seed * 7
        for layout in ("perarg", "shared", "mixed", "nopath"):
            faults = {"raise", "unsaveable", "empty"} if layout in ("perarg", "mixed") else {"raise", "empty"}
            cs = chk.cases("Cache", {"MaxOps": depth if layout != "nopath" else 2, "Layout": layout,
                                     "Faults": faults, "Emitting": True},
                           spec="Spec", invariants=inv, properties=("FailureIsInvisible",))
            cap = 60000 if chk.thorough else 6000
            if len(cs) > cap:
                random.Random(chk.seed).shuffle(cs)
                cs = cs[:cap]
            chk.sample({"layout": layout, "history": cs[0]["hist"]})
            for c in cs:
                i += 1
                replay(chk, c, i, root)
        # longer histories, loads and faults only: npy_cached is the single-mode case
        for layout in ("perarg", "shared", "mixed", "nopath"):
            cs = chk.cases("CacheNpy", {"MaxOps": 5 if chk.thorough else 4, "Layout": layout,
                                        "Faults": {"raise"}, "Emitting": True},
                           spec="NpySpec", invariants=("StoreSound", "ResultSound", "Emit"))
            for c in cs:
                i += 1
                replay_npy(chk, c, i, root)
        cs = []
        for pre in (False, True):
            procs = {"p", "q", "r"} if chk.thorough else {"p", "q"}
            got = chk.cases("CacheConc", {"Procs": procs, "Preloaded": pre, "Emitting": True},
                            spec="Spec", invariants=("Sound", "StoreWhole", "Emit"),
                            properties=("Terminates",))
            random.Random(chk.seed).shuffle(got)
            cs += got[: 1500 if chk.thorough else 400]
        for c in cs:
            i += 1
            replay_conc(chk, c, i, root)
        timed_cases(chk)
        pickle_cases(chk, root)
        # recorded -> specification
        rng = random.Random(chk.seed)
        for layout in ("perarg", "shared", "mixed"):
            traces = []
            for k in range(120 if chk.thorough else 25):
                for kind in ("pickle", "npy"):
                    i += 1
                    traces.append(record(chk, i, root, rng, layout, 12, kind))
            traces = [t for t in traces if t]
            tf = Path(root) / "traces.json"
            tf.write_text(json.dumps(traces))
            r = chk.tlc("CacheTrace", {"MaxOps": 99, "Layout": layout, "Emitting": False,
                                       "Faults": {"raise", "unsaveable", "empty"}},
                        init="TInit", next_="TNext", invariants=("Reached",),
                        env={"TRACE_FILE": str(tf)})
            best = {}
            for m in r.cases:
                best[m["t"]] = max(best.get(m["t"], 0), m["l"])
            for n, t in enumerate(traces, 1):
                got = best.get(n, 0)
                if chk.expect("recorded history is a behaviour of the specification", got == len(t),
                              {"layout": layout, "trace": t[: got + 1]},
                              f"rejected at event {got + 1}: {t[got] if got < len(t) else ''}"):
                    chk.traces += 1
    finally:
        shutil.rmtree(root, ignore_errors=True)
