"""Runs the contracts and scenarios of one property and decides the verdict."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def paths():
    sys.dont_write_bytecode = True
    for p in (ROOT, REPO):
        if p not in sys.path:
            sys.path.insert(0, p)
    v = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if v not in sys.path:
        sys.path.append(v)


def seed_of(*xs):
    h = hashlib.sha256(repr(xs).encode()).digest()
    return int.from_bytes(h[:8], "big")


def fresh_loader(setup=None):
    from . import instr, libs
    ls = libs.make()
    return instr.Loader(REPO, ls)


# ---------------------------------------------------------------------------------------------- symbolic side
def run_proof(item, quick=True):
    """symbolic execution and discharge; returns a plain dict"""
    from . import core, dsl, prove, absfn, rt, terms as T
    from .terms import Unsupported
    E = core.E
    E.reset()
    t0 = time.time()
    out = {"name": item.name, "obls": [], "undecided": [], "paths": 0, "covers": [], "functions": [], "bounded": item.bounded}
    budget = item.budget * (1 if quick else 4)
    E.deadline = t0 + item.time * (1 if quick else 3)
    del rt.WHILE_RULES[:]
    del rt.FOR_RULES[:]
    from . import npx
    del npx.OPAQUE[:]
    del rt.CARRY[:]
    from . import scirot
    del scirot.ALIGN[:]
    try:
        loader = fresh_loader()
        c = dsl.SymCtx(loader)
        if item.setup:
            item.setup(c)

        def once():
            try:
                item.fn(c)
            except (core.PathEnd, Unsupported):
                raise
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                where = "spec"
                for f in reversed(tb):
                    if "/czone/" in f.filename:
                        where = "%s:%d" % (f.filename[f.filename.rindex("/czone/") + 1:], f.lineno)
                        break
                eng = "/verif/vc/" in tb[-1].filename and not isinstance(e, (ValueError, TypeError, ZeroDivisionError, KeyError, IndexError, AssertionError, NotImplementedError))
                if os.environ.get("VC_DEBUG"):
                    traceback.print_exc()
                E.oblige("no unexpected %s at %s: %s%s" % (type(e).__name__, where, str(e)[:200], " (in the engine)" if eng else ""), T.FALSE, kind="raise", where=where)
        out["paths"] = core.explore_top(once, max_paths=item.max_paths)
    except Unsupported as e:
        out["undecided"].append("not executable symbolically: %s [%s]" % (str(e)[:500], last_czone(e)))
        if os.environ.get("VC_DEBUG"):
            traceback.print_exc()
    except RecursionError as e:
        out["undecided"].append("recursion limit in the engine")
        if os.environ.get("VC_DEBUG"):
            traceback.print_exc()
    except Exception as e:
        out["undecided"].append("engine failure: %s: %s" % (type(e).__name__, str(e)[:300]))
        if os.environ.get("VC_DEBUG"):
            traceback.print_exc()
    out["exec_s"] = round(time.time() - t0, 3)
    out["functions"] = sorted(E.functions)
    seen = {}
    limit = time.time() + item.time * (1 if quick else 3)
    for o in E.obligations:
        rec = {"label": o.label, "where": o.where, "kind": o.kind, "path": o.path}
        key = (o.goal.id, tuple(b.id for b in o.pc))
        if key in seen:
            rec.update(seen[key])
        else:
            t1 = time.time()
            if time.time() > limit:
                rec.update(status="unknown", backend="", time=0.0, detail="time limit of the proof reached")
            else:
                try:
                    r = prove.prove(o.pc, o.goal, budget)
                    rec.update(status=r.status, backend=r.backend, time=round(time.time() - t1, 4))
                    if r.status != "proved":
                        rec["detail"] = (r.detail + " goal: " + repr(o.goal))[:1500]
                        rec["assumptions"] = [repr(b)[:300] for b in o.pc][:40]
                        if r.model is not None:
                            rec["values"] = model_values(r.model, o.inputs)
                except Unsupported as e:
                    rec.update(status="unknown", backend="", time=round(time.time() - t1, 4), detail="not expressible: %s" % e)
            seen[key] = {k: rec[k] for k in ("status", "backend", "time") if k in rec}
            seen[key]["time"] = 0.0
        out["obls"].append(rec)
    cv = {}
    for label, pc in E.covers:
        if cv.get(label):
            continue
        cv[label] = cover_sat(pc)
    out["covers"] = sorted(cv.items())
    out["time"] = round(time.time() - t0, 3)
    return out


def last_czone(e):
    for f in reversed(traceback.extract_tb(e.__traceback__)):
        if "/czone/" in f.filename:
            return "%s:%d" % (f.filename[f.filename.rindex("/czone/") + 1:], f.lineno)
    return "spec"


def cover_sat(pc):
    """is the path condition satisfiable?  True unless shown contradictory"""
    from . import prove, terms as T
    if any(b is T.FALSE for b in pc):
        return False
    try:
        return not prove.contradictory(pc)
    except BaseException:
        return True


def model_values(model, inputs):
    from . import terms as T
    from fractions import Fraction
    out = {}
    for name, p in inputs.items():
        try:
            if name.startswith("array:"):
                nm, sh, kind = p
                dims = []
                for d in sh:
                    v = d if isinstance(d, int) else model.value(d)
                    dims.append(int(v))
                n = 1
                for d in dims:
                    n *= d
                if n > 2000 or any(d < 0 for d in dims):
                    continue
                import itertools
                flat = []
                for idx in itertools.product(*[range(d) for d in dims]):
                    ix = [T.const(i) for i in idx]
                    if kind == "b":
                        flat.append(bool(model.truth(T.bapp(nm, ix))))
                    else:
                        v = model.value(T.app(nm, ix, kind == "i"))
                        flat.append(float(v) if kind != "i" else int(v))
                import numpy as np
                out[name] = np.array(flat, dtype=bool if kind == "b" else float if kind == "f" else int).reshape(dims).tolist()
            elif isinstance(p, T.Bool):
                out[name] = bool(model.truth(p))
            else:
                v = model.value(p)
                if v is not None:
                    out[name] = int(v) if p.is_int else float(v)
        except Exception:
            continue
    return out


# ---------------------------------------------------------------------------------------------- concrete side
class Tally:
    def __init__(self):
        self.n = self.skipped = self.checked = self.undecided = 0
        self.distinct = set()
        self.samples = []
        self.fail = None


def con_once(item, rng, values, tally, keep_sample=False):
    from . import dsl
    c = dsl.ConCtx(None, rng, values)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            item.fn(c)
    except dsl.Skip:
        tally.skipped += 1
        return None
    except dsl.Violated as v:
        return {"label": v.label, "info": v.info, "values": jsonable(c.values)}
    except Exception as e:
        return {"label": "no unexpected exception", "info": "%s: %s" % (type(e).__name__, str(e)[:300]),
                "trace": traceback.format_exc()[-1500:], "values": jsonable(c.values)}
    tally.n += 1
    tally.checked += c.checked
    tally.undecided += c.undecided
    if c.checked:
        tally.distinct.add(hashlib.md5(repr(sorted(jsonable(c.values).items())).encode()).hexdigest())
        if len(tally.samples) < 1:
            tally.samples.append({k: v for k, v in list(jsonable(c.values).items())[:12]})
    return None


def jsonable(d):
    import numpy as np
    out = {}
    for k, v in d.items():
        if isinstance(v, np.ndarray):
            v = v.tolist()
        elif isinstance(v, (np.integer,)):
            v = int(v)
        elif isinstance(v, (np.floating,)):
            v = float(v)
        elif isinstance(v, np.bool_):
            v = bool(v)
        out[k] = v
    return out


def run_con(item, seed, n, cap, salt="con"):
    """n concrete evaluations of a contract on the real package"""
    import numpy as np
    t = Tally()
    t0 = time.time()
    i = 0
    while i < n and time.time() - t0 < cap:
        f = con_once(item, np.random.default_rng(seed_of(seed, salt, item.name, i)), None, t)
        if f:
            t.fail = f
            break
        i += 1
    return t


class ScnCtx:
    def __init__(self, seed):
        import numpy as np
        self.rng = np.random.default_rng(seed)
        self.np = np
        self.checked = 0
        self.notes = {}

    def check(self, label, cond, info=""):
        from . import dsl
        self.checked += 1
        if not bool(cond):
            raise dsl.Violated(label, info() if callable(info) else str(info))

    def close(self, label, a, b, tol=1e-6, info=""):
        np = self.np
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        ok = a.shape == b.shape and (a.size == 0 or bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(a) + np.abs(b)))))
        self.check(label, ok, lambda: "%s got %s expected %s" % (info, np.array2string(a, threshold=20), np.array2string(b, threshold=20)))

    def same(self, label, a, b, info=""):
        np = self.np
        a, b = np.asarray(a), np.asarray(b)
        self.check(label, a.shape == b.shape and bool(np.all(a == b)), info)

    def raises(self, label, exc, f):
        from . import dsl
        self.checked += 1
        try:
            f()
        except exc:
            return
        except Exception as e:
            raise dsl.Violated(label, "raised %s instead: %s" % (type(e).__name__, e))
        raise dsl.Violated(label, "nothing was raised")

    def skip(self):
        from . import dsl
        raise dsl.Skip()

    def note(self, **k):
        self.notes.update(k)


def scn_once(item, seed):
    from . import dsl
    import numpy as np
    c = ScnCtx(seed)
    np.random.seed(seed % (2 ** 32))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            item.fn(c)
    except dsl.Skip:
        return "skip", c, None
    except dsl.Violated as v:
        return "fail", c, {"label": v.label, "info": v.info[:1500]}
    except Exception as e:
        return "fail", c, {"label": "no unexpected exception", "info": "%s: %s" % (type(e).__name__, str(e)[:300]),
                           "trace": traceback.format_exc()[-1500:]}
    return "ok", c, None


def run_scn(item, seed, n, cap, start=0):
    t = Tally()
    t0 = time.time()
    i = start
    while i < start + n and time.time() - t0 < cap:
        s = seed_of(seed, "scn", item.name, i)
        st, c, f = scn_once(item, s)
        if st == "fail":
            f["scenario"] = item.name
            f["seed"] = s
            t.fail = f
            break
        if st == "skip":
            t.skipped += 1
        else:
            t.n += 1
            t.checked += c.checked
            if c.checked:
                t.distinct.add(s)
            if not t.samples:
                t.samples.append({"scenario": item.name, "seed": s, "checks": c.checked, **jsonable(c.notes)})
        i += 1
    return t


# ---------------------------------------------------------------------------------------------- tasks
def _child(fn, args, conn):
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    except Exception:
        pass
    sys.setrecursionlimit(20000)
    try:
        r = ("ok", fn(*args))
    except MemoryError:
        r = ("error", "out of memory")
    except BaseException as e:
        r = ("error", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-2000:]))
    try:
        conn.send(r)
        conn.close()
    except BaseException:
        pass
    sys.stdout.flush()
    os._exit(0)


def parallel(tasks, workers=8, grace=None):
    """tasks: [(key, fn, args, hard limit)]; yields (key, 'ok'|'error'|'timeout', value).  grace(key, st, v): seconds left for the
    tasks that are still running or waiting, or None"""
    stop_at = None
    ctx = mp.get_context("fork")
    todo = list(tasks)
    running = []
    out = []
    while todo or running:
        while todo and len(running) < workers:
            key, fn, args, lim = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(fn, args, b))
            p.start()
            b.close()
            running.append((key, p, a, time.time() + lim))
        time.sleep(0.005)
        for r in list(running):
            key, p, a, dl = r
            if a.poll():
                try:
                    st, v = a.recv()
                except (EOFError, OSError):
                    st, v = "error", "the process ended without a result"
                p.join()
                out.append((key, st, v))
                running.remove(r)
                g = grace(key, st, v) if grace else None
                if g is not None:
                    stop_at = min(stop_at or 1e18, time.time() + g)
            elif not p.is_alive():
                if a.poll(0.2):
                    continue
                out.append((key, "error", "the process ended without a result (exit code %s)" % p.exitcode))
                running.remove(r)
            elif time.time() > dl or (stop_at and time.time() > stop_at and key[0] == "proof"):
                p.kill()
                p.join()
                out.append((key, "timeout", None))
                running.remove(r)
    return out


def tally_dict(t):
    return {"n": t.n, "skipped": t.skipped, "checked": t.checked, "undecided": t.undecided, "distinct": len(t.distinct), "samples": t.samples, "fail": t.fail}


def t_proof(item, quick):
    return run_proof(item, quick)


def t_con(item, seed, n, cap, salt):
    return tally_dict(run_con(item, seed, n, cap, salt))


def t_scn(item, seed, n, cap, start):
    return tally_dict(run_scn(item, seed, n, cap, start))


def t_replay(item, values):
    import numpy as np
    t = Tally()
    f = con_once(item, np.random.default_rng(0), values, t)
    return f


def load_known():
    """known-findings file: KNOWN lines identify the failing clause of a property"""
    known = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: "):
                rest = l[len("known: "):]
                pid, what = rest.split(" ", 1)
                known.setdefault(pid.split("=")[1], []).append(what)
    return known


def load_spec(prop):
    m = importlib.import_module("specs." + prop.lower())
    return m


def write_replay(prop, data):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.md5(json.dumps(data, sort_keys=True, default=str).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s.json" % (prop, h))
    with open(p, "w") as f:
        json.dump(data, f, indent=1, default=str)
    return p


def check(prop, tier, seed, only=None, verbose=False):
    t0 = time.time()
    paths()
    quick = tier == "quick"
    spec = load_spec(prop)
    R = spec.R
    err = None
    # the real package
    try:
        import czone  # noqa
        for m in getattr(spec, "MODULES", ()):
            importlib.import_module(m)
    except Exception as e:
        err = "the package does not import: %s: %s" % (type(e).__name__, e)
    import numpy  # noqa
    from . import dsl, prove, core, rt  # noqa (before forking)
    tasks = []
    proofs = {p.name: p for p in R.proofs if not only or only in p.name}
    scns = {s.name: s for s in R.scenarios if not only or only in s.name}
    if err is None:
        for s in scns.values():
            n = s.quick if quick else s.thorough
            cap = s.cap if quick else s.cap * 15
            k = 1 if quick and n <= 8 else 2 if quick else 4
            per = (n + k - 1) // k
            for j in range(k):
                tasks.append((("scn", s.name, j), t_scn, (s, seed, per, cap, j * per), cap * 2 + 120))
        for p in proofs.values():
            tasks.append((("proof", p.name), t_proof, (p, quick), p.time * (2 if quick else 6) + 60))
            if p.con:
                tasks.append((("con", p.name), t_con, (p, seed, p.con if quick else p.con * 20, 10.0 if quick else 120.0, "con"), 400))
        # long ones first
        order = {"proof": 0, "scn": 1, "con": 2}
        tasks.sort(key=lambda t: (order[t[0][0]], -(proofs[t[0][1]].time if t[0][0] == "proof" else 0)))
    def grace(key, st, v):
        # a failing input on the real code decides the verdict: the proofs get a little longer to name obligations
        return 20.0 if quick and key[0] != "proof" and (st != "ok" or v["fail"]) else None
    res = parallel(tasks, int(os.environ.get("VC_WORKERS", "8")), grace)
    presults, cons, scr = {}, {}, {}
    undecided = []            # (proof name, reason, record)
    failures = []             # concrete failures
    for key, st, v in res:
        if key[0] == "proof":
            if st != "ok":
                v = {"name": key[1], "obls": [], "undecided": ["%s: %s" % (st, v)], "paths": 0, "covers": [], "functions": [], "time": 0, "exec_s": 0, "bounded": proofs[key[1]].bounded}
            presults[key[1]] = v
        else:
            if st != "ok":
                if st == "timeout":
                    failures.append({"kind": "hang", "item": key[1], "fail": {"label": "terminates", "info": "no answer within the time limit"}})
                else:
                    failures.append({"kind": "crash", "item": key[1], "fail": {"label": "no crash", "info": str(v)[:800]}})
                continue
            if v["fail"]:
                failures.append({"kind": key[0], "item": key[1], "fail": v["fail"]})
            d = cons if key[0] == "con" else scr
            o = d.setdefault(key[1], {"n": 0, "skipped": 0, "checked": 0, "undecided": 0, "distinct": 0, "samples": []})
            for k in ("n", "skipped", "checked", "undecided", "distinct"):
                o[k] += v[k]
            o["samples"] = (o["samples"] + v["samples"])[:1]
    nobl = ndis = 0
    backends = {}
    solver = 0.0
    functions = set()
    bad = []
    bounded = []
    for name, v in presults.items():
        functions |= set(v["functions"])
        for o in v["obls"]:
            if v["bounded"]:
                continue
            nobl += 1
            solver += o.get("time", 0)
            if o["status"] == "proved":
                ndis += 1
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
        for o in v["obls"]:
            if o["status"] != "proved":
                bad.append((name, o))
        for u in v["undecided"]:
            bad.append((name, {"label": "execution of the contract", "where": "", "kind": "undecided", "status": "undecided", "detail": u}))
        for label, ok in v["covers"]:
            if not ok:
                bad.append((name, {"label": "reachable: " + label, "where": "spec", "kind": "cover", "status": "vacuous", "detail": "the precondition is contradictory"}))
        if not v["obls"] and not v["undecided"]:
            bad.append((name, {"label": "obligations were generated", "where": "spec", "kind": "vacuity", "status": "vacuous", "detail": "no obligations"}))
        if v["bounded"]:
            bounded.append({"contract": name, "bound": v["bounded"], "obligations": len(v["obls"]), "discharged": sum(o["status"] == "proved" for o in v["obls"])})
        for t in proofs[name].targets:
            if not any(f == t or f.startswith(t + ".") for f in v["functions"]):
                bad.append((name, {"label": "executes " + t, "where": "spec", "kind": "target", "status": "vacuous", "detail": "the function under contract was not reached"}))
    # replays for failed obligations
    if bad and err is None and not failures and not os.environ.get("VC_NODEEP"):
        failures += replay_bad(prop, proofs, scns, bad, seed, quick)
    if verbose:
        for name, v in sorted(presults.items()):
            print("proof %-40s %3d obl %3d proved paths %d exec %.1fs total %.1fs" % (name, len(v["obls"]), sum(o["status"] == "proved" for o in v["obls"]), v["paths"], v.get("exec_s", 0), v.get("time", 0)))
        for name, o in bad:
            print("  NOT PROVED [%s] %s @%s (%s) %s" % (name, o["label"], o["where"], o["status"], str(o.get("detail", ""))[:700]))
            if os.environ.get("VC_PC"):
                for a in o.get("assumptions", []):
                    print("       |", a)
                print("      values:", o.get("values"))
        for d in (cons, scr):
            for k, o in sorted(d.items()):
                print("run %-40s n=%d skipped=%d checked=%d undecided=%d" % (k, o["n"], o["skipped"], o["checked"], o["undecided"]))
        for f in failures:
            print("  FAIL", json.dumps(f, default=str)[:1500])
    known = load_known().get(prop, [])
    known_hit, new = [], []
    for f in failures:
        tag = "%s/%s" % (f["item"], f["fail"]["label"])
        if any(k.split(" ")[0] == tag.replace(" ", "_") for k in known):
            known_hit.append(tag)
        else:
            new.append(f)
    viol = 0
    lines = []
    if err is not None:
        p = write_replay(prop, {"property": prop, "error": err})
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p))
        viol = 1
    elif new:
        f = new[0]
        f = dict(f)
        f["property"] = prop
        f["failed_obligations"] = [{"contract": n, **{k: o.get(k) for k in ("label", "where", "status", "detail")}} for n, o in bad][:10]
        p = write_replay(prop, f)
        lines.append("VIOLATION property=%s replay=%s" % (prop, p))
        viol = len(new)
    elif bad:
        p = write_replay(prop, {"property": prop, "failed_obligations": [{"contract": n, **o} for n, o in bad][:20]})
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p))
        viol = len(bad)
    wall = time.time() - t0
    targets = sorted({t for p in proofs.values() for t in p.targets})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": getattr(spec, "LEVEL", "proof"),
        "coverage": {
            "obligations": nobl, "discharged": ndis,
            "checker_cmd": "/opt/venv/bin/python check.py %s --tier %s" % (prop, tier),
            "trusted_base": list(getattr(spec, "TRUSTED", [])) + BASE_TRUST,
            "backends": backends, "solver_seconds": round(solver, 3),
            "functions_under_contract": targets,
            "functions_executed_symbolically": sorted(functions),
            "contracts": {n: {"obligations": len(v["obls"]), "discharged": sum(o["status"] == "proved" for o in v["obls"]), "paths": v["paths"], "seconds": v.get("time")} for n, v in sorted(presults.items())},
            "bounded_contracts": bounded,
            "undischarged": [{"contract": n, "label": o["label"], "where": o["where"], "status": o["status"]} for n, o in bad][:30],
            "vacuity_covers": sum(len(v["covers"]) for v in presults.values()),
            "evaluations": sum(o["n"] for o in cons.values()) + sum(o["n"] for o in scr.values()),
            "distinct_nontrivial": sum(o["distinct"] for o in cons.values()) + sum(o["distinct"] for o in scr.values()),
            "rule": "contracts and scenarios evaluated on the real package with seeded random inputs; non-trivial: at least one postcondition was evaluated and the inputs differ",
            "contract_evaluations": sum(o["checked"] for o in cons.values()) + sum(o["checked"] for o in scr.values()),
            "samples": [o["samples"][0] for o in list(scr.values()) + list(cons.values()) if o["samples"]][:4],
        },
        "assumptions": list(getattr(spec, "ASSUMPTIONS", [])) + BASE_ASSUME,
        "wall_s": round(wall, 2), "violations": viol,
    }
    if not only:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for k in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    print("%s tier=%s: %d obligations, %d discharged (%s), solver %.1fs; %d concrete evaluations; %.1fs" %
          (prop, tier, nobl, ndis, ", ".join("%s %d" % kv for kv in sorted(backends.items())), solver, ev["coverage"]["evaluations"], wall))
    for n, o in bad[:10]:
        print("undischarged obligation: [%s] %s @%s (%s)" % (n, o["label"], o["where"], o["status"]))
    for l in lines:
        print(l)
    sys.stdout.flush()
    return 1 if viol else 0


BASE_TRUST = [
    "the engine in /verif/vc: loop and array rules, library contracts of numpy in vc/npx.py and vc/arr.py",
    "z3 4.x through its Python API",
    "CPython 3.12 executing the real source with loops, comprehensions and displays redirected to the rules (vc/instr.py)",
]
BASE_ASSUME = [
    "floating point arithmetic is treated as exact real arithmetic; float constants as the simplest rational that rounds to them",
    "extraction drops annotations only; loop bodies, comprehensions and list/dict displays are redirected to the engine's rules",
]


def replay_bad(prop, proofs, scns, bad, seed, quick):
    """replay solver models on the real code, then search harder"""
    tasks = []
    names = []
    for i, (name, o) in enumerate(bad[:24]):
        if name not in names:
            names.append(name)
        if o.get("values"):
            tasks.append((("replay", name, i), t_replay, (proofs[name], o["values"]), 60))
    out = []
    for key, st, v in parallel(tasks):
        if st == "ok" and v:
            out.append({"kind": "model", "item": key[1], "fail": v})
    if out:
        return out
    tasks = []
    cap = 40.0 if quick else 200.0
    for name in names:
        if proofs[name].con:
            for j in range(max(1, 8 // max(1, len(names)))):
                tasks.append((("con", name, j), t_con, (proofs[name], seed, 100000, cap, "deep%d" % j), cap + 120))
    for s in scns.values():
        for j in range(2):
            tasks.append((("scn", s.name, j), t_scn, (s, seed, 100000, cap, 100000 * (j + 1)), cap + 120))
    for key, st, v in parallel(tasks):
        if st == "ok" and v["fail"]:
            out.append({"kind": key[0], "item": key[1], "fail": v["fail"]})
    return out


def replay_file(prop, path):
    paths()
    spec = load_spec(prop)
    d = json.load(open(path))
    f = d.get("fail")
    if not f:
        print(json.dumps(d, indent=1)[:4000])
        return 1
    if "scenario" in f:
        item = [s for s in spec.R.scenarios if s.name == f["scenario"]][0]
        st, c, g = scn_once(item, f["seed"])
        print(st, g)
        return 1 if st == "fail" else 0
    item = [s for s in spec.R.proofs if s.name == d["item"]][0]
    g = t_replay(item, f["values"])
    print(g)
    return 1 if g else 0
