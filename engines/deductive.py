"""The deductive part: obligations of the generated code, function by function, discharged by the solver on every run.

One job = one function of one generated module against its contract (bvc/jobs.py).  A job that the engine refutes gives
a countermodel, made concrete and run on the compiled code; one it cannot treat is reported as such (its bounded stand-in decides)."""
import os, sys, json, time, hashlib, signal, traceback, multiprocessing as mp
from multiprocessing.connection import wait
import z3
from bvc import fronts, concrete
from bvc.jobs import Mod, Job, jobs_for
from harness import pyside
from harness.common import generate, VERIF, BUILD
from spec.proto import Proto

KINDS = {"C01": ["write", "dispatch"], "C02": ["write", "read"], "C03": ["size", "dispatch"], "C04": ["read"], "C05": ["read"], "C06": ["process"],
         "C07": ["packsize", "pack", "unpack", "dispatch"], "C08": ["unpack"], "C09": ["default"], "C10": ["id", "write", "process"],
         "C18": ["write", "read"], "C19": ["write", "read", "size"],
         "C11": ["own_" + k for k in ("read", "write", "size", "default", "pack", "packsize", "process", "unpack", "dispatch", "destroy", "destroylist", "destroyany")]}
LANGS = {"C11": ["c"]}
LIMIT = 120


def modules(langs, kernels, more=()):
    """[(lang, kernel name, proto, module or error)]"""
    ks = [k for k in pyside.kernels() if kernels is None or os.path.basename(k)[:-5] in kernels] + list(more)
    specs = [(l, k) for l in langs for k in ks]
    res = generate([{"lang": l, "protocol": k, "args": {}} for l, k in specs])
    out = []
    by = {}
    for (l, k), r in zip(specs, res):
        by.setdefault(l, []).append((k, r))

    def one(l):
        rs = by[l]
        good = [(k, r["text"]) for k, r in rs if r["ok"]]
        o = [(l, k, None, "the writer fails: " + r["error"]) for k, r in rs if not r["ok"]]
        try:
            ms = fronts.parse(l, [t for _, t in good])
        except Exception as e:
            return o + [(l, k, None, "front end: " + str(e)[:300]) for k, _ in good]
        for (k, _), m in zip(good, ms):
            o.append((l, k, None, "front end: " + str(m["error"])[:300]) if "error" in m else (l, k, m, None))
        return o
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(len(by) or 1) as ex:
        for o in ex.map(one, by):
            out += o
    return out


def work(conn, lang, path, mod, kind, t, prop):
    """in a process of its own"""
    try:
        sys.setrecursionlimit(20000)
        L = fronts.make(lang, Mod(mod), Proto.load(path), kind)
        j = Job(L, kind, t)
        try:
            j.run()
        except Exception as e:
            j.unsupported = f"engine: {type(e).__name__}: {e} at " + traceback.format_exc().strip().splitlines()[-3].strip()[:160]
            j.time = time.time() - j.t0
        obls = []
        ncex = 0
        for o in j.obls:
            d = {"props": o["props"], "label": o["label"], "status": o["status"]}
            if o["status"] != "ok":
                d["cond"] = str(o["cond"])[:600]
                if o["status"] == "fail" and prop in o["props"] and ncex < 3:
                    ncex += 1
                    try:
                        d["cases"] = concrete.cases(j, o)
                    except Exception as e:
                        d["nocex"] = f"{type(e).__name__}: {e}"[:200]
            obls.append(d)
        conn.send(dict(obls=obls, unsupported=j.unsupported, time=j.time, paths=j.paths, queries=j.ex.w.nsolve, solver=j.ex.w.tsolve, assumed=sorted(map(str, j.ex.assumed))))
    except BaseException as e:
        conn.send(dict(obls=[], unsupported=f"engine: {type(e).__name__}: {e}", time=0, paths=0, queries=0, solver=0, assumed=[]))
    conn.close()
    os._exit(0)


def run_jobs(jobs, prop, procs=8, limit=LIMIT):
    """jobs: [(lang, path, mod, kind, t)]; yields (job, result)"""
    ctx = mp.get_context("fork")
    todo = list(reversed(jobs))
    live = {}
    res = []
    while todo or live:
        while todo and len(live) < procs:
            jb = todo.pop()
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=work, args=(b, *jb, prop))
            p.start()
            b.close()
            live[a] = (jb, p, time.time())
        for c in wait(list(live), 1):
            jb, p, t0 = live.pop(c)
            try:
                r = c.recv()
            except EOFError:
                r = dict(obls=[], unsupported="engine: process ended", time=time.time() - t0, paths=0, queries=0, solver=0, assumed=[])
            c.close()
            p.join()
            res.append((jb, r))
        now = time.time()
        for c in [c for c, v in live.items() if now - v[2] > limit]:
            jb, p, t0 = live.pop(c)
            p.kill()
            p.join()
            c.close()
            res.append((jb, dict(obls=[], unsupported=f"no answer in {limit} s", time=now - t0, paths=0, queries=0, solver=0, assumed=[])))
    return res


HEAVY = {"own_process": 6, "own_destroy": 5, "process": 6, "size": 3, "read": 2, "write": 2}


def jobs_of(mods, kinds):
    jobs, err = [], []
    for l, k, m, e in mods:
        if e:
            err.append((l, k, e))
            continue
        try:
            L = fronts.make(l, Mod(m), Proto.load(k))
            for kind, t in jobs_for(L):
                if kind in kinds:
                    jobs.append((l, k, m, kind, t))
        except Exception as ex:
            err.append((l, k, f"{type(ex).__name__}: {ex}"))
    jobs.sort(key=lambda j: -(HEAVY.get(j[3], 1) * (3 if os.path.basename(j[1]) in ("structs.toml", "repeat.toml", "enums.toml", "many.toml") else 1)))
    return jobs, err


def run(ctx, langs, kernels=None, more=()):
    """obligations of ctx.prop; returns {(lang, kernel path): [reasons]} of what is left to the bounded stand-in, and the refuted ones"""
    t0 = time.time()
    P = ctx.prop
    mods = modules(langs, kernels, more)
    jobs, err = jobs_of(mods, KINDS[P])
    left, refuted = {}, []
    for l, k, e in err:
        left.setdefault((l, k), []).append(e)
    n = ok = 0
    fns = 0
    solver = queries = 0
    assumed = set()
    bylang = {}
    for (l, k, m, kind, t), r in run_jobs(jobs, P, limit=LIMIT * (5 if ctx.deep else 1)):
        solver += r["solver"]
        queries += r["queries"]
        assumed |= {f"{l}: {a}" for a in r["assumed"]}
        mine = [o for o in r["obls"] if P in o["props"]]
        n += len(mine)
        good = sum(o["status"] == "ok" for o in mine)
        ok += good
        bl = bylang.setdefault(l, dict(functions=0, obligations=0, discharged=0, not_discharged=[]))
        bl["obligations"] += len(mine)
        bl["discharged"] += good
        where = f"{kind} {t or ''}".strip()
        if r["unsupported"]:
            left.setdefault((l, k), []).append(f"{where}: {r['unsupported']}")
            bl["not_discharged"].append(f"{os.path.basename(k)[:-5]}: {where}: {r['unsupported'][:120]}")
            continue
        fns += 1
        bl["functions"] += 1
        for o in mine:
            if o["status"] == "fail":
                refuted.append((l, k, kind, t, o))
            elif o["status"] != "ok":
                left.setdefault((l, k), []).append(f"{where}: {o['label']}: no answer")
                bl["not_discharged"].append(f"{os.path.basename(k)[:-5]}: {where}: {o['label']}: no answer")
    for b in bylang.values():
        b["not_discharged"] = b["not_discharged"][:20]
    c = ctx.coverage
    c["obligations"] = c.get("obligations", 0) + n
    c["discharged"] = c.get("discharged", 0) + ok
    c["functions_under_contract"] = c.get("functions_under_contract", 0) + fns
    c["solver_queries"] = queries
    c["solver_s"] = round(solver, 1)
    c["deductive_wall_s"] = round(time.time() - t0, 1)
    c["by_language"] = bylang
    c["left_to_bounded"] = [f"{l}:{os.path.basename(k)[:-5]}: {x}"[:200] for (l, k), v in left.items() for x in v][:40]
    c["modules_without_front_end_result"] = len(err)
    ctx.assumptions += sorted(assumed)
    return left, refuted
