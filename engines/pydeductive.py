"""The deductive part for the repository's own Python: protocol.py and cli.py against their contracts (pyvc), on every run."""
import os, sys, time, traceback, multiprocessing as mp
from multiprocessing.connection import wait

LIMIT = 240


def specs(prop):
    """[(class name, arguments, label filter)]"""
    docs = [("DocJob", (dict(structs=a, messages=b, enums=c),)) for a in (True, False) for b in (True, False) for c in (True, False)]
    size = [("SizeJob", (w,)) for w in ("Variable.is_simple", "Struct.is_simple", "Protocol.get_size_of")]
    al = lambda o: True
    cyc = lambda o: "cycle" in o["label"] or "contains itself" in o["label"] or o.get("exc") == "RecursionError"
    return {"C12": [(n, a, al) for n, a in docs] + [("EnumJob", (), al)],
            "C13": [("CycleJob", (), al)] + [(n, a, cyc) for n, a in docs],
            "C14": [("EnumJob", (), al)],
            "C15": [(n, a, al) for n, a in size],
            "C17": [("CliJob", (), al)]}.get(prop, [])


def work(conn, name, args):
    try:
        sys.setrecursionlimit(20000)
        from pyvc import protocol, cli
        j = getattr(cli if name == "CliJob" else protocol, name)(*args).run()
        obls = []
        for o in j.obls:
            d = {k: o[k] for k in ("label", "status", "line", "exc") if k in o}
            if o["status"] == "unknown" and not j.unsupported and sum(x["status"] == "unknown" for x in obls) < 2:
                r = j.w.check(list(o["pc"]) + [protocol.Not(o["goal"])], 6000)
                d["status"] = "ok" if r == "unsat" else "fail" if r == "sat" else "unknown"
            if d["status"] != "ok":
                d["condition"] = str(o["goal"])[:500]
                d["path"] = [str(c)[:160] for c in o["pc"][-12:]]
            obls.append(d)
        conn.send(dict(obls=obls, unsupported=j.unsupported, time=j.time, paths=j.paths, queries=j.w.queries, solver=j.w.time))
    except BaseException as e:
        conn.send(dict(obls=[], unsupported=f"engine: {type(e).__name__}: {e}"[:300], time=0, paths=0, queries=0, solver=0))
    conn.close()
    os._exit(0)


def run(ctx, prop=None):
    """(not discharged obligations, what is out of reach)"""
    prop = prop or ctx.prop
    t0 = time.time()
    cx = mp.get_context("fork")
    todo, live, res = list(reversed(specs(prop))), {}, []
    limit = LIMIT * (4 if ctx.deep else 1)
    while todo or live:
        while todo and len(live) < 8:
            n, a, f = todo.pop()
            r, w = cx.Pipe(False)
            p = cx.Process(target=work, args=(w, n, a))
            p.start()
            w.close()
            live[r] = (n, a, f, p, time.time())
        for c in wait(list(live), 1):
            n, a, f, p, t = live.pop(c)
            try:
                v = c.recv()
            except EOFError:
                v = dict(obls=[], unsupported="engine: process ended", time=time.time() - t, paths=0, queries=0, solver=0)
            c.close()
            p.join()
            res.append((n, a, f, v))
        for c in [c for c, v in live.items() if time.time() - v[4] > limit]:
            n, a, f, p, t = live.pop(c)
            p.kill()
            p.join()
            c.close()
            res.append((n, a, f, dict(obls=[], unsupported=f"no answer in {limit} s", time=limit, paths=0, queries=0, solver=0)))
    bad, left = [], []
    by = {}
    n = ok = q = 0
    s = 0.0
    for name, a, f, v in sorted(res, key=lambda x: (x[0], str(x[1]))):
        where = {"DocJob": "Protocol.__init__", "EnumJob": "Enum.__init__", "CycleJob": "check_for_cycles", "CliJob": "cli.main"}.get(name, a[0] if a and isinstance(a[0], str) else name)
        if a and isinstance(a[0], dict):
            where += " with " + (" and ".join(k for k, h in a[0].items() if h) or "nothing declared")
        q += v["queries"]
        s += v["solver"]
        mine = [o for o in v["obls"] if f(o)]
        good = sum(o["status"] == "ok" for o in mine)
        if v["unsupported"]:
            left.append(f"{where}: {v['unsupported']}")
        b = by.setdefault(where, dict(obligations=0, discharged=0, paths=0))
        b["obligations"] += len(mine)
        b["discharged"] += good
        b["paths"] += v["paths"]
        if v["unsupported"]:
            b["out_of_reach"] = v["unsupported"]
        n += len(mine)
        ok += good
        if not v["unsupported"]:
            bad += [(where, o) for o in mine if o["status"] != "ok"]
    c = ctx.coverage
    c["obligations"] = c.get("obligations", 0) + n
    c["discharged"] = c.get("discharged", 0) + ok
    c["functions_under_contract"] = c.get("functions_under_contract", 0) + len({w.split(" with ")[0] for w in by if not by[w].get("out_of_reach")})
    c["python_queries"] = q
    c["python_solver_s"] = round(s, 1)
    c["python_wall_s"] = round(time.time() - t0, 1)
    c["python_functions"] = by
    c["python_out_of_reach"] = left
    if not n:
        ctx.undecided.append("no obligation was generated for the Python code")
    return bad, left
