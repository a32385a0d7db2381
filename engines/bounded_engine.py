"""Bounded cross-checks: the compiled code of every runnable target against the reference codec, on generated inputs.
They decide nothing on their own where an obligation is discharged; they replay, and stand in where no proof is in reach."""
import os, sys, json, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
from harness import bounded, pyside
from harness.langs import make_units, LANGS, Unit
from harness.common import VERIF, Driver
from spec.proto import Proto

OPTS = {"go": {"go_no_rename": True}, "rust": {"rust_no_rename": True}, "typescript": {"typescript_use_namespace": True}}


def kernel_units(langs=None, kernels=None, extra=True, deep=False, more=()):
    ks = [k for k in pyside.kernels() if kernels is None or os.path.basename(k)[:-5] in kernels] + list(more)
    specs = [dict(lang=l, proto_path=k) for l in (langs or LANGS) for k in ks]
    return make_units(specs)


def option_units(deep=False):
    specs = []
    K = lambda n: os.path.join(VERIF, "kernels", n + ".toml")
    for l in LANGS:
        for k in (("names", "structs", "enums", "lists") if deep else ("names", "structs")):
            specs.append(dict(lang=l, proto_path=K(k), namespace="OptSpace", indent="\t", opts={"embed_protocol": True}, label=f"{l}:{k} namespace=OptSpace indent=tab embedded"))
            specs.append(dict(lang=l, proto_path=K(k), indent="  ", label=f"{l}:{k} indent=2"))
            if l in OPTS:
                specs.append(dict(lang=l, proto_path=K(k), opts=OPTS[l], label=f"{l}:{k} {list(OPTS[l])[0]}"))
                specs.append(dict(lang=l, proto_path=K(k), opts={**OPTS[l], "embed_protocol": True}, namespace="Q9", indent="  ", label=f"{l}:{k} {list(OPTS[l])[0]} namespace=Q9 indent=2 embedded"))
        specs.append(dict(lang=l, proto_path=K("nometa"), namespace="Given", label=f"{l}:nometa namespace=Given"))
    return make_units(specs)


def replay_of(u, c=None, got=None, **kw):
    r = {"engine": "bounded", "lang": u.lang, "protocol": u.path, "opts": u.opts, "namespace": u.namespace, "indent": u.indent, **kw}
    if os.path.dirname(u.path) != os.path.join(VERIF, "kernels"):
        r["protocol_text"] = open(u.path, encoding="utf-8").read()
    if c is not None:
        r.update(command=c.cmd, expected=c.want, case=c.what, problem=got)
    return r


_cases, _locks, _glock = {}, {}, threading.Lock()


def cases_of(pr, u, ctx):
    """the same protocol has the same cases in every language"""
    k = (pr, u.path, ctx.seed, ctx.deep)
    with _glock:
        lk = _locks.setdefault(k, threading.Lock())
    with lk:
        if k not in _cases:
            _cases[k] = list(bounded.PROPS[pr](u.p, ctx.seed, ctx.deep))
        return _cases[k]


def run_units(ctx, units, props, workers=8):
    """units x props; violations into ctx"""
    def go(u):
        res = []
        if u.error:
            return u, [("gen", u.error)], 0, []
        u.prepare()
        if u.build_error:
            return u, [("build", u.build_error)], 0, []
        n = 0
        sample = []
        for pr in props:
            if pr == "C11" and u.lang != "c":
                continue
            cases = cases_of(pr, u, ctx)
            bad, k = bounded.run_cases(u, cases)
            n += k
            if cases and len(sample) < 1:
                sample.append(f"{u.label}: {cases[len(cases) // 2].cmd[:200]}")
            res += [("case", c, g) for c, g in bad]
        u.close()
        return u, res, n, sample
    total = 0
    with ThreadPoolExecutor(workers) as ex:
        for u, res, n, sample in ex.map(go, units):
            total += n
            if len(ctx.samples) < 6:
                ctx.samples += sample
            for r in res:
                if r[0] == "gen":
                    ctx.violate(f"{u.label}: the writer fails on an accepted protocol: {r[1]}", replay_of(u, stage="generate", problem=r[1]), key=f"gen {u.label}")
                elif r[0] == "build":
                    ctx.violate(f"{u.label}: the generated code is not accepted by the compiler: {r[1][:300]}", replay_of(u, stage="build", problem=r[1]), key=f"build {u.label}")
                else:
                    ctx.violate(f"{u.label}: {r[1].what}: {r[2]}", replay_of(u, r[1], r[2]), key=f"{u.label} {r[1].cmd}")
    ctx.add("bounded_cases", total)
    ctx.add("bounded_programs", len(units))
    return total


def replay(r):
    if r.get("engine") == "bounded":
        path = r["protocol"]
        tmp = None
        if "protocol_text" in r and not os.path.exists(path):
            tmp = tempfile.NamedTemporaryFile("w", suffix=".toml", delete=False, encoding="utf-8")
            tmp.write(r["protocol_text"])
            tmp.close()
            path = tmp.name
        try:
            u = make_units([dict(lang=r["lang"], proto_path=path, opts=r["opts"], namespace=r["namespace"], indent=r["indent"])])[0]
            if u.error:
                print("the writer fails:", u.error)
                return 1
            u.prepare()
            if u.build_error:
                print("does not compile:", u.build_error)
                return 1
            if "command" not in r:
                print("generates and compiles")
                return 0
            want = r["expected"]
            unhex = lambda o: bytes.fromhex(o["hex"]) if isinstance(o, dict) and "hex" in o else [unhex(x) for x in o] if isinstance(o, list) else o
            want = tuple(unhex(want))
            got = u.drv.cmd(r["command"])
            u.close()
            pr = bounded.judge(u.lang, want, got)
            print("case:", r["case"], "\ncommand:", r["command"], "\nanswer:", got, "\nproblem:", pr)
            return 1 if pr else 0
        finally:
            if tmp:
                os.unlink(tmp.name)
    if r.get("engine") == "obligation" and r.get("language") == "python":
        from . import pydeductive

        class C:
            deep, coverage, undecided = True, {}, []
        bad, _ = pydeductive.run(C, r["property"])
        for w, o in bad:
            print("not discharged:", w, o)
        return 1 if bad else 0
    if r.get("engine") == "documents":
        import tomllib
        from spec import rules
        bad, _ = pyside.run_docs_text([r["text"]])
        print(r["text"], "\nproblem:", bad)
        return 1 if bad else 0
    if r.get("engine") == "enums":
        bad = pyside.run_enums([r["values"]])
        print(bad)
        return 1 if bad else 0
    if r.get("engine") == "sizes":
        bad, _ = pyside.run_sizes([r["text"]])
        print(bad)
        return 1 if bad else 0
    print(json.dumps(r, indent=1))
    print("(run the check again to repeat this)")
    return 1
