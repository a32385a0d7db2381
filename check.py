#!/usr/bin/env python3-vt
"""check.py Cxx            decide one property on /repo's working tree (VERIF_TIER, VERIF_SEED)
   check.py --replay FILE  run a replay file again"""
import sys, os, json, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from harness.common import VERIF, BUILD
from engines import bounded_engine as be

CODEC = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C18", "C19"]


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed, self.deep = prop, tier, seed, tier == "thorough"
        self.t0 = time.time()
        self.violations = []     # dicts: what, replay(dict), noinput(bool), key
        self.undecided = []
        self.coverage = {}
        self.assumptions = []
        self.samples = []
        self.notes = []

    def violate(self, what, replay, key=None, noinput=False):
        self.violations.append({"what": what, "replay": replay, "key": key or what, "noinput": noinput})

    def add(self, k, n):
        self.coverage[k] = self.coverage.get(k, 0) + n


def known():
    out = {}
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f, encoding="utf-8"):
            if l.startswith("finding: property="):
                pid, rest = l[len("finding: property="):].rstrip("\n").split(" ", 1)
                key, _, what = rest.partition(" :: ")
                out.setdefault(pid, {})[key.strip()] = what.strip()
    return out


def finish(ctx, level):
    kn = known().get(ctx.prop, {})
    real, seen = [], {}
    for v in ctx.violations:
        if v["key"] in kn:
            seen[v["key"]] = kn[v["key"]]
        else:
            real.append(v)
    for k, w in seen.items():
        print(f"KNOWN-FINDING: property={ctx.prop} {w or k}")
    # one with an input comes first
    real.sort(key=lambda v: v["noinput"])
    rd = os.path.join(BUILD, "replays")
    os.makedirs(rd, exist_ok=True)
    shown = set()
    k = 0
    for v in real:
        g = v.get("group") or v["what"].split(":")[0]
        if g in shown or k >= 5:
            continue
        shown.add(g)
        path = os.path.join(rd, f"{ctx.prop}-{k}.json")
        k += 1
        with open(path, "w") as f:
            json.dump({"property": ctx.prop, "what": v["what"], "no_failing_input_found": v["noinput"], **v["replay"]}, f, indent=1, default=lambda o: {"hex": o.hex()} if isinstance(o, (bytes, bytearray)) else str(o))
        print(f"{v['what'][:600]}")
        print(f"VIOLATION property={ctx.prop} replay={path}" + (" no-failing-input-found" if v["noinput"] else ""))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = dict(ctx.coverage)
    cov["samples"] = ctx.samples[:6]
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov, "assumptions": ctx.assumptions,
          "wall_s": round(time.time() - ctx.t0, 2), "violations": len(real)}
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{ctx.prop}: " + ", ".join(f"{k}={v}" for k, v in cov.items() if isinstance(v, (int, float))) + f", {ev['wall_s']} s, {len(real)} violations")
    for u in ctx.undecided[:10]:
        print("undecided:", u)
    if real:
        return 1
    return 3 if ctx.undecided else 0


def main():
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        return be.replay(r)
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(prop, tier if tier in ("quick", "thorough") else "quick", seed)
    from engines import registry
    level = registry.run(ctx)
    return finish(ctx, level)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(4)
