"""python3-vt -m bvc.run1 LANG kernel [kind [type]]  -- for trying things out"""
import sys, json, subprocess, time
from harness.common import *
from harness import pyside
from spec.proto import Proto
from . import fronts
from .jobs import *


def main():
    lang, kern = sys.argv[1:3]
    want = sys.argv[3:]
    path = kern if kern.endswith(".toml") else f"/verif/kernels/{kern}.toml"
    text = generate([{"lang": lang, "protocol": path, "args": {}}])[0]["text"]
    mod = fronts.parse(lang, [text])[0]
    if "error" in mod:
        print("front end:", mod["error"])
        return
    if mod.get("bad"):
        print("not translated:", mod["bad"])
    L = fronts.make(lang, Mod(mod), Proto.load(path))
    tot = {}
    t0 = time.time()
    for kind, t in jobs_for(L):
        if want and (kind != want[0] or len(want) > 1 and t != want[1]):
            continue
        j = Job(fronts.make(lang, Mod(mod), Proto.load(path), kind), kind, t)
        if "-t" in sys.argv:
            pass
        j.run()
        c = {}
        for o in j.obls:
            c[o["status"]] = c.get(o["status"], 0) + 1
            tot[o["status"]] = tot.get(o["status"], 0) + 1
        if j.unsupported:
            tot["unsup"] = tot.get("unsup", 0) + 1
        print(f"{kind:8} {t or '':14} {c} paths {j.paths} {j.time:.2f}s" + (f"  UNSUPPORTED {j.unsupported}" if j.unsupported else ""))
        if want or c.get("fail") or c.get("unknown"):
            for o in j.obls:
                if o["status"] != "ok" or (want and len(want) > 2):
                    print("    ", o["status"], o["label"], "" if o["status"] == "ok" else str(o["cond"])[:300])
    print(tot, f"{time.time() - t0:.1f}s")


main()
