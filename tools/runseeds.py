#!/usr/bin/env python3
"""Run the checks against the planted bugs: runseeds.py [-a] [id ...]   (-a: every check, not only the bug's own)
Each runs in a mount namespace in which /repo is a changed copy and /verif a copy of the committed tree."""
import os, sys, json, subprocess, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, **k):
    return subprocess.run(c, capture_output=True, text=True, **k)


def run(sid, allc):
    d = os.path.join(V, "seeded", sid)
    copy = f"/tmp/rs_{sid}"
    shutil.rmtree(copy, ignore_errors=True)
    sh(["cp", "-a", "/repo", copy])
    sh(["git", "checkout", "-q", "--", "."], cwd=copy)
    a = sh(["git", "apply", os.path.join(d, "patch.diff")], cwd=copy)
    if a.returncode:
        return sid, {"apply": a.stderr}
    meta = json.load(open(os.path.join(d, "meta.json")))
    props = [meta["property"]]
    if allc:
        props = sorted(c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"])
    out = {}
    for p in props:
        t = time.time()
        r = sh(["unshare", "-m", "bash", "-c", f"mount --bind {copy} /repo && cd {V} && VERIF_SEED=1 VERIF_TIER=quick python3-vt check.py {p}"])
        viol = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        first = [l for l in r.stdout.splitlines()][:1]
        out[p] = (r.returncode, len(viol), sum("no-failing" in l for l in viol), round(time.time() - t, 1), (first[0][:160] if first and viol else ""), r.stderr[-300:] if r.returncode not in (0, 1) else "")
    shutil.rmtree(copy, ignore_errors=True)
    return sid, out


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(V, "seeded")))
    for s in ids:
        sid, out = run(s, "-a" in sys.argv)
        print(sid, flush=True)
        for p, r in out.items():
            if r[0] != 0 or "-a" not in sys.argv:
                print("   ", p, r, flush=True)
