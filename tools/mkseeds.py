#!/usr/bin/env python3
"""Build and confirm the planted bugs of /verif/seeded.  usage: mkseeds.py [id ...]
For each: edit a scratch copy of /repo, write patch.diff, demo.sh and meta.json, run the demo on the clean and on the
changed copy and the repository's tests on the changed copy (in a mount namespace of their own)."""
import os, sys, json, subprocess, shutil, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seeds as S

PRE = '''#!/bin/bash
# exit 0 when the behaviour is right, 1 when it is not; everything it writes is in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export PATH=/opt/venv/bin:$PATH PYTHONPATH=$R PYTHONDONTWRITEBYTECODE=1 GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off HOME=${HOME:-/root} DOTNET_CLI_HOME=$W DOTNET_NOLOGO=1
gen() { python3 -m beschi -l "$1" -p "$D/p.toml" -o "$2" "${@:3}" || exit 1; }
'''


def sh(c, **k):
    return subprocess.run(c, shell=isinstance(c, str), capture_output=True, text=True, **k)


def in_ns(copy, cmd, timeout=900):
    rep = copy + ".reports"
    os.makedirs(rep, exist_ok=True)
    r = sh(["unshare", "-m", "bash", "-c", f"mount --bind {copy} /repo && mount --bind {rep} /opt/vp/reports && cd /repo && {cmd}"], timeout=timeout)
    return r


def one(s, tests=True):
    sid = s["id"]
    d = os.path.join(V, "seeded", sid)
    copy = f"/tmp/seed_{sid}"
    shutil.rmtree(copy, ignore_errors=True)
    sh(["cp", "-a", "/repo", copy])
    sh("git checkout -q -- .", cwd=copy)
    base = set()
    for f, old, new in s["edits"]:
        p = os.path.join(copy, f)
        t = open(p, encoding="utf-8").read()
        assert t.count(old) == 1, (sid, f, t.count(old), old)
        for k, l in enumerate(t[:t.index(old)].split("\n"), 1):
            pass
        open(p, "w", encoding="utf-8").write(t.replace(old, new))
    diff = sh("git diff", cwd=copy).stdout
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    # which commit the removed lines come from
    import re
    cur, ln, blames = None, 0, set()
    for l in diff.split("\n"):
        if l.startswith("--- a/"):
            cur = l[6:]
        elif l.startswith("@@"):
            ln = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-"):
            blames.add(sh(f"git blame -s -L{ln},{ln} HEAD -- {cur}", cwd="/repo").stdout.split()[0])
            ln += 1
        elif l.startswith(" "):
            ln += 1
    for name, text in s.get("files", {}).items():
        open(os.path.join(d, name), "w", encoding="utf-8").write(text)
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write(PRE + s["demo"])
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    a = sh(["bash", os.path.join(d, "demo.sh")], cwd="/repo", timeout=300)
    b = in_ns(copy, f"bash {d}/demo.sh", 300)
    res = {"id": sid, "blame": sorted(blames), "clean": a.returncode, "patched": b.returncode, "clean_out": (a.stdout + a.stderr)[-300:], "patched_out": (b.stdout + b.stderr)[-300:]}
    if tests:
        out = copy + ".json"
        in_ns(copy, f"bash /opt/vp/build.sh && bash /opt/vp/test.sh {out}", 1200)
        try:
            got = json.load(open(out))
            passed = set(got.get("passed", got if isinstance(got, list) else []))
            want = json.load(open("/opt/vp/BASELINE.json"))
            want = set(want["stable"])
            res["tests_lost"] = sorted(want - passed)[:6]
            res["n"] = len(passed)
        except Exception as e:
            res["tests_lost"] = repr(e)
        for x in (out,):
            if os.path.exists(x):
                os.unlink(x)
    shutil.rmtree(copy, ignore_errors=True)
    shutil.rmtree(copy + ".reports", ignore_errors=True)
    return res


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    todo = [s for s in S.SEEDS if not ids or s["id"] in ids]
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(lambda s: one(s, "-n" not in sys.argv), todo):
            ok = r["clean"] == 0 and r["patched"] not in (0,) and not r.get("tests_lost")
            print("OK " if ok else "BAD", json.dumps(r), flush=True)
