"""Front ends: program text to the common intermediate form, with the target compiler's own parser."""
import os, json, subprocess, tempfile, shutil, hashlib
from harness.common import VERIF, BUILD, env

FRONT = os.path.join(BUILD, "front")


def exe(name, src, build):
    """compiled front end, rebuilt when its source changes"""
    d = os.path.join(VERIF, "front", src)
    h = hashlib.sha256()
    for r, _, fs in sorted(os.walk(d)):
        for f in sorted(fs):
            h.update(open(os.path.join(r, f), "rb").read())
    out = os.path.join(FRONT, name + "-" + h.hexdigest()[:12])
    if not os.path.exists(out):
        os.makedirs(FRONT, exist_ok=True)
        tmp = tempfile.mkdtemp(dir=FRONT)
        try:
            build(d, os.path.join(tmp, "x"), tmp)
            try:
                os.replace(os.path.join(tmp, "x"), out)
            except OSError:         # another process made it meanwhile
                if not os.path.exists(out):
                    raise
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


def sh(argv, cwd=None, **kw):
    r = subprocess.run(argv, capture_output=True, text=True, env=env(), cwd=cwd, **kw)
    if r.returncode != 0:
        raise RuntimeError(" ".join(argv[:3]) + ": " + (r.stderr + r.stdout)[-1500:])
    return r.stdout


def run_lines(argv, texts, ext, names=None):
    d = tempfile.mkdtemp(prefix="front.")
    try:
        fs = []
        for i, t in enumerate(texts):
            f = os.path.join(d, f"m{i}{ext}")
            with open(f, "w", encoding="utf-8") as h:
                h.write(t)
            fs.append(f)
        out = sh(argv, input="\n".join(fs) + "\n", cwd=d)
        return [json.loads(l) for l in out.splitlines() if l.strip()]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def go_exe():
    return exe("go", "go", lambda d, o, t: sh(["go", "build", "-o", o, "."], cwd=d))


def go(texts):
    return run_lines([go_exe()], texts, ".go")


def ts(texts):
    return run_lines(["node", os.path.join(VERIF, "front", "ts", "main.js")], texts, ".ts")


def c(texts):
    return run_lines(["python3", os.path.join(VERIF, "front", "c", "main.py")], texts, ".h")


def dotnet():
    import glob
    csc = sorted(glob.glob("/usr/lib/dotnet/sdk/*/Roslyn/bincore/csc.dll"))[-1]
    return os.path.dirname(csc), sorted(glob.glob("/usr/lib/dotnet/shared/Microsoft.NETCore.App/*"))[-1]


def csharp_exe():
    def build(d, o, t):
        bc, sh_ = dotnet()
        os.makedirs(o)
        refs = [f"-r:{sh_}/{f}" for f in sorted(os.listdir(sh_)) if f.endswith(".dll") and (f.startswith("System.") or f in ("netstandard.dll", "mscorlib.dll", "Microsoft.CSharp.dll")) and "Native" not in f]
        refs += [f"-r:{bc}/{f}.dll" for f in ("Microsoft.CodeAnalysis", "Microsoft.CodeAnalysis.CSharp")]
        sh(["dotnet", "exec", bc + "/csc.dll", "-nologo", "-noconfig", "-nostdlib+", "-optimize+", "-langversion:latest", "-nowarn:CS1701,CS1702,CS8632",
            f"-out:{o}/f.dll", *refs, d + "/Program.cs", d + "/Front.cs"], cwd=d)
        with open(o + "/f.runtimeconfig.json", "w") as f:
            json.dump({"runtimeOptions": {"tfm": "net8.0", "framework": {"name": "Microsoft.NETCore.App", "version": os.path.basename(sh_)}}}, f)
    return exe("csharp", "csharp", build)


def csharp(texts):
    out = run_lines(["dotnet", "exec", csharp_exe() + "/f.dll", *dotnet()], texts, ".cs")
    for m in out:
        if m["errors"]:
            m["error"] = "; ".join(m["errors"])
    return out


def rust_exe():
    def build(d, o, t):
        root = sh(["rustc", "+nightly", "--print", "sysroot"]).strip()
        sh(["rustc", "+nightly", "-O", d + "/main.rs", "-o", o, "-C", f"link-arg=-Wl,-rpath,{root}/lib"], cwd=t)
    return exe("rust", "rust", build)


def rust(texts):
    from . import lang_rs
    root = sh(["rustc", "+nightly", "--print", "sysroot"]).strip()
    return [lang_rs.lower(d) for d in run_lines([rust_exe(), root], texts, ".rs")]


PARSE = {"rust": rust, "go": go, "typescript": ts, "assemblyscript": ts, "c": c, "csharp": csharp}


def parse(lang, texts):
    return PARSE[lang](texts)


def make(lang, mod, proto, kind=None):
    from . import lang_go, lang_ts, lang_c, lang_as, lang_cs, lang_rs, lang_cmem
    C = {"go": lang_go.Go, "typescript": lang_ts.TS, "c": lang_c.C, "assemblyscript": lang_as.AS, "csharp": lang_cs.CS, "rust": lang_rs.RS}
    L = (lang_cmem.CM if lang == "c" and kind and kind.startswith("own_") else C[lang])(proto)
    L.mod = mod
    L.proto = L.p = proto
    return L
