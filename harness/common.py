import os, subprocess, json, hashlib, threading, select, time, shutil, re, signal

REPO = os.environ.get("BESCHI_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
CACHE = os.path.join(BUILD, "cache")
PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    PY = "python3"


def env():
    e = dict(os.environ)
    e["PATH"] = "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.update(HOME="/root", LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", GOTOOLCHAIN="local",
             GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod", GO111MODULE="on", CARGO_NET_OFFLINE="true",
             GOCACHE=os.path.join(BUILD, "gocache"), ZIG_GLOBAL_CACHE_DIR=os.path.join(BUILD, "zigcache"),
             DOTNET_CLI_TELEMETRY_OPTOUT="1", DOTNET_NOLOGO="1", DOTNET_SKIP_FIRST_TIME_EXPERIENCE="1",
             DOTNET_CLI_HOME="/root", DOTNET_TieredPGO="0", DOTNET_gcServer="0",
             npm_config_offline="true")
    e["PYTHONPATH"] = REPO
    return e


def generate(jobs, timeout=120):
    r = subprocess.run([PY, os.path.join(VERIF, "harness", "gen.py"), REPO], input=json.dumps(jobs), text=True,
                       capture_output=True, env=env(), timeout=timeout, cwd="/tmp")
    if r.returncode != 0:
        raise RuntimeError("generator crashed: " + r.stderr[-2000:])
    return json.loads(r.stdout)


class Crash(Exception):
    pass


class Driver:
    """A running driver process for one protocol and language; one command per line, one answer per line."""

    def __init__(self, argv, envx=None, timeout=20):
        self.argv, self.envx, self.timeout = argv, envx or {}, timeout
        self.p = None
        self.lock = threading.Lock()

    def start(self):
        e = env()
        e.update(self.envx)
        self.err = open(os.path.join("/tmp", f"drv.{os.getpid()}.{id(self)}.err"), "w+b")
        self.p = subprocess.Popen(self.argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=e, cwd="/tmp",
                                  start_new_session=True)
        self.buf = b""

    def close(self):
        if self.p:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except Exception:
                pass
            try:
                self.p.stdin.close()
            except Exception:
                pass
            self.p.stdout.close()
            self.p.wait()
            self.p = None
            try:
                self.err.close()
                os.unlink(self.err.name)
            except Exception:
                pass

    def _readline(self, deadline):
        while b"\n" not in self.buf:
            left = deadline - time.time()
            if left <= 0:
                return None
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if not r:
                return None
            d = os.read(self.p.stdout.fileno(), 1 << 16)
            if not d:
                return None
            self.buf += d
        line, self.buf = self.buf.split(b"\n", 1)
        return line.decode("utf-8", "replace")

    def cmd(self, line):
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write(line.encode() + b"\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        r = self._readline(time.time() + self.timeout)
        if r is None:
            to = self.p.poll() is None
            if to:
                time.sleep(0.05)
                to = self.p.poll() is None
            self.err.seek(0)
            msg = self.err.read().decode("utf-8", "replace")
            self.close()
            return "CRASH " + ("timeout" if to else re.sub(r"\s+", " ", msg)[:1500])
        return r

    def batch(self, lines):
        """Send many commands; tolerate crashes (each crash costs a restart)."""
        out = []
        i = 0
        while i < len(lines):
            if self.p is None:
                self.start()
            chunk = lines[i:i + 64]
            data = ("\n".join(chunk) + "\n").encode()
            t = threading.Thread(target=self._feed, args=(self.p, data), daemon=True)
            t.start()
            for _ in chunk:
                r = self._readline(time.time() + self.timeout)
                if r is None:
                    time.sleep(0.02)
                    to = self.p.poll() is None
                    self.err.seek(0)
                    msg = self.err.read().decode("utf-8", "replace")
                    self.close()
                    out.append("CRASH " + ("timeout" if to else re.sub(r"\s+", " ", msg)[:1500]))
                    i += 1
                    break
                out.append(r)
                i += 1
        return out

    @staticmethod
    def _feed(p, data):
        try:
            p.stdin.write(data)
            p.stdin.flush()
        except Exception:
            pass


def run(argv, cwd, timeout=300, **kw):
    return subprocess.run(argv, cwd=cwd, env=env(), capture_output=True, text=True, timeout=timeout, **kw)


def cached_build(lang, sources, builder):
    """sources: {name: text}. builder(dir) -> None, raising BuildError. Returns dir or raises BuildError."""
    h = hashlib.sha256(json.dumps([lang, sources], sort_keys=True).encode()).hexdigest()[:24]
    d = os.path.join(CACHE, f"{lang}-{h}")
    if os.path.exists(os.path.join(d, ".ok")):
        return d
    if os.path.exists(os.path.join(d, ".bad")):
        raise BuildError(open(os.path.join(d, ".bad")).read())
    tmp = d + f".tmp{os.getpid()}.{threading.get_ident()}"
    os.makedirs(tmp, exist_ok=True)
    for n, t in sources.items():
        fp = os.path.join(tmp, n)
        os.makedirs(os.path.dirname(fp), exist_ok=True)
        with open(fp, "w", encoding="utf-8") as f:
            f.write(t)
    try:
        builder(tmp)
        open(os.path.join(tmp, ".ok"), "w").close()
    except BuildError as e:
        open(os.path.join(tmp, ".bad"), "w").write(str(e))
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    if os.path.exists(os.path.join(d, ".bad")):
        raise BuildError(open(os.path.join(d, ".bad")).read())
    return d


class BuildError(Exception):
    pass


def snake(s):
    s = re.sub('(.)([A-Z][a-z]+)', r'\1_\2', s)
    return re.sub('([a-z0-9])([A-Z])', r'\1_\2', s).lower()
