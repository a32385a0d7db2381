"""Contract of beschi/cli.py: main() for every command line and every outcome of what it calls."""
import ast, os, subprocess, sys, json
import z3
from .core import *
from .interp import EXC
from .protocol import Job, REPO
from . import module

sprefix = z3.Function("isprefix", Str, Str, B)
isspace = z3.Function("isspace", Str, B)
schar = z3.Function("schar", Str, I, Str)
And, Or, Not, Imp = z3.And, z3.Or, z3.Not, z3.Implies


class AnyError(Exception):
    """some exception no handler names"""


PROTOCOL_ERRORS = [FileNotFoundError, PermissionError, IsADirectoryError, OSError, KeyError, RecursionError, ValueError, UnicodeDecodeError, TypeError, NotImplementedError, IndexError, AttributeError, AnyError]
OTHER_ERRORS = [NotImplementedError, KeyError, ValueError, TypeError, OSError, AnyError]


def keys():
    src = "import json; from beschi.writers import all_writers as a, experimental_writers as b; print(json.dumps([list(a), list(b)]))"
    r = subprocess.run(["/opt/venv/bin/python3", "-c", src], cwd=REPO, capture_output=True, text=True, timeout=60, env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1"})
    if r.returncode:
        raise Unsupported("the writers do not load: " + r.stderr[-200:])
    return json.loads(r.stdout)


class CliJob(Job):
    def __init__(self):
        super().__init__("cli.main")

    def body(self):
        from .interp import Interp
        w = self.w
        it = Interp(w, {})
        self.it, it.job = it, self
        a, e = keys()
        if any(k != k.lower() for k in a + e):
            raise Unsupported("names of writers")
        it.heap["trace"] = PList([])
        it.heap["all"] = PDict([("one", k, Opaque("writer class")) for k in a])
        it.heap["exp"] = PDict([("one", k, Opaque("writer class")) for k in e])
        it.heap["args"] = PObj("args", {})
        it.heap["protocol"] = PObj("protocol", {"namespace": SV(z3.Const("namespace0", V))})
        it.heap["writer"] = PObj("writer", {"tab": SV(z3.Const("tab0", V))})
        nat = {"sys": Opaque("sys"), "argparse": Opaque("argparse"), "traceback": Opaque("traceback"), "os": Opaque("os"),
               "all_writers": Ref("all"), "experimental_writers": Ref("exp"), "LIB_NAME": "beschi", "LIB_VERSION": "0",
               "Protocol": Native(self.protocol, "Protocol")}
        old = it.attr

        def attr(o, n):
            if isinstance(o, Opaque):
                f = getattr(self, "a_" + o.what.replace(" ", "_"), None)
                if f:
                    return f(it, n)
            if isinstance(o, Ref) and o.i == "writer" and n not in it.heap["writer"].f:
                return Native(self.generate, n) if n == "generate" else Opaque("writer part")
            if isinstance(o, Ref) and o.i == "args":
                if n == "_get_kwargs":
                    return Native(self.kwargs, n)
                if n not in it.heap["args"].f:
                    raise PyRaise(AttributeError)
            return old(o, n)
        it.attr = attr
        it.env0 = module.load(it, os.path.join(REPO, "beschi", "cli.py"), nat)
        it.heap[it.env0] = Env({**it.heap[it.env0].d, "open": Native(self.open, "open"), "print": Native(self.print, "print"), "vars": Native(self.vars, "vars"), "exit": Native(self.exit, "exit")}, None)
        m = it.heap[it.env0].d.get("main")
        if not isinstance(m, Func):
            raise Unsupported("no main")
        it.idx_k = None
        outs = it.explore(lambda: it.callfn(m, [], {}))
        self.paths = it.npaths
        for o in outs:
            it.restore(o.s)
            self.judge(it, o)

    # ---- what main calls
    def ev(self, it, *e):
        if it.idx:
            raise Unsupported("effects in a loop")
        it.heap["trace"] = PList(it.heap["trace"].segs + (("one", e),))

    def fails(self, it, what, classes):
        k = it.choose(len(classes) + 1)
        if k:
            self.ev(it, "failed", what)
            raise PyRaise(classes[k - 1])

    def protocol(self, it, args, kw):
        p = (list(args) + [kw.get("filename")])[0]
        self.ev(it, "protocol", p)
        self.fails(it, "protocol", PROTOCOL_ERRORS)
        return Ref("protocol")

    def generate(self, it, args, kw):
        f, g = it.heap["args"].f, it.heap["protocol"].f
        self.named(it)
        i, t = f.get("indent"), it.heap["writer"].f["tab"]
        given = And(V.is_vstr(i.t), V.s(i.t) != self.w.sc(""))
        self.once("indentation as given", it.pc, And(Imp(given, it.eqf(t, i)), Imp(Not(given), it.eqf(t, SV(z3.Const("tab0", V))))))
        self.ev(it, "generate")
        self.fails(it, "generate", OTHER_ERRORS)
        return Opaque("generated")

    def named(self, it):
        f, g = it.heap["args"].f, it.heap["protocol"].f
        n, v = f["namespace"], g["namespace"]
        given = And(V.is_vstr(n.t), V.s(n.t) != self.w.sc(""))
        self.once("namespace as given", it.pc, And(Imp(given, it.eqf(v, n)), Imp(Not(given), it.eqf(v, SV(z3.Const("namespace0", V))))))

    def construct(self, it, args, kw):
        p = (list(args) + [kw.get("protocol")])[0]
        if not (isinstance(p, Ref) and p.i == "protocol"):
            raise Unsupported("writer of something else")
        self.named(it)
        x = args[1] if len(args) > 1 else kw.get("extra_args")
        self.extra(it, x)
        self.ev(it, "writer")
        self.fails(it, "writer", OTHER_ERRORS)
        return Ref("writer")

    def extra(self, it, x):
        """the options passed on: those of the language, and the common ones"""
        r = it.rec(x) if isinstance(x, (Ref, Fz)) else None
        if not isinstance(r, PDict) or len(r.segs) != 1 or r.segs[0][0] != "rep":
            raise Unsupported("options of the writer")
        _, n, k, alts = r.segs[0]
        j = z3.Int("jo")
        pc = it.pc + [0 <= j, j < z3.Int("nopts")]
        key, val = z3.Function("optname", I, Str)(j), z3.Function("optval", I, V)(j)
        gs = [z3.BoolVal(True) if a[0] is True else subst(a[0], k, j) for a in alts]
        lang = V.s(it.heap["args"].f["lang"].t)
        want = Or(sprefix(key, lang), key == self.w.sc("embed_protocol"))
        self.once("options: all considered", pc, iv(n) == z3.Int("nopts"))
        self.once("options: those of the language", pc, disj(gs) == want)
        for g, a in zip(gs, alts):
            self.once("options: as given", pc + [g], And(it.eqf(subst(a[1], k, j), SStr(key)), it.eqf(subst(a[2], k, j), SV(val))))

    def kwargs(self, it, args, kw):
        j, k = z3.Ints("jk kk")
        n, v = z3.Function("optname", I, Str), z3.Function("optval", I, V)
        if not it.idx:
            it.pc.append(z3.ForAll([j, k], Imp(And(0 <= j, j < k, k < z3.Int("nopts")), n(j) != n(k)), patterns=[z3.MultiPattern(n(j), n(k))]))
        b = it.bvar()
        return Fz(View([("rep", z3.Int("nopts"), b, [(True, (SStr(n(b)), SV(v(b))))])]))

    def vars(self, it, args, kw):
        if len(args) == 1 and isinstance(args[0], Ref) and args[0].i == "args":
            return Opaque("options")
        raise Unsupported("vars")

    def a_options(self, it, n):
        if n == "items":
            return Native(self.kwargs, n)
        raise Unsupported("options." + n)

    def exit(self, it, args, kw):
        c = args[0] if args else None
        raise PyRaise(SystemExit, c)

    def a_sys(self, it, n):
        if n == "exit":
            return Native(self.exit, "exit")
        if n in ("stderr", "stdout"):
            return Opaque(n)
        if n == "argv":
            return Opaque("argv")
        raise Unsupported("sys." + n)

    def a_stderr(self, it, n):
        return Native(lambda it, a, k: self.ev(it, "err") if n == "write" else None, n)

    def a_stdout(self, it, n):
        def w(it, a, k):
            if n == "write":
                self.ev(it, "out", a[0], "")
            elif n != "flush":
                raise Unsupported("stdout." + n)
        return Native(w, n)

    def a_argparse(self, it, n):
        if n == "ArgumentParser":
            return Native(lambda it, a, k: Opaque("parser"), n)
        return Opaque("argparse part")

    def a_parser(self, it, n):
        if n == "add_argument":
            return Native(self.option, n)
        if n in ("add_argument_group", "add_mutually_exclusive_group"):
            return Native(lambda it, a, k: Opaque("parser"), n)
        if n == "parse_args":
            return Native(lambda it, a, k: Ref("args"), n)
        if n == "error":
            def f(it, a, k):
                self.ev(it, "err")
                raise PyRaise(SystemExit, 2)
            return Native(f, n)
        if n in ("print_help", "print_usage", "exit"):
            raise Unsupported("parser." + n)
        return Native(lambda it, a, k: None, n)

    def option(self, it, args, kw):
        names = [a for a in args if isinstance(a, str)]
        lg = [a for a in names if a.startswith("--")]
        d = kw.get("dest") or ((lg or names)[0].lstrip("-").replace("-", "_"))
        act = kw.get("action", "store")
        if act in ("store_const", "store_true") and kw.get("default", False) is False and kw.get("const", True) is True:
            v = SBool(z3.Const("opt_" + d, B))
        elif act == "store" and kw.get("default") is None and "nargs" not in kw and "choices" not in kw:
            v = SV(z3.Const("opt_" + d, V))
            it.pc.append(Or(V.is_vstr(v.t), V.is_vnone(v.t)))
            if kw.get("required"):
                it.pc.append(V.is_vstr(v.t))
        else:
            raise Unsupported("option " + d)
        it.heap["args"] = PObj("args", {**it.heap["args"].f, d: v})

    def a_traceback(self, it, n):
        if n.startswith("print_"):
            return Native(lambda it, a, k: self.ev(it, "err"), n)
        return Native(lambda it, a, k: Opaque("text"), n)

    def a_writer_class(self, it, n):
        if n == "get_additional_args":
            return Native(lambda it, a, k: None, n)
        return Opaque("writer part")

    def a_generated(self, it, n):
        return Native(lambda it, a, k: Opaque("changed text"), n)

    def a_file(self, it, n):
        def f(it, a, k):
            if n == "write":
                self.ev(it, "write", a[0])
                self.fails(it, "write", [OSError])
            elif n == "writelines":
                raise Unsupported("writelines")
        return Native(f, n)

    def open(self, it, args, kw):
        args = list(args)
        mode = args[1] if len(args) > 1 else kw.get("mode", "r")
        enc = kw.get("encoding", args[3] if len(args) > 3 else None)
        if not isinstance(mode, str):
            raise Unsupported("open")
        self.ev(it, "open", args[0] if args else kw.get("file"), mode, enc, kw.get("newline"), kw.get("errors"))
        self.fails(it, "open", [OSError, FileNotFoundError])
        return Opaque("file" if mode in ("w", "wt", "x", "a") else "other file")

    def print(self, it, args, kw):
        f = kw.get("file")
        if isinstance(f, Opaque) and f.what == "stderr":
            return self.ev(it, "err")
        end = kw.get("end", "\n")
        if isinstance(f, Opaque) and f.what == "file":
            if len(args) == 1 and end == "":
                return self.a_file(it, "write").f(it, args, {})
            return self.a_file(it, "write").f(it, [Opaque("changed text")], {})
        if f is not None and not (isinstance(f, Opaque) and f.what == "stdout"):
            raise Unsupported("print to something")
        self.ev(it, "out", args[0] if len(args) == 1 else Opaque("changed text") if args else "", end)

    # ---- judging
    def once(self, label, pc, goal):
        self.decide("command line: " + label, pc, goal)

    def judge(self, it, o):
        w = self.w
        A = it.heap["args"].f
        tr = [s[1] for s in it.heap["trace"].segs]
        opt = lambda n: A[n].t
        none = lambda n: V.is_vnone(opt(n))
        lang = V.s(opt("lang"))
        known = Or(*[lang == w.sc(s[1]) for r in ("all", "exp") for s in it.heap[r].segs])
        j = z3.Int("jw")
        ns = V.s(opt("namespace"))
        spaced = And(V.is_vstr(opt("namespace")), z3.Exists([j], And(0 <= j, j < slen(ns), isspace(schar(ns, j)))))
        version = A["version"].t if "version" in A else z3.BoolVal(False)
        if o.kind not in ("norm", "raise"):
            raise Unsupported(o.kind)
        code = 0
        uncaught = False
        if o.kind == "raise":
            if o.v.cls is SystemExit:
                code = o.v.v
                if isinstance(code, (Opaque, SStr)) or isinstance(code, str):
                    tr, code = tr + [("err",)], 1
                elif code is None or code is False:
                    code = 0
                if not isinstance(code, int):
                    raise Unsupported("exit status")
            else:
                code, uncaught = 1, True
        names = [e[0] for e in tr]
        failed = [e[1] for e in tr if e[0] == "failed"]
        opens = [e for e in tr if e[0] == "open" and e[2] != "r"]
        line = getattr(o.v.node, "lineno", None) if o.kind == "raise" else None
        D = lambda label, goal, pc=None: self.decide("command line: " + label, o.pc if pc is None else pc, goal, line=line)
        F, T = z3.BoolVal(False), z3.BoolVal(True)
        if code != 0:
            D("says why on standard error when it fails", T if uncaught or "err" in names else F)
            if not set(failed) & {"open", "write"}:
                D("no output file when it fails", T if not opens else F)
            if not failed:
                D("fails only with a reason", And(Not(version), Or(none("protocol"), none("lang"), Not(known), spaced)))
            return
        if version is not None and "protocol" not in names:
            D("succeeds without a protocol only to print the version", version)
            D("writes no file for the version", T if not opens else F)
            return
        D("no success after a failure", T if not failed else F)
        if failed:
            return
        D("success needs a protocol", Not(none("protocol")))
        D("success needs a known language", And(Not(none("lang")), known))
        D("success needs a namespace without whitespace", Not(spaced))
        ps = [e[1] for e in tr if e[0] == "protocol"]
        D("reads the protocol it was given", T if len(ps) == 1 and same(ps[0], A["protocol"]) else it.eqf(ps[0], A["protocol"]) if len(ps) == 1 else F)
        D("generates once", T if names.count("generate") == 1 else F)
        gen = [e for e in tr if e[0] in ("out", "open", "write") and (e[0] != "open" or e in opens)]
        isg = lambda v: isinstance(v, Opaque) and v.what == "generated"
        std = len(gen) == 1 and gen[0][0] == "out" and isg(gen[0][1]) and gen[0][2] == "\n" or len(gen) == 2 and all(e[0] == "out" for e in gen) and isg(gen[0][1]) and gen[0][2] == "" and gen[1][1:] in (("\n", ""), ("", "\n"))
        fil = len(gen) == 2 and gen[0][0] == "open" and gen[0][2] in ("w", "wt") and gen[0][3] in ("utf-8", "utf8", "UTF-8") and gen[0][4] in (None, "") and gen[0][5] is None and gen[1][0] == "write" and isg(gen[1][1])
        D("standard output gets exactly the generated text", T if std else F, o.pc + [none("output")])
        D("the output file gets exactly the generated text", And(T if fil else F, it.eqf(gen[0][1], A["output"])) if fil else F, o.pc + [Not(none("output"))])
