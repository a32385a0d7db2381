"""Interpreter of the intermediate form on top of the path explorer."""
import z3
from .vals import *
from .ex import *

UNROLL = 70


class Interp(Ex):
    # ---------------------------------------------------------------- functions
    def call_fn(self, fn, args, self_=None, bound=None):
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion")
        saved_env, saved_def = self.env, self.defers
        self.env, self.defers = dict(bound or {}), []
        self.frames.append(fn)
        v = None
        ctl = None
        try:
            if self_ is not None and fn.get("recv"):
                self.bind(fn["recv"], self_)
            ps = fn["params"]
            for i, p in enumerate(ps):
                if p.get("rest"):
                    self.bind(p["n"], self.lang.mklist(self, args[i:]))
                elif i < len(args):
                    self.bind(p["n"], self.lang.coerce(self, args[i], p.get("t")))
                elif p.get("d") is not None:
                    self.bind(p["n"], self.lang.coerce(self, self.ev(p["d"]), p.get("t")))
                else:
                    self.bind(p["n"], Un("missing argument"))
            self.lang.enter(self, fn)
            try:
                v = self.block(fn["body"], scope=False)
            except Ret as r:
                v = r.v
            v = self.lang.result(self, fn, v)
            self.run_defers(self.lang.is_error(self, v))
        finally:
            self.frames.pop()
            self.env, self.defers = saved_env, saved_def
            self.depth -= 1
        return v

    def run_defers(self, err):
        ds, self.defers = self.defers, []
        for d, onlyerr, env in reversed(ds):
            if not onlyerr or err:
                keep = self.env
                self.env = env
                self.block(d)
                self.env = keep

    # ---------------------------------------------------------------- statements
    def block(self, ss, scope=True):
        env = self.env
        v = None
        for s in ss or []:
            v = self.stmt(s)
        if scope:
            self.env = env
        return v

    def stmt(self, s):
        m = getattr(self, "s_" + s["k"], None)
        if m is None:
            m = getattr(self.lang, "s_" + s["k"], None)
            if m is None:
                raise Unsupported("statement " + s["k"])
            return m(self, s)
        return m(s)

    def s_expr(self, s):
        return self.ev(s["x"])

    def s_decl(self, s):
        if s.get("x") is not None:
            v = self.ev(s["x"])
            v = self.lang.coerce(self, v, s.get("t"))
        else:
            v = self.lang.zero(self, s.get("t"))
        if s.get("ns"):
            vs = self.lang.untuple(self, v, len(s["ns"]))
            for i, (n, x) in enumerate(zip(s["ns"], vs)):
                if n == "_":
                    continue
                if s.get("re") and s["re"][i]:
                    self.heap[self.env[n]] = x
                else:
                    self.bind(n, x)
        else:
            self.bind(s["n"], v)

    def s_if(self, s):
        env = self.env
        if s.get("init"):
            self.stmt(s["init"])
        if self.branch(self.truth(self.ev(s["c"]))):
            self.block(s["a"])
        elif s.get("b"):
            self.block(s["b"])
        self.env = env

    def s_block(self, s):
        try:
            self.block(s["b"])
        except Brk as b:
            if s.get("label") is None or b.label != s["label"]:
                raise

    def s_return(self, s):
        raise Ret(self.ev(s["x"]) if s.get("x") is not None else None)

    def s_break(self, s):
        raise Brk(s.get("label"))

    def s_continue(self, s):
        raise Cont(s.get("label"))

    def s_throw(self, s):
        raise Thr(self.ev(s["x"]) if s.get("x") is not None else Er(("rethrow",)))

    def s_defer(self, s):
        self.defers.append((s["b"], s.get("err"), self.env))

    def s_tryc(self, s):
        env, dep, fr, df = self.env, self.depth, len(self.frames), self.defers
        try:
            self.block(s["b"])
        except Thr as t:
            self.env, self.depth, self.defers = env, dep, df
            del self.frames[fr:]
            if s.get("h") is None:
                self.block(s.get("fin"))
                raise
            if s.get("n"):
                self.bind(s["n"], t.v)
            self.block(s["h"])
            self.env = env
        except (Ret, Brk, Cont):
            self.env = env
            if s.get("fin"):
                self.block(s["fin"])
            raise
        if s.get("fin"):
            self.block(s["fin"])

    def s_nop(self, s):
        pass

    def s_switch(self, s):
        v = self.ev(s["x"]) if s.get("x") is not None else B(True)
        body = None
        fork = self.fork_switch(s, v)
        if fork is not None:
            body = fork if fork >= 0 else None
        for i, c in enumerate(s["cases"] if fork is None else []):
            t = or_(*[self.equal(v, self.ev(x)) for x in c["v"]])
            if self.branch(t):
                body = i
                break
        env = self.env
        try:
            if body is None:
                if s.get("default") is not None:
                    self.block(s["default"])
            else:
                self.block(s["cases"][body]["b"])
        except Brk as b:
            if b.label is not None:
                raise
        self.env = env

    def fork_switch(self, s, v):
        """distinct constants: one decision instead of a chain of tests; -1 is the default"""
        if not isinstance(v, I) or known(v.t):
            return None
        mk = ("switch", id(s), tuple(self.dec[:self.pos]), self.ctr)
        if mk in self.memo:
            opts = self.memo[mk]
            if not opts:
                raise Infeasible()
            i, c = opts[self.choose(len(opts))]
            if len(opts) > 1:
                self.assume(c)
            return i
        vals = []
        for c in s["cases"]:
            xs = [self.lang.rvalue(self, self.ev(x)) for x in c["v"] if self.pure(x)]
            if len(xs) != len(c["v"]) or not all(isinstance(x, I) and known(x.t) for x in xs):
                return None
            vals.append([x.t for x in xs])
        flat = [x for q in vals for x in q]
        if len(set(flat)) != len(flat) or not flat:
            return None
        if mk not in self.memo:
            opts = []
            for i, q in enumerate(vals):
                c = or_(*[eq(v.t, x) for x in q])
                if self.w.check(self.pc, [c]) != "unsat":
                    opts.append((i, c))
            c = and_(*[not_(eq(v.t, x)) for x in flat])
            if self.w.check(self.pc, [c]) != "unsat":
                opts.append((-1, c))
            self.memo[mk] = opts
        opts = self.memo[mk]
        if not opts:
            raise Infeasible()
        i, c = opts[self.choose(len(opts))]
        if len(opts) > 1:
            self.assume(c)
        return i

    # loops
    def s_while(self, s):
        env = self.env
        if s.get("init"):
            for i in (s["init"] if isinstance(s["init"], list) else [s["init"]]):
                self.stmt(i)
        label = s.get("label")

        def cond():
            return self.truth(self.ev(s["c"])) if s.get("c") is not None else True

        def body():
            inner = self.env
            try:
                self.block(s["b"])
            except Cont as c:
                if c.label is not None and c.label != label:
                    raise
            self.env = inner
            if s.get("step"):
                for x in (s["step"] if isinstance(s["step"], list) else [s["step"]]):
                    self.ev(x)
            self.env = inner

        def iteration(k):
            if not self.branch(cond()):
                raise CondFalse()
            self.cmark = len(self.pc)
            if const:           # what is found out before anything is read or written is the condition
                self.watch = (self.heap.get("$in"), self.heap.get("$out"))
            body()
        n = 0
        const = s.get("c") is None or s["c"]["k"] == "bool"
        try:
            if s.get("do"):
                body()
                n = 1
            while True:
                old, self.track = self.track, set()
                try:
                    c = cond()
                finally:
                    seen, self.track = self.track, old
                    if old is not None:
                        old |= seen
                if c is False:
                    break
                if c is not True or const or (n == 0 or s.get("do") and n == 1) and not self.counts(seen, body, (id(s), n)):
                    self.summarise((id(s), n), iteration, label=label, steps=self.steps(s), watched=const)
                    break
                n += 1
                if n > UNROLL:
                    raise Unsupported("long concrete loop")
                body()
        except Brk as b:
            if b.label is not None and b.label != label:
                raise
        self.env = env

    def steps(self, s):
        """[(location, difference)] of variables counted in the step of a loop"""
        out = []
        st = s.get("step") or []
        for x in st if isinstance(st, list) else [st]:
            while x["k"] in ("paren", "expr"):
                x = x["x"]
            if x["k"] == "inc" and x["x"]["k"] == "var" and x["x"]["n"] in self.env:
                out.append((self.env[x["x"]["n"]], 1 if x["o"] == "++" else -1))
            elif x["k"] == "asg" and x["o"] in ("+=", "-=") and x["l"]["k"] == "var" and x["l"]["n"] in self.env and x["r"]["k"] == "int":
                d = int(str(x["r"]["v"]), 0)
                out.append((self.env[x["l"]["n"]], d if x["o"] == "+=" else -d))
        return out

    def counts(self, seen, body, key):
        """does one round change something known that the condition looks at?"""
        nob = len(self.obls)
        outs = self.explore(body, key=("probe", key))
        self.forget(nob)
        cont = [o for o in outs if o.kind == "norm"]
        if not cont:
            return True
        for l in seen:
            a, b = self.heap.get(l), cont[0].heap.get(l)
            if not same(a, b) and not (isinstance(b, (I, B)) and not known(b.t)):
                return True
        return False

    def s_foreach(self, s):
        env = self.env
        src, n, get = self.lang.iterable(self, s)
        label = s.get("label")

        def one(k):
            e = self.env
            if s.get("idx"):
                self.bind(s["idx"], I(k, s.get("idxt", "lit")))
            if s.get("n"):
                self.bind(s["n"], get(k))
            elif s.get("ns"):
                for nm, x in zip(s["ns"], self.lang.untuple(self, get(k), len(s["ns"]))):
                    self.bind(nm, x)
            try:
                self.block(s["b"])
            except Cont as c:
                if c.label is not None and c.label != label:
                    raise
            self.env = e
        try:
            if known(n) and n <= UNROLL:
                for i in range(n):
                    one(i)
            else:
                self.summarise((id(s), 0), one, count=n, label=label)
        except Brk as b:
            if b.label is not None and b.label != label:
                raise
        self.env = env

    # ---------------------------------------------------------------- expressions
    def ev(self, e):
        m = getattr(self.lang, "e_" + e["k"], None)
        if m is not None:
            return m(self, e)
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            raise Unsupported("expression " + e["k"])
        return m(e)

    def truth(self, v):
        if isinstance(v, B):
            return v.t
        if isinstance(v, bool):
            return v
        return self.lang.truth(self, v)

    def e_int(self, e):
        return I(int(e["v"]), e.get("t") or self.lang.littype)

    def e_bool(self, e):
        return B(e["v"])

    def e_str(self, e):
        return self.lang.strlit(self, e["v"].encode("utf-8", "surrogatepass"))

    def e_null(self, e):
        return NULL

    def e_flt(self, e):
        return self.lang.fltlit(self, e["v"])

    def e_lam(self, e):
        return Fn("lambda", extra=(e, self.env))

    def e_typ(self, e):
        return Ty(e["t"])

    def e_paren(self, e):
        return self.ev(e["x"])

    def e_var(self, e):
        n = e["n"]
        if n in self.env:
            return self.load(self.env[n])
        return self.glob(n)

    def glob(self, n):
        v = self.lang.name(self, n)
        if v is None:
            if n in self.mod.consts:
                key = "$const:" + n
                if key not in self.heap:
                    env, idx = self.env, self.idx
                    self.env, self.idx = {}, []
                    x = self.lang.const(self, self.mod.consts[n])
                    self.env, self.idx = env, idx
                    self.heap[key] = x
                return self.heap[key]
            if n in self.mod.funcs:
                return Fn(n)
            if n in self.mod.types:
                return Ty(n)
            raise Unsupported("name " + n)
        return v

    def deref(self, v):
        while isinstance(v, Ref):
            v = self.load(v.loc, v.path)
        return v

    def e_field(self, e):
        v = self.lang.static(self, e)
        if v is not None:
            return v
        x = self.ev(e["x"])
        return self.getfield(x, e["n"])

    def getfield(self, x, n):
        y = self.deref(x)
        if isinstance(y, St) and n in y.f:
            return y.f[n]
        r = self.lang.field(self, y, n)
        if r is None:
            raise Unsupported(f"field {n} of {y!r}")
        return r

    def e_index(self, e):
        x = self.ev(e["x"])
        i = self.ev(e["i"])
        return self.lang.index(self, x, i)

    def length(self, v):
        v = self.deref(v)
        if isinstance(v, (A, L, By, Buf)):
            return v.n
        if isinstance(v, S):
            return v.n
        raise Unsupported(f"length of {v!r}")

    def lv(self, e):
        k = e["k"]
        if k in ("paren", "unwrapped"):
            return self.lv(e["x"])
        m = getattr(self.lang, "lv_" + k, None)
        if m is not None:
            r = m(self, e)
            if r is not None:
                return r
        if k == "var":
            if e["n"] in self.env:
                return self.env[e["n"]], ()
            self.glob(e["n"])
            return "$const:" + e["n"], ()
        if k == "deref":
            v = self.ev(e["x"])
            if isinstance(v, Ref):
                return v.loc, v.path
            if v is NULL:
                raise Crash("null pointer")
            raise Unsupported("dereference")
        if k == "field":
            loc, path = self.lvbase(e["x"])
            return loc, path + (e["n"],)
        if k == "index":
            loc, path = self.lvbase(e["x"])
            i = self.ev(e["i"])
            arr = self.load(loc, path)
            self.lang.inrange(self, arr, i, self.length(arr) if not isinstance(arr, Un) else None)
            return loc, path + (("ix", i.t),)
        v = self.ev(e)
        if isinstance(v, Ref):
            return self.new(v), ()
        return self.new(v), ()

    def lvbase(self, x):
        """the place x denotes, through references"""
        if x["k"] in ("var", "field", "index", "deref", "paren", "unwrapped"):
            loc, path = self.lv(x)
        else:
            v = self.ev(x)
            if isinstance(v, Ref):
                loc, path = v.loc, v.path
            else:
                loc, path = self.new(v), ()
        v = self.load(loc, path)
        while isinstance(v, Ref):
            loc, path = v.loc, v.path
            v = self.load(loc, path)
        if v is NULL:
            raise Crash("null reference")
        return loc, path

    def e_asg(self, e):
        if e["o"] == "=":
            if e["l"]["k"] == "tuple":
                v = self.ev(e["r"])
                vs = self.lang.untuple(self, v, len(e["l"]["els"]))
                for l, x in zip(e["l"]["els"], vs):
                    if l["k"] == "var" and l["n"] == "_":
                        continue
                    self.assign(l, x)
                return v
            if self.lang.rhs_first:
                v = self.ev(e["r"])
                self.assign(e["l"], v, e.get("t"))
                return v
            h = getattr(self.lang, "store_to", None)
            v = self.ev(e["r"])
            self.assign(e["l"], v, e.get("t"))
            return v
        old = self.ev(e["l"])
        r = self.ev(e["r"])
        v = self.lang.binop(self, e["o"][:-1], old, r, e)
        v = self.lang.retype(self, v, old)
        self.assign(e["l"], v)
        return v

    def assign(self, l, v, t=None):
        if l["k"] == "var" and l["n"] == "_":
            return
        h = self.lang.store_special(self, l, v)
        if h:
            return
        loc, path = self.lv(l)
        old = None
        try:
            old = self.load(loc, path)
        except Unsupported:
            pass
        self.store(loc, path, self.lang.retype(self, v, old))

    def e_inc(self, e):
        old = self.ev(e["x"])
        v = self.lang.binop(self, "+" if e["o"] == "++" else "-", old, I(1, "lit"), e)
        v = self.lang.retype(self, v, old)
        self.assign(e["x"], v)
        return v if e.get("pre") else old

    def e_un(self, e):
        x = self.ev(e["x"])
        o = e["o"]
        if o == "!":
            return B(not_(self.truth(x)))
        x = self.lang.rvalue(self, x)
        if o == "-" and isinstance(x, I):
            return self.fit(sub(0, x.t), x.ty)
        if o == "-" and isinstance(x, F) and known(x.t):
            return F(x.t ^ (1 << (x.w * 8 - 1)), x.w)
        if o == "+":
            return x
        if o == "~" and isinstance(x, I):
            if x.ty in RANGE and not SIGNED[x.ty]:
                return I(sub(RANGE[x.ty][1], x.t), x.ty)
            return I(sub(-1, x.t), x.ty)
        raise Unsupported("operator " + o)

    def e_bin(self, e):
        o = e["o"]
        if o in ("&&", "||"):
            x = self.truth(self.ev(e["x"]))
            if isinstance(x, bool):
                if (o == "&&") != x:
                    return B(x)
                return B(self.truth(self.ev(e["y"])))
            if self.pure(e["y"]):
                r = self.given(x if o == "&&" else z3.Not(x), lambda: self.truth(self.ev(e["y"])))
                if r is None:
                    return B(o == "||")
                return B(and_(x, r[0]) if o == "&&" else or_(x, r[0]))
            if self.branch(x):
                return B(True) if o == "||" else B(self.truth(self.ev(e["y"])))
            return B(False) if o == "&&" else B(self.truth(self.ev(e["y"])))
        return self.lang.binop(self, o, self.ev(e["x"]), self.ev(e["y"]), e)

    def pure(self, e):
        """evaluating e neither forks nor changes anything"""
        r = self.lang.pure_node(self, e)
        if r is not None:
            return r
        k = e["k"]
        if k in ("var", "int", "bool", "str", "null", "flt", "typ"):
            return True
        if k in ("field", "paren", "un"):
            return self.pure(e["x"])
        if k == "bin":
            return self.pure(e["x"]) and self.pure(e["y"]) and e["o"] not in ("/", "%")
        if k in ("cast", "ccast", "pval", "deref"):
            return self.pure(e["x"])
        return self.lang.pure_call(self, e) if k == "call" else False

    def given(self, c, thunk):
        """(value of thunk where c holds,), or None if it cannot hold; thunk changes nothing"""
        n = len(self.pc)
        self.pc.append(c)
        try:
            if self.w.check(self.pc) == "unsat":
                return None
            return (thunk(),)
        finally:
            self.pc[n:] = [z3.Implies(c, x) for x in self.pc[n + 1:] if not isinstance(x, bool)]

    def e_cond(self, e):
        if self.pure(e["x"]) and self.pure(e["y"]):
            c = self.truth(self.ev(e["c"]))
            if not isinstance(c, bool):
                x = self.given(c, lambda: self.ev(e["x"]))
                y = self.given(z3.Not(c), lambda: self.ev(e["y"]))
                if x is None or y is None:
                    return (x or y)[0]
                x, y = x[0], y[0]
                if isinstance(x, I) and isinstance(y, I) and x.ty == y.ty:
                    return I(ite(c, x.t, y.t), x.ty)
                return x if self.branch(c) else y
            return self.ev(e["x"] if c else e["y"])
        if self.branch(self.truth(self.ev(e["c"]))):
            return self.ev(e["x"])
        return self.ev(e["y"])

    def e_cast(self, e):
        return self.lang.cast(self, self.ev(e["x"]), e["t"], e)

    def e_addr(self, e):
        x = e["x"]
        if x["k"] == "new" or x["k"] not in ("var", "field", "index", "deref", "paren"):
            v = self.ev(x)
            return Ref(self.new(v), ())
        loc, path = self.lv(x)
        return self.lang.mkref(self, loc, path)

    def e_deref(self, e):
        v = self.ev(e["x"])
        if isinstance(v, Ref):
            return self.load(v.loc, v.path)
        if v is NULL:
            raise Crash("null pointer")
        return self.lang.deref(self, v)

    def e_tuple(self, e):
        return tuple(self.ev(x) for x in e["els"])

    def e_tpl(self, e):
        return Un("text")

    def e_call(self, e):
        f = e["f"]
        if f["k"] == "paren":
            f = f["x"]
        r = self.lang.special_call(self, e)
        if r is not NotImplemented:
            return r
        if f["k"] == "field":
            st = self.lang.static(self, f)
            if st is None:
                x = self.ev(f["x"])
                lvf = f["x"]
                args = [self.ev(a) for a in e["a"]]
                return self.lang.method(self, x, lvf, f["n"], args, e)
            fv = st
        else:
            fv = self.ev(f)
        args = [self.ev(a) for a in e["a"]]
        return self.lang.apply(self, fv, args, e)

    # ---------------------------------------------------------------- arithmetic
    def equal(self, x, y):
        """term: x == y"""
        x, y = self.lang.rvalue(self, x), self.lang.rvalue(self, y)
        if isinstance(x, I) and isinstance(y, I):
            return eq(x.t, y.t)
        if isinstance(x, B) and isinstance(y, B):
            if isinstance(x.t, bool) and isinstance(y.t, bool):
                return x.t == y.t
            return zb(x.t) == zb(y.t)
        if isinstance(x, Null) or isinstance(y, Null):
            a = y if isinstance(x, Null) else x
            if isinstance(a, Un):
                raise Unsupported("null test of " + a.why)
            return isinstance(a, Null)
        if isinstance(x, (S, By)) and isinstance(y, (S, By)):
            return self.same_bytes(x, y)
        if isinstance(x, En) and isinstance(y, En):
            if not x.p and not y.p:
                return x.v == y.v
        if isinstance(x, Er) or isinstance(y, Er):
            r = self.lang.err_equal(self, x, y)
            if r is not None:
                return r
        if isinstance(x, Ref) and isinstance(y, Ref):
            if x.loc == y.loc and same(x.path, y.path):
                return True
            if x.loc != y.loc:
                return False
        if isinstance(x, F) and isinstance(y, F):
            raise Unsupported("comparison of floating point numbers")
        r = self.lang.equal(self, x, y)
        if r is not None:
            return r
        raise Unsupported(f"comparison of {x!r} and {y!r}")

    def same_bytes(self, x, y):
        def els(v):
            if isinstance(v, S):
                return [I(b, "u8") for b in v.h] if isinstance(v.h, bytes) else None
            return v.els
        a, b = els(x), els(y)
        if a is not None and b is not None:
            if len(a) != len(b):
                return False
            return and_(*[eq(p.t, q.t) for p, q in zip(a, b)])
        if (a is not None and not len(a)) or (b is not None and not len(b)):
            o = y if a is not None else x
            return eq(o.n, 0)
        if a is None and b is None:
            return and_(eq(x.h, y.h), eq(x.n, y.n)) if not isinstance(x.h, bytes) and not isinstance(y.h, bytes) else (_ for _ in ()).throw(Unsupported("text comparison"))
        o, n = (y, len(a)) if a is not None else (x, len(b))
        if self.proves(not_(eq(o.n, n))):
            return False
        raise Unsupported("comparison of a text with a constant")

    def fit(self, t, ty, op=""):
        """a computed number as a value of type ty"""
        if ty in FREE:
            return I(t, ty)
        lo, hi = RANGE[ty]
        if known(t):
            if lo <= t <= hi:
                return I(t, ty)
            return self.lang.overflow(self, t, ty, op)
        if self.proves_sum(and_(zi(t) >= lo, zi(t) <= hi)):
            return I(t, ty)
        return self.lang.overflow(self, t, ty, op)

    def arith(self, o, x, y, ty):
        a, b = x.t, y.t
        if o == "+":
            return self.fit(add(a, b), ty, o)
        if o == "-":
            return self.fit(sub(a, b), ty, o)
        if o == "*":
            return self.fit(mul(a, b), ty, o)
        if o in ("/", "%"):
            if known(b) and b == 0:
                raise Crash("division by zero")
            if not known(b):
                if self.branch(eq(b, 0)):
                    raise Crash("division by zero")
                raise Unsupported("division")
            if known(a):
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return self.fit(q if o == "/" else a - q * b, ty, o)
            if b > 0 and self.proves(zi(a) >= 0):
                return I(a / b if o == "/" else a % b, ty)
            raise Unsupported("division of a possibly negative number")
        if o == "<<":
            if known(b):
                return self.lang.shl(self, a, b, ty)
            raise Unsupported("shift")
        if o in (">>", ">>>"):
            if known(b):
                if known(a):
                    return I(a >> b, ty)
                if o == ">>>" and not self.proves(zi(a) >= 0):
                    a = a % (1 << 32)
                return I(zi(a) / (1 << b), ty)
            raise Unsupported("shift")
        if o == "&":
            if known(a) and known(b):
                return I(a & b, ty)
            if known(a):
                a, b = b, a
            if known(b):
                if b == 0:
                    return I(0, ty)
                if b == -1:
                    return I(a, ty)
                if b > 0 and (b & (b + 1)) == 0:
                    return self.fit(zi(a) % (b + 1), ty, o)
            raise Unsupported("bit operation")
        if o in ("|", "^"):
            if known(a) and known(b):
                return I(a | b if o == "|" else a ^ b, ty)
            for p, q in ((a, b), (b, a)):
                if known(q) and q == 0:
                    return I(p, ty)
                for s in (8, 16, 24, 32, 40, 48, 56):
                    m = 1 << s
                    if (known(p) and p % m == 0 or not known(p) and self.proves(zi(p) % m == 0)) and self.proves(and_(zi(q) >= 0, zi(q) < m)):
                        return I(add(p, q), ty)
            raise Unsupported("bit operation")
        raise Unsupported("operator " + o)

    def compare(self, o, x, y):
        if o in ("==", "!=", "===", "!=="):
            t = self.equal(x, y)
            return B(t if o[0] == "=" else not_(t))
        x, y = self.lang.rvalue(self, x), self.lang.rvalue(self, y)
        if isinstance(x, I) and isinstance(y, I):
            return B({"<": lambda: lt(x.t, y.t), "<=": lambda: le(x.t, y.t), ">": lambda: lt(y.t, x.t), ">=": lambda: le(y.t, x.t)}[o]())
        raise Unsupported(f"comparison of {x!r} and {y!r}")
