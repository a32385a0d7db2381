"""The statements and expressions of Python that the repository uses."""
import ast, builtins, string, collections
import z3
from .core import *
from . import core

EXC = {n: getattr(builtins, n) for n in dir(builtins) if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}


class Interp(X):
    def __init__(self, world=None, contracts=None, mods=None):
        super().__init__(world, contracts)
        self.env = None
        self.mods = mods or {}
        self.fdepth = 0

    # ---------------------------------------------------------------- names
    def lookup(self, n):
        e = self.env
        while e is not None:
            r = self.heap[e]
            if n in r.d:
                v = r.d[n]
                if isinstance(v, Undef):
                    raise Unsupported(f"value of {n} from an earlier iteration")
                return v
            e = r.parent
        if hasattr(builtins, n):
            return Native(n, n) if not (isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)) else getattr(builtins, n)
        raise PyRaise(NameError)

    def assign(self, n, v):
        r = self.heap[self.env]
        self.heap[self.env] = Env({**r.d, n: v}, r.parent)

    def bind(self, t, v):
        if isinstance(t, ast.Name):
            self.assign(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (tuple, list)) and len(v) == len(t.elts):
                for x, y in zip(t.elts, v):
                    self.bind(x, y)
            else:
                raise Unsupported("unpacking")
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            r = self.rec(o)
            if isinstance(r, Opaque) and r.what == "parser":
                return
            if not isinstance(r, PObj):
                raise Unsupported("attribute of " + type(r).__name__)
            self.setrec(o, PObj(r.cls, {**r.f, t.attr: v}))
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value), self.ev(t.slice), v)
        else:
            raise Unsupported("assignment")

    # ---------------------------------------------------------------- terms
    def asV(self, v):
        """as a term of sort V"""
        if isinstance(v, SV):
            return v.t
        if isinstance(v, SStr):
            return V.vstr(v.t)
        if isinstance(v, bool):
            return V.vbool(z3.BoolVal(v))
        if isinstance(v, int):
            return V.vint(z3.IntVal(v))
        if isinstance(v, SInt):
            return V.vint(v.t)
        if isinstance(v, SBool):
            return V.vbool(v.t)
        if isinstance(v, str):
            return V.vstr(self.w.sc(v))
        if v is None:
            return V.vnone
        raise Unsupported("not a plain value: " + type(v).__name__)

    def eqf(self, a, b):
        """formula of a == b"""
        plain = (SV, SStr, SInt, SBool, str, int, bool, type(None))
        if isinstance(a, Fz) or isinstance(a, Ref) or isinstance(b, (Fz, Ref)):
            ra, rb = self.rec(a), self.rec(b)
            if isinstance(ra, PObj) and isinstance(rb, PObj) and isinstance(a, Ref) and isinstance(b, Ref):
                return z3.BoolVal(a.i == b.i)
            for x, y in ((ra, b), (rb, a)):
                if isinstance(x, (PList, PDict)) and len(x.segs) == 0 and isinstance(y, (Ref, Fz)):
                    return self.truthf(y) if False else neg(self.truth_formula(y))
            if isinstance(ra, (PList, PDict, PObj)) != isinstance(rb, (PList, PDict, PObj)) and (isinstance(a, plain) and not isinstance(a, SV) or isinstance(b, plain) and not isinstance(b, SV)):
                return z3.BoolVal(False)
            raise Unsupported("comparison of collections")
        if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
            return z3.BoolVal(a == b) if isinstance(a, str) and isinstance(b, str) else self.st(a) == self.st(b)
        if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)) and not isinstance(a, bool) and not isinstance(b, bool):
            return z3.BoolVal(a == b) if isinstance(a, int) and isinstance(b, int) else self.it(a) == self.it(b)
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return self.bt(a) == self.bt(b)
        if isinstance(a, plain) and isinstance(b, plain):
            x, y = self.asV(a), self.asV(b)
            for p, q in ((x, y), (y, x)):
                if z3.is_app(p) and p.decl().name() == "vstr":
                    return z3.And(V.is_vstr(q), V.s(q) == p.arg(0)) if not (z3.is_app(q) and q.decl().name() in ("vstr", "vint", "vbool", "vnone")) else z3.simplify(p == q)
                if z3.is_app(p) and p.decl().name() == "vnone":
                    return p == q
            # 1 == True == 1.0
            return z3.Or(x == y, z3.And(z3.Not(V.is_vstr(x)), z3.Not(V.is_vstr(y)), z3.Or(peq(x, y), peq(y, x))))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return z3.BoolVal(False) if len(a) != len(b) else conj([self.eqf(x, y) for x, y in zip(a, b)])
        if isinstance(a, Cls) or isinstance(b, Cls) or isinstance(a, type) or isinstance(b, type) or isinstance(a, Native) and isinstance(b, Native):
            x, y = (getattr(v, "name", getattr(v, "__name__", v)) for v in (a, b))
            return z3.BoolVal(x == y)
        raise Unsupported(f"comparison of {type(a).__name__} and {type(b).__name__}")

    def st(self, v):
        return self.w.sc(v) if isinstance(v, str) else v.t

    def it(self, v):
        return z3.IntVal(v) if isinstance(v, int) else v.t

    def bt(self, v):
        return z3.BoolVal(v) if isinstance(v, bool) else v.t

    def strong(self, v):
        """a value with its type known on this path"""
        if not isinstance(v, SV):
            return v
        t = v.t
        if self.branch(V.is_vstr(t)):
            return SStr(z3.simplify(V.s(t)))
        if self.branch(V.is_vint(t)):
            return SInt(V.i(t))
        if self.branch(V.is_vbool(t)):
            return SBool(V.b(t))
        if self.branch(V.is_vlist(t)):
            return ("V", "list", V.l(t), v)
        if self.branch(V.is_vdict(t)):
            return ("V", "dict", V.d(t), v)
        if self.branch(V.is_vnone(t)):
            return None
        return ("V", "other", t, v)

    def isV(self, v, *ks):
        return isinstance(v, tuple) and len(v) == 4 and v[0] == "V" and v[1] in ks

    def truth_formula(self, v):
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, SInt):
            return v.t != 0
        if isinstance(v, SStr):
            return v.t != self.w.sc("")
        if v is None or isinstance(v, (bool, int, str, float)):
            return z3.BoolVal(bool(v))
        if isinstance(v, (Ref, Fz)):
            r = self.rec(v)
            if isinstance(r, PObj):
                return z3.BoolVal(True)
            return self.nonempty(r)
        if isinstance(v, (tuple, list)) and not (isinstance(v, tuple) and v and v[0] == "V"):
            return z3.BoolVal(len(v) > 0)
        if isinstance(v, Opaque) and v.what in ("text", "generated", "changed text"):
            raise Unsupported("truth of an unknown text")
        if isinstance(v, (Func, Cls, Native, Opaque)):
            return z3.BoolVal(True)
        raise Unsupported("truth of " + type(v).__name__)

    def truth(self, v):
        v = self.strong(v)
        if self.isV(v, "list"):
            return self.branch(llen(v[2]) > 0)
        if self.isV(v, "dict"):
            return self.branch(dlen(v[2]) > 0)
        if self.isV(v, "other"):
            return self.branch(z3.Function("truthy", V, B)(v[2]))
        return self.branch(self.truth_formula(v))

    def nonempty(self, r):
        if isinstance(r, (PList, PDict)):
            fs = []
            for s in r.segs:
                if s[0] == "one":
                    return z3.BoolVal(True)
                if s[0] == "set":
                    fs.append(s[2] > 0)
                    continue
                _, n, k, alts = s
                gs = disj([z3.BoolVal(True) if a[0] is True else a[0] for a in alts])
                if z3.is_true(gs):
                    fs.append(iv(n) > 0)
                else:
                    j = z3.Int("jn!" + str(k)[2:])
                    fs.append(z3.Exists([j], z3.And(j >= 0, j < iv(n), subst(gs, k, j))))
            return disj(fs)
        if isinstance(r, SymMap) and r.n is not None:
            return r.n > 0
        raise Unsupported("emptiness of " + type(r).__name__)

    def length(self, v):
        v = self.strong(v)
        if isinstance(v, str):
            return len(v)
        if isinstance(v, SStr):
            return SInt(slen(v.t))
        if self.isV(v, "list"):
            return SInt(llen(v[2]))
        if self.isV(v, "dict"):
            return SInt(dlen(v[2]))
        if isinstance(v, (int, SInt, bool, SBool, type(None))) or self.isV(v, "other"):
            raise PyRaise(TypeError)
        if isinstance(v, (tuple, list)):
            return len(v)
        r = self.rec(v)
        if isinstance(r, View):
            r = PList(r.segs)
        if isinstance(r, (PList, PDict)):
            if isinstance(r, PDict) or r.kind == "list":
                c, ts = 0, []
                for s in r.segs:
                    if s[0] == "one":
                        c += 1
                        continue
                    if s[0] == "set":
                        ts.append(s[2])
                        continue
                    _, n, k, alts = s
                    gs = disj([z3.BoolVal(True) if a[0] is True else a[0] for a in alts])
                    if z3.is_true(gs):
                        ts.append(iv(n))
                    else:
                        m = self.fresh("count")
                        self.pc += [m >= 0, m <= iv(n), (m > 0) == self.nonempty(PList([s]))]
                        ts.append(m)
                return c if not ts else SInt(z3.simplify(sum(ts[1:], ts[0]) + c))
        if isinstance(r, PList) and r.kind == "set" and all(s[0] == "one" or s[0] == "rep" for s in r.segs):
            return SInt(self.distinct(r.segs))
        if isinstance(r, SymMap) and r.n is not None:
            return SInt(r.n)
        raise Unsupported("length of " + type(r).__name__)

    def contains(self, x, c):
        """formula of x in c"""
        c = self.strong(c)
        if isinstance(c, (str, SStr)):
            x = self.strong(x)
            if not isinstance(x, (str, SStr)):
                raise PyRaise(TypeError)
            if isinstance(c, str) and isinstance(x, str):
                return z3.BoolVal(x in c)
            if isinstance(x, str):
                if x == "":
                    return z3.BoolVal(True)
                self.w.chars.add(x)
            elif isinstance(c, str):
                # a part of a fixed text
                return disj([x.t == self.w.sc(p) for p in {c[i:j] for i in range(len(c) + 1) for j in range(i, len(c) + 1)}]) if len(c) < 12 else self.bad("part of a text")
            return scontains(self.st(c), self.st(x))
        if self.isV(c, "dict"):
            if isinstance(x, SV):
                return z3.And(V.is_vstr(x.t), dhas(c[2], V.s(x.t)))
            return dhas(c[2], self.st(x)) if isinstance(x, (str, SStr)) else z3.BoolVal(False)
        if self.isV(c, "list"):
            j = z3.Int("jl!%d" % len(self.idx))
            return z3.Exists([j], z3.And(j >= 0, j < llen(c[2]), self.eqf(x, SV(lel(c[2], j)))))
        if isinstance(c, (int, SInt, bool, SBool, type(None))) or self.isV(c, "other"):
            raise PyRaise(TypeError)
        if isinstance(c, (tuple, list, set, frozenset, dict)):
            return disj([self.eqf(x, y) for y in c])
        r = self.rec(c)
        if isinstance(r, View):
            r = PList(r.segs)
        if isinstance(r, (PDict, PList)):
            if isinstance(r, PDict) or r.kind == "set":
                self.hashable(x)
            fs = []
            for s in r.segs:
                if s[0] == "one":
                    fs.append(self.eqf(x, s[1]))
                elif s[0] == "set":
                    fs.append(s[1](self.asV(x)))
                else:
                    _, n, k, alts = s
                    j = z3.Int("jc!" + str(k)[2:])
                    f = disj([conj(([] if a[0] is True else [a[0]]) + [self.eqf(x, a[1])]) for a in alts])
                    fs.append(z3.Exists([j], z3.And(j >= 0, j < iv(n), subst(f, k, j))))
            return disj(fs)
        if isinstance(r, PDoc):
            if not isinstance(x, str):
                raise Unsupported("key of the document")
            return z3.BoolVal(True) if x in r.over else dhas(r.d, self.w.sc(x))
        if isinstance(r, SymMap):
            return r.has(self.asV(x))
        raise Unsupported("membership in " + type(r).__name__)

    def among(self, x, c):
        """formula of membership of a term, for specifications"""
        fs = []
        for s in self.rec(c).segs:
            if s[0] == "one":
                fs.append(x == self.asV(s[1]))
            elif s[0] == "set":
                fs.append(s[1](x))
            else:
                _, n, k, alts = s
                j = z3.Int("jc!" + str(k)[2:])
                fs.append(z3.Exists([j], z3.And(j >= 0, j < iv(n), disj([conj(([] if a[0] is True else [subst(a[0], k, j)]) + [x == self.asV(subst(a[1], k, j))]) for a in alts]))))
        return disj(fs)

    def bad(self, w):
        raise Unsupported(w)

    def n_typ(self, v):
        raise Unsupported("type")

    def hashable(self, x):
        if isinstance(x, SV):
            if self.branch(z3.Or(V.is_vlist(x.t), V.is_vdict(x.t))):
                raise PyRaise(TypeError)
        elif isinstance(x, (Ref, Fz)) and isinstance(self.rec(x), (PList, PDict)):
            raise PyRaise(TypeError)

    # ---------------------------------------------------------------- items
    def getitem(self, c, i):
        c = self.strong(c)
        if isinstance(c, (str, SStr)):
            i = self.strong(i)
            if not isinstance(i, (int, SInt)):
                raise PyRaise(TypeError)
            if isinstance(c, str) and isinstance(i, int):
                try:
                    return c[i]
                except IndexError:
                    raise PyRaise(IndexError)
            if not isinstance(i, int):
                raise Unsupported("index")
            if not self.branch(slen(c.t) >= (i + 1 if i >= 0 else -i)):
                raise PyRaise(IndexError)
            return SStr(sat(c.t, i))
        if self.isV(c, "dict"):
            i = self.strong(i)
            if not isinstance(i, (str, SStr)):
                raise PyRaise(KeyError)
            if not self.branch(dhas(c[2], self.st(i))):
                raise PyRaise(KeyError)
            return SV(dget(c[2], self.st(i)))
        if self.isV(c, "list"):
            i = self.strong(i)
            if not isinstance(i, (int, SInt)) or isinstance(i, bool):
                raise PyRaise(TypeError)
            if not isinstance(i, int):
                raise Unsupported("index")
            if not self.branch(llen(c[2]) >= (i + 1 if i >= 0 else -i)):
                raise PyRaise(IndexError)
            return SV(lel(c[2], i if i >= 0 else llen(c[2]) + i))
        if isinstance(c, (int, SInt, bool, SBool, type(None))) or self.isV(c, "other"):
            raise PyRaise(TypeError)
        if isinstance(c, (tuple, list)) and isinstance(i, int):
            if not -len(c) <= i < len(c):
                raise PyRaise(IndexError)
            return c[i]
        r = self.rec(c)
        if isinstance(r, PList) and isinstance(i, int) and all(s[0] == "one" for s in r.segs):
            if not -len(r.segs) <= i < len(r.segs):
                raise PyRaise(IndexError)
            return r.segs[i][1]
        if isinstance(r, PDict):
            return self.dictget(r, i)
        if isinstance(r, PDoc):
            if not isinstance(i, str):
                raise Unsupported("key of the document")
            if i in r.over:
                return r.over[i]
            if not self.branch(dhas(r.d, self.w.sc(i))):
                raise PyRaise(KeyError)
            return SV(dget(r.d, self.w.sc(i)))
        if isinstance(r, SymMap):
            if not self.branch(r.has(self.asV(i))):
                raise PyRaise(KeyError)
            return r.get(self.asV(i))
        raise Unsupported("element of " + type(r).__name__)

    def dictget(self, r, i):
        self.hashable(i)
        if any(s[0] != "one" for s in r.segs):
            raise Unsupported("element of a dict filled by a loop")
        vals = []
        for s in r.segs:
            if not any(same(x, s[2]) for x in vals):
                vals.append(s[2])
        for v in vals:
            if self.branch(disj([z3.simplify(self.eqf(s[1], i)) for s in r.segs if same(s[2], v)])):
                return v
        raise PyRaise(KeyError)

    def lift(self, v):
        """a constant of the module as a value"""
        if isinstance(v, (int, str, bool, float, type(None), tuple)):
            return v
        if isinstance(v, list):
            return Fz(PList([("one", self.lift(x)) for x in v]))
        if isinstance(v, (set, frozenset)):
            return Fz(PList([("one", self.lift(x)) for x in sorted(v, key=str)], "set"))
        if isinstance(v, dict):
            return Fz(PDict([("one", self.lift(a), self.lift(b)) for a, b in v.items()]))
        if isinstance(v, type) and issubclass(v, BaseException):
            return v
        raise Unsupported("constant")

    def slice(self, c, lo, hi):
        c = self.strong(c)
        if isinstance(c, str) and all(x is None or isinstance(x, int) for x in (lo, hi)):
            return c[lo:hi]
        if isinstance(c, SStr) and lo == 1 and hi == -1:
            return SStr(ssub(c.t, z3.IntVal(1), z3.IntVal(-1)))
        if self.isV(c, "list"):
            if lo == 1 and hi == -1:
                # another list: of the elements between
                t = self.fresh("slice")
                j = z3.Int("js!%d" % len(self.idx))
                self.pc += [llen(t) == z3.If(llen(c[2]) >= 2, llen(c[2]) - 2, 0), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < llen(t)), lel(t, j) == lel(c[2], j + 1)))]
                return SV(V.vlist(t))
            raise Unsupported("slice")
        if isinstance(c, (int, SInt, bool, SBool, type(None))) or self.isV(c, "other", "dict"):
            raise PyRaise(TypeError)
        raise Unsupported("slice")

    def setitem(self, c, i, v):
        r = self.rec(c)
        if isinstance(r, PDoc):
            if not isinstance(i, str):
                raise Unsupported("key of the document")
            self.setrec(c, PDoc(r.d, {**r.over, i: v}))
            return
        if isinstance(r, PDict):
            self.hashable(i)
            segs = list(r.segs)
            m = self.contains(i, c)
            if not z3.is_false(m) and any(x[0] != "one" for x in segs) and self.w.check(self.pc + [m]) == "unsat":
                m = z3.BoolVal(False)
            if self.branch(m):
                for x, s in enumerate(segs):
                    if s[0] == "one" and same(s[1], i):
                        segs[x] = ("one", s[1], v)
                        self.setrec(c, PDict(segs))
                        return
                raise Unsupported("overwriting an entry")
            self.setrec(c, PDict(segs + [("one", i, v)]))
            return
        raise Unsupported("item assignment")

    # ---------------------------------------------------------------- iteration
    def view(self, v):
        """segments of what iterating over v gives"""
        v = self.strong(v)
        if isinstance(v, str):
            return [("one", c) for c in v]
        if isinstance(v, SStr):
            k = self.bvar()
            return [("rep", slen(v.t), k, [(True, SStr(z3.Function("schar", Str, I, Str)(v.t, k)))])]
        if isinstance(v, (int, SInt, bool, SBool, type(None))) or self.isV(v, "other"):
            raise PyRaise(TypeError)
        if self.isV(v, "list"):
            k = self.bvar()
            return [("rep", llen(v[2]), k, [(True, SV(lel(v[2], k)))])]
        if self.isV(v, "dict"):
            k = self.bvar()
            return [("rep", dlen(v[2]), k, [(True, SStr(dkey(v[2], k)))])]
        if isinstance(v, (tuple, list, set, frozenset, dict)):
            return [("one", x) for x in v]
        r = self.rec(v)
        if isinstance(r, View):
            return list(r.segs)
        if isinstance(r, PList):
            if r.kind == "set" and any(s[0] != "one" for s in r.segs):
                raise Unsupported("iteration over a set")
            return list(r.segs)
        if isinstance(r, PDict):
            return self.dview(r, "keys")
        raise Unsupported("iteration over " + type(r).__name__)

    def dview(self, r, what):
        f = {"keys": lambda a, b: a, "values": lambda a, b: b, "items": lambda a, b: (a, b)}[what]
        return [("one", f(s[1], s[2])) if s[0] == "one" else ("rep", s[1], s[2], [(a[0], f(a[1], a[2])) for a in s[3]]) for s in r.segs]

    # ---------------------------------------------------------------- statements
    def block(self, ss):
        for s in ss:
            self.st_(s)

    def st_(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(s).__name__)
        try:
            m(s)
        except PyRaise as e:
            if e.node is None:
                e.node = s
            raise

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.bind(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.bind(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        ld = ast.copy_location(ast.Name(s.target.id, ast.Load()), s) if isinstance(s.target, ast.Name) else None
        if ld is None:
            if not isinstance(s.target, ast.Attribute):
                raise Unsupported("augmented assignment")
            cur = self.ev(ast.Attribute(s.target.value, s.target.attr, ast.Load()))
        else:
            cur = self.ev(ld)
        v = self.ev(s.value)
        if isinstance(cur, Ref) and isinstance(self.rec(cur), PList) and isinstance(s.op, ast.Add):
            self.call(Bound(cur, "extend"), [v], {})
            return
        self.bind(s.target, self.binop(s.op, cur, v))

    def s_If(self, s):
        self.sub(lambda: self.block(s.body if self.cond(s.test) else s.orelse))

    def s_Return(self, s):
        raise Ret(self.ev(s.value) if s.value else None)

    def s_Break(self, s):
        raise Brk()

    def s_Continue(self, s):
        raise Cont()

    def s_Raise(self, s):
        if s.exc is None:
            raise Unsupported("raise")
        c = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
        v = self.ev(c)
        if isinstance(v, type) and issubclass(v, BaseException):
            raise PyRaise(v, None, s)
        raise Unsupported("raise")

    def s_Assert(self, s):
        if not self.cond(s.test):
            raise PyRaise(AssertionError, None, s)

    def s_FunctionDef(self, s):
        if s.decorator_list:
            raise Unsupported("decorator")
        self.assign(s.name, Func(s, self.env))

    def s_For(self, s):
        segs = self.view(self.ev(s.iter))

        def body(v):
            self.bind(s.target, v)
            self.block(s.body)
        if not self.loop(segs, body):
            self.block(s.orelse)

    def s_While(self, s):
        self.nl += 1
        key = (tuple(self.dec[:self.pos]), self.nl)
        if key not in self.memo:
            self.memo[key] = self.whilesum(s)
        exits = self.memo[key]
        if not exits:
            raise Infeasible()
        o = exits[self.choose(len(exits))]
        self.restore(o.s)
        if o.kind == "raise":
            raise o.v
        if o.kind == "ret":
            raise Ret(o.v)
        if o.kind != "brk":
            self.block(s.orelse)

    def havoc(self, mod, entry):
        """an arbitrary state: what the loop changes is anything of its kind"""
        for i, f in sorted(mod, key=str):
            r0 = entry[0][i]
            if f is None:
                if not isinstance(r0, PList):
                    raise Unsupported("collection changed in a loop")
                P, n, y = z3.Function(f"in!{i}!{self.ctr}", V, B), self.fresh("n"), z3.Const("y!in", V)
                self.ctr += 1
                self.pc += [n >= 0, z3.ForAll([y], z3.Implies(P(y), n > 0), patterns=[P(y)])]
                self.heap[i] = PList([("set", P, n)], r0.kind)
                continue
            cur = self.heap[i]
            d = dict(cur.d if isinstance(cur, Env) else cur.f)
            v = (r0.d if isinstance(r0, Env) else r0.f).get(f, UNDEF)
            d[f] = UNDEF if isinstance(v, Undef) else SBool(self.fresh("h", B)) if isinstance(v, (bool, SBool)) else SInt(self.fresh("h")) if isinstance(v, (int, SInt)) else SStr(self.fresh("h", Str)) if isinstance(v, (str, SStr)) else UNDEF
            self.heap[i] = Env(d, cur.parent) if isinstance(cur, Env) else PObj(cur.cls, d)

    def proves(self, pc, goal):
        fs = list(pc) + [z3.Not(goal)]
        return self.w.check(fs, 800) == "unsat"

    def whilesum(self, s):
        if self.idx:
            raise Unsupported("while in a loop")
        entry = self.snap()
        mod = set()

        def one():
            if not self.cond(s.test):
                return "exit"
            self.block(s.body)

        for rnd in range(6):
            self.restore(entry)
            self.havoc(mod, entry)
            start = self.snap()
            outs = self.explore(one)
            cont = [o for o in outs if o.kind == "cont" or o.kind == "norm" and o.v is None]
            more = set()
            for o in cont:
                for i in entry[0]:
                    a, b = start[0][i], o.heap[i]
                    if a is b or same(a, b):
                        continue
                    if isinstance(a, (Env, PObj)):
                        D = (lambda r: r.d) if isinstance(a, Env) else (lambda r: r.f)
                        more |= {(i, f) for f in D(b) if f not in D(a) or not same(D(a)[f], D(b)[f])}
                    else:
                        more.add((i, None))
            if more <= mod:
                break
            mod |= more
        else:
            raise Unsupported("while")
        self.restore(entry)
        cs = self.candidates(self, mod, entry)

        def at(o, c):
            sv = self.heap
            self.heap = dict(o[0])
            try:
                return c(self)
            finally:
                self.heap = sv
        cs = [c for c in cs if self.proves(entry[1], at(entry, c))]
        while True:
            inv = [at(start, c) for c in cs]
            keep = [c for c in cs if all(self.proves(list(o.pc) + inv, at(o.s, c)) for o in cont)]
            if len(keep) == len(cs):
                break
            cs = keep
        self.ghost["invariants"] = [getattr(c, "label", "") for c in cs]
        if self.oblige:
            for o in cont:
                self.oblige("the search ends", list(o.pc) + inv, self.variant(start, o, mod))
        res = []
        for o in outs:
            if o in cont:
                continue
            self.restore(o.s)
            self.pc = self.pc + inv
            o2 = Out()
            o2.kind, o2.v, o2.s = o.kind, (None if o.kind == "norm" else o.v), self.snap()
            res.append(o2)
        self.restore(entry)
        return res

    def variant(self, start, o, mod):
        """a set with finitely many possible members grows, or none changes and a list gets shorter"""
        grow, still, shorter = [], [], []
        y = z3.Const("y!t", V)
        sv = self.heap
        for i, f in sorted(mod, key=str):
            if f is not None:
                continue
            P = start[0][i].segs[0][1]
            self.heap = dict(o.heap)
            new = self.among(y, Ref(i))
            if start[0][i].kind == "set":
                grow.append(z3.And(z3.ForAll([y], z3.Implies(P(y), new), patterns=[P(y)]), z3.Exists([y], z3.And(new, z3.Not(P(y)), self.finite(y))), z3.ForAll([y], z3.Implies(z3.And(new, z3.Not(P(y))), self.finite(y)))))
                still.append(z3.ForAll([y], new == P(y)))
            elif start[0][i].kind == "list":
                n = self.length(Ref(i))
                shorter.append(self.it(n) < start[0][i].segs[0][2])
        self.heap = sv
        return z3.Or(disj(grow) if len(grow) == 1 else z3.And(disj(grow), *[z3.Or(g, st) for g, st in zip(grow, still)]), z3.And(*still, disj(shorter)) if len(shorter) == 1 else z3.BoolVal(False))

    def finite(self, y):
        return z3.BoolVal(False)

    def popped(self, o, r):
        """remove some member"""
        if not self.branch(self.nonempty(r)):
            raise PyRaise(IndexError if r.kind == "list" else KeyError)
        if self.idx:
            raise Unsupported("pop in a loop")
        x = SV(self.fresh("x", V))
        P, n, y = z3.Function(f"in!{self.ctr}", V, B), self.fresh("n"), z3.Const("y!in", V)
        self.ctr += 1
        old = self.among(y, Fz(r))
        self.pc += [self.among(x.t, Fz(r)), n >= 0, z3.ForAll([y], z3.Implies(P(y), z3.And(n > 0, old)), patterns=[P(y)])]
        for s in r.segs:
            if s[0] == "set":
                self.pc.append(z3.ForAll([y], z3.Implies(s[1](y), z3.Or(y == x.t, P(y))), patterns=[s[1](y)]))
            elif s[0] == "one":
                v = self.asV(s[1])
                self.pc.append(z3.Or(v == x.t, P(v)))
            else:
                _, m, k, alts = s
                j = self.bvar()
                for a in alts:
                    v = self.asV(subst(a[1], k, j))
                    self.pc.append(forall(j, z3.And(j >= 0, j < iv(m), z3.BoolVal(True) if a[0] is True else subst(a[0], k, j)), z3.Or(v == x.t, P(v))))
        if r.kind == "set":
            self.pc.append(z3.Not(P(x.t)))
        else:
            m = self.length(Fz(r))
            self.pc.append(n == self.it(m) - 1)
        self.setrec(o, PList([("set", P, n)], r.kind))
        return x

    def s_Try(self, s):
        if s.finalbody:
            raise Unsupported("finally")
        try:
            self.block(s.body)
        except PyRaise as e:
            for h in s.handlers:
                cs = [BaseException] if h.type is None else [self.ev(x) for x in h.type.elts] if isinstance(h.type, ast.Tuple) else [self.ev(h.type)]
                if any(issubclass(e.cls, c) for c in cs):
                    if h.name:
                        self.assign(h.name, Opaque("exception"))
                    self.block(h.body)
                    return
            raise
        self.block(s.orelse)

    def s_With(self, s):
        for i in s.items:
            v = self.ev(i.context_expr)
            if not (isinstance(v, Opaque) and v.what in ("file", "other file")):
                raise Unsupported("with")
            if i.optional_vars is not None:
                self.bind(i.optional_vars, v)
        self.block(s.body)

    def s_Import(self, s):
        raise Unsupported("import")

    # ---------------------------------------------------------------- expressions
    def cond(self, e):
        """truth of an expression, branching as evaluation does"""
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And):
                return all(self.cond(v) for v in e.values)
            return any(self.cond(v) for v in e.values)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not self.cond(e.operand)
        return self.truth(self.ev(e))

    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        return e.value

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_JoinedStr(self, e):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(v.value)
        return Opaque("text")

    def e_Tuple(self, e):
        return tuple(self.ev(x) for x in e.elts)

    def e_List(self, e):
        return self.new(PList([("one", self.ev(x)) for x in e.elts]))

    def e_Set(self, e):
        return self.new(PList([("one", self.ev(x)) for x in e.elts], "set"))

    def e_Dict(self, e):
        return self.new(PDict([("one", self.ev(k), self.ev(v)) for k, v in zip(e.keys, e.values)]))

    def e_BoolOp(self, e):
        v = None
        for x in e.values:
            v = self.ev(x)
            t = self.truth(v) if x is not e.values[-1] else None
            if t is not None and t != isinstance(e.op, ast.And):
                return v
        return v

    def e_UnaryOp(self, e):
        if isinstance(e.op, ast.Not):
            v = self.strong(self.ev(e.operand))
            if not isinstance(v, tuple):
                f = neg(z3.simplify(self.truth_formula(v)))
                return True if z3.is_true(f) else False if z3.is_false(f) else SBool(f)
            return not self.truth(v)
        v = self.strong(self.ev(e.operand))
        if isinstance(e.op, ast.USub) and isinstance(v, (int, SInt)):
            return -v if isinstance(v, int) else SInt(-v.t)
        raise Unsupported("operator")

    def e_BinOp(self, e):
        return self.binop(e.op, self.ev(e.left), self.ev(e.right))

    def binop(self, op, a, b):
        a, b = self.strong(a), self.strong(b)
        num = lambda x: isinstance(x, (int, SInt)) and not isinstance(x, bool)
        if num(a) and num(b):
            if isinstance(a, int) and isinstance(b, int):
                return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.LShift: lambda: a << b, ast.Pow: lambda: a ** b}.get(type(op), lambda: self.bad("operator"))()
            x, y = self.it(a), self.it(b)
            r = {ast.Add: lambda: x + y, ast.Sub: lambda: x - y, ast.Mult: lambda: x * y}.get(type(op), lambda: self.bad("operator"))()
            return SInt(z3.simplify(r))
        if isinstance(op, ast.Add):
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, (str, SStr, Opaque)) and isinstance(b, (str, SStr, Opaque)):
                return Opaque("changed text") if "generated" in (getattr(a, "what", 0), getattr(b, "what", 0)) else Opaque("text")
            ra, rb = self.rec(a), self.rec(b)
            if isinstance(ra, PList) and isinstance(rb, PList):
                return self.new(PList(ra.segs + rb.segs, ra.kind))
        if isinstance(op, ast.BitOr):
            ra, rb = self.rec(a), self.rec(b)
            if isinstance(ra, PList) and isinstance(rb, PList) and ra.kind == rb.kind == "set":
                return self.new(PList(ra.segs + rb.segs, "set"))
        raise Unsupported("operator")

    def e_Compare(self, e):
        a = self.ev(e.left)
        out = None
        for op, r in zip(e.ops, e.comparators):
            b = self.ev(r)
            f = self.compare(op, a, b)
            f = z3.simplify(f)
            if len(e.ops) == 1:
                return True if z3.is_true(f) else False if z3.is_false(f) else SBool(f)
            if not self.branch(f):
                return False
            a = b
        return True

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            a2, b2 = a, b
            if isinstance(a, Native):
                a2 = a.name
            if isinstance(b, Native):
                b2 = b.name
            if isinstance(a, tuple) and a and a[0] == "typeof" or isinstance(b, tuple) and b and b[0] == "typeof":
                f = self.typeis(a, b)
            elif b is None or a is None:
                o = a if b is None else b
                f = V.is_vnone(o.t) if isinstance(o, SV) else z3.BoolVal(o is None)
            elif isinstance(a2, str) and isinstance(b2, str):
                f = z3.BoolVal(a2 == b2)
            elif isinstance(b, bool) and isinstance(a, (bool, SBool)) or isinstance(a, bool) and isinstance(b, (bool, SBool)):
                f = self.bt(a) == self.bt(b)
            else:
                raise Unsupported("is")
            return f if isinstance(op, ast.Is) else neg(f)
        if isinstance(op, (ast.In, ast.NotIn)):
            f = self.contains(a, b)
            return f if isinstance(op, ast.In) else neg(f)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if isinstance(a, tuple) and a and a[0] == "typeof" or isinstance(b, tuple) and b and b[0] == "typeof":
                f = self.typeis(a, b)
            else:
                f = self.eqf(a, b)
            return f if isinstance(op, ast.Eq) else neg(f)
        a, b = self.strong(a), self.strong(b)
        if isinstance(a, (int, SInt, bool, SBool)) and isinstance(b, (int, SInt, bool, SBool)):
            n = lambda x: z3.If(x.t, 1, 0) if isinstance(x, SBool) else z3.IntVal(int(x)) if isinstance(x, (bool, int)) else x.t
            x, y = n(a), n(b)
            return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]
        ra, rb = self.rec(a), self.rec(b)
        if isinstance(ra, PList) and isinstance(rb, PList) and ra.kind == rb.kind == "set" and isinstance(op, ast.LtE):
            fs = [self.contains(s[1], b) for s in ra.segs if s[0] == "one"]
            if len(fs) == len(ra.segs):
                return conj(fs)
        if isinstance(a, (int, SInt, str, SStr, type(None), tuple)) and isinstance(b, (int, SInt, str, SStr, type(None), tuple)):
            raise PyRaise(TypeError) if not (isinstance(a, (str, SStr)) and isinstance(b, (str, SStr))) else Unsupported("order of texts")
        raise Unsupported("order")

    TAGS = {"str": V.is_vstr, "int": V.is_vint, "bool": V.is_vbool, "list": V.is_vlist, "dict": V.is_vdict}

    def typeis(self, a, b):
        t, c = (a, b) if isinstance(a, tuple) else (b, a)
        if isinstance(c, tuple):
            raise Unsupported("type")
        n = getattr(c, "name", getattr(c, "__name__", None))
        v = t[1]
        return self.isinst(v, n, exact=True)

    def isinst(self, v, n, exact=False):
        if isinstance(v, SV):
            if n in self.TAGS:
                f = self.TAGS[n](v.t)
                return f if exact or n != "int" else z3.Or(f, V.is_vbool(v.t))
            if n in ("float",):
                return z3.And(V.is_vother(v.t), z3.Function("isfloat", V, B)(v.t))
            return z3.BoolVal(n == "object")
        py = {str: ("str",), SStr: ("str",), bool: ("bool",) if exact else ("bool", "int"), SBool: ("bool",) if exact else ("bool", "int"), int: ("int",), SInt: ("int",), type(None): ("NoneType",), tuple: ("tuple",), Opaque: ()}.get(type(v))
        if isinstance(v, Opaque):
            raise Unsupported("type of an unknown value")
        if py is not None:
            return z3.BoolVal(n in py)
        r = self.rec(v)
        if isinstance(r, PList):
            return z3.BoolVal(n == r.kind)
        if isinstance(r, (PDict, SymMap)):
            return z3.BoolVal(n == "dict")
        if isinstance(r, PObj) and r.cls is not None:
            return z3.BoolVal(n == (r.cls.name if hasattr(r.cls, "name") else r.cls))
        raise Unsupported("type of " + type(r).__name__)

    def e_IfExp(self, e):
        return self.ev(e.body if self.cond(e.test) else e.orelse)

    def e_Attribute(self, e):
        return self.attr(self.ev(e.value), e.attr)

    def attr(self, o, n):
        if isinstance(o, SV):
            o = self.strong(o)
        r = self.rec(o)
        if isinstance(r, PObj):
            if n in r.f:
                return r.f[n]
            if isinstance(r.cls, Cls):
                m = r.cls.method(n)
                if m is not None:
                    return Func(m, r.cls.env, o, r.cls)
                for b in r.cls.node.body:
                    if isinstance(b, (ast.Assign, ast.AnnAssign)) and any(isinstance(t, ast.Name) and t.id == n for t in (b.targets if isinstance(b, ast.Assign) else [b.target])):
                        return self.ev(b.value)
            if r.cls == "Counter":
                return Bound(o, n)
            raise PyRaise(AttributeError)
        if isinstance(r, Opaque) and r.what == "protocol" and "protocol" in self.ghost:
            return self.attr(self.ghost["protocol"], n)
        if isinstance(o, (str, SStr)):
            if not hasattr("", n):
                raise PyRaise(AttributeError)
            return Bound(o, n)
        if self.isV(o, "dict"):
            if not hasattr({}, n):
                raise PyRaise(AttributeError)
            return Bound(o, n)
        if self.isV(o, "list"):
            if not hasattr([], n):
                raise PyRaise(AttributeError)
            return Bound(o, n)
        if isinstance(o, (int, SInt, bool, SBool, type(None))) or self.isV(o, "other"):
            raise PyRaise(AttributeError)
        if isinstance(r, (PList, PDict, SymMap, View, PDoc)) or isinstance(r, PObj) and r.cls == 'Counter':
            return Bound(o, n)
        if isinstance(o, Native) and o.name == "string" and isinstance(getattr(string, n, None), str):
            return getattr(string, n)
        if isinstance(o, Native):
            return Native(o.name + "." + n, o.name + "." + n)
        if isinstance(o, Cls):
            m = o.method(n)
            if m is not None:
                return Func(m, o.env, None, o)
        raise Unsupported(f"attribute {n} of {type(r).__name__}")

    def e_Subscript(self, e):
        c = self.ev(e.value)
        if isinstance(e.slice, ast.Slice):
            if e.slice.step is not None:
                raise Unsupported("slice")
            return self.slice(c, self.ev(e.slice.lower) if e.slice.lower else None, self.ev(e.slice.upper) if e.slice.upper else None)
        return self.getitem(c, self.ev(e.slice))

    def e_Lambda(self, e):
        return Func(e, self.env)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.bind(e.target, v)
        return v

    # comprehensions: loops in a scope of their own
    def scope(self, f):
        old = self.env
        self.env = self.new(Env({}, old)).i
        try:
            return f()
        finally:
            self.env = old

    def comp(self, gens, leaf):
        def go(i):
            if i == len(gens):
                leaf()
                return
            g = gens[i]
            segs = self.view(self.ev(g.iter))

            def body(v):
                self.bind(g.target, v)
                for c in g.ifs:
                    if not self.cond(c):
                        return
                go(i + 1)
            if self.loop(segs, body) and i > 0:
                raise Brk()
        go(0)

    def e_ListComp(self, e, kind="list"):
        def f():
            out = self.new(PList([], kind))
            self.comp(e.generators, lambda: self.call(Bound(out, "append" if kind == "list" else "add"), [self.ev(e.elt)], {}))
            return out
        return self.scope(f)

    def e_SetComp(self, e):
        return self.e_ListComp(e, "set")

    def e_GeneratorExp(self, e):
        return self.e_ListComp(e)

    def e_DictComp(self, e):
        def f():
            out = self.new(PDict([]))
            self.comp(e.generators, lambda: self.setitem(out, self.ev(e.key), self.ev(e.value)))
            return out
        return self.scope(f)

    # ---------------------------------------------------------------- calls
    def e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id in ("all", "any") and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) and self.isbuiltin(e.func.id):
            return self.quant(e.func.id == "all", e.args[0])
        f = self.ev(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.view(self.ev(a.value))
                if any(s[0] != "one" for s in v):
                    raise Unsupported("arguments")
                args += [s[1] for s in v]
            else:
                args.append(self.ev(a))
        if any(k.arg is None for k in e.keywords):
            raise Unsupported("keyword arguments")
        return self.call(f, args, {k.arg: self.ev(k.value) for k in e.keywords}, e)

    def isbuiltin(self, n):
        v = self.lookup(n)
        return isinstance(v, Native) and v.name == n

    def quant(self, al, g):
        def f():
            def leaf():
                if self.cond(g.elt) != al:
                    raise Brk()
            r = [None]
            gens = g.generators
            if len(gens) != 1:
                raise Unsupported("nested quantifier")
            segs = self.view(self.ev(gens[0].iter))

            def body(v):
                self.bind(gens[0].target, v)
                for c in gens[0].ifs:
                    if not self.cond(c):
                        return
                leaf()
            broke = self.loop(segs, body)
            return (not al) if broke else al
        if isinstance(g, ast.GeneratorExp) or True:
            return self.scope(f)

    def call(self, f, args, kw, node=None):
        if isinstance(f, Func):
            return self.callfn(f, args, kw)
        if isinstance(f, Cls):
            if f.name in self.contracts:
                return self.contracts[f.name](self, f, args, kw)
            o = self.new(PObj(f, {}))
            m = f.method("__init__")
            if m is None:
                if any(isinstance(d, ast.Name) and "dataclass" in d.id for d in f.node.decorator_list):
                    raise Unsupported("dataclass")
                return o
            self.callfn(Func(m, f.env, o, f), args, kw)
            return o
        if isinstance(f, Native):
            if callable(f.f):
                return f.f(self, args, kw)
            m = getattr(self, "n_" + f.name.replace(".", "_"), None)
            if m is None:
                raise Unsupported("function " + f.name)
            return m(*args, **kw)
        if isinstance(f, Bound):
            return self.method(f.v, f.name, args, kw)
        if isinstance(f, type) and issubclass(f, BaseException):
            return Opaque("exception")
        if isinstance(f, Opaque) and f.what == "writer class":
            return self.job.construct(self, args, kw)
        raise Unsupported("call of " + type(f).__name__)

    def callfn(self, f, args, kw):
        name = getattr(f.node, "name", "<lambda>")
        q = (f.cls.name + "." if f.cls else "") + name
        if q in self.contracts:
            return self.contracts[q](self, f, args, kw)
        return self.callbody(f, args, kw)

    def callbody(self, f, args, kw):
        name = getattr(f.node, "name", "<lambda>")
        q = (f.cls.name + "." if f.cls else "") + name
        if self.callstack.count(q) > 0:
            raise Unsupported("recursion of " + q)
        old = self.env
        d = {}
        a = f.node.args
        ps = [x.arg for x in a.args]
        if f.self_ is not None:
            args = [f.self_] + list(args)
        if a.vararg or a.kwarg or len(args) > len(ps):
            raise PyRaise(TypeError) if not (a.vararg or a.kwarg) else Unsupported("arguments")
        for n, v in zip(ps, args):
            d[n] = v
        for n, v in kw.items():
            if n in d or n not in ps + [x.arg for x in a.kwonlyargs]:
                raise PyRaise(TypeError)
            d[n] = v
        self.env = f.env
        try:
            for n, x in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(p.arg, x) for p, x in zip(a.kwonlyargs, a.kw_defaults) if x is not None]:
                if n not in d:
                    d[n] = self.ev(x)
            if any(n not in d for n in ps):
                raise PyRaise(TypeError)
            self.env = self.new(Env(d, f.env)).i
            self.callstack.append(q)
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body)
            def run():
                try:
                    self.block(f.node.body)
                    return None
                except Ret as r:
                    return r.v
            try:
                return self.sub(run)
            finally:
                if self.callstack and self.callstack[-1] == q:
                    self.callstack.pop()
        finally:
            self.env = old

    # built-in functions
    def n_len(self, v):
        return self.length(v)

    def n_setattr(self, o, n, v):
        r = self.rec(o)
        if not isinstance(n, str) or not isinstance(r, PObj):
            raise Unsupported("setattr")
        self.setrec(o, PObj(r.cls, {**r.f, n: v}))

    def n_getattr(self, o, n, *d):
        if not isinstance(n, str) or not isinstance(self.rec(o), PObj):
            raise Unsupported("getattr")
        try:
            return self.attr(o, n)
        except PyRaise as e:
            if d and e.cls is AttributeError:
                return d[0]
            raise

    def n_isinstance(self, v, c):
        cs = c if isinstance(c, tuple) else (c,)
        f = disj([self.isinst(v, getattr(x, "name", getattr(x, "__name__", "?"))) for x in cs])
        f = z3.simplify(f)
        return True if z3.is_true(f) else False if z3.is_false(f) else SBool(f)

    def n_type(self, v):
        return ("typeof", v)

    def n_str(self, v=""):
        return v if isinstance(v, (str, SStr)) else Opaque("text")

    def n_repr(self, v):
        return Opaque("text")

    def n_print(self, *a, **k):
        return None

    def n_sorted(self, v, **k):
        segs = self.view(v)
        if all(s[0] == "one" and isinstance(s[1], (int, str)) for s in segs) and not k:
            return self.new(PList([("one", x) for x in sorted(s[1] for s in segs)]))
        raise Unsupported("sorted")

    def n_bool(self, v=False):
        return self.truth(v)

    def n_all(self, v):
        return not self.loop(self.view(v), lambda x: self.brk(not self.truth(x)))

    def n_any(self, v):
        return self.loop(self.view(v), lambda x: self.brk(self.truth(x)))

    def brk(self, c):
        if c:
            raise Brk()

    def n_list(self, v=()):
        return self.new(PList(self.view(v)))

    def n_tuple(self, v=()):
        return self.new(PList(self.view(v)))

    def n_set(self, v=()):
        segs = self.view(v)
        return self.new(PList(segs, "set"))

    n_frozenset = n_set

    def n_iter(self, v):
        return Fz(View(self.view(v)))

    def n_next(self, v):
        segs = self.view(v)
        for s in segs:
            if s[0] == "one":
                return s[1]
            _, n, k, alts = s
            if not (len(alts) == 1 and (alts[0][0] is True or z3.is_true(alts[0][0]))):
                raise Unsupported("first of a filtered collection")
            if self.branch(iv(n) > 0):
                return subst(alts[0][1], k, 0)
        raise PyRaise(StopIteration)

    def n_enumerate(self, v, start=0):
        out, c = [], start
        for s in self.view(v):
            if s[0] == "one":
                out.append(("one", (c, s[1])))
                c = c + 1 if isinstance(c, int) else SInt(c.t + 1)
            else:
                _, n, k, alts = s
                if not (len(alts) == 1 and (alts[0][0] is True or z3.is_true(alts[0][0]))):
                    raise Unsupported("enumeration of a filtered collection")
                out.append(("rep", n, k, [(True, (SInt(z3.simplify(self.it(c) + k)), alts[0][1]))]))
                c = SInt(z3.simplify(self.it(c) + iv(n)))
        return Fz(View(out))

    def n_range(self, *a):
        if all(isinstance(x, int) for x in a):
            return Fz(View([("one", x) for x in range(*a)]))
        if len(a) <= 2:
            lo, hi = (0, a[0]) if len(a) == 1 else a
            k = self.bvar()
            return Fz(View([("rep", z3.simplify(self.it(hi) - self.it(lo)), k, [(True, SInt(z3.simplify(self.it(lo) + k)))])]))
        raise Unsupported("range")

    def n_zip(self, *vs):
        sg = [self.view(v) for v in vs]
        if all(len(s) == 1 and s[0][0] == "rep" and len(s[0][3]) == 1 and s[0][3][0][0] is True for s in sg) and all(iv(s[0][1]).eq(iv(sg[0][0][1])) for s in sg):
            k = sg[0][0][2]
            return Fz(View([("rep", sg[0][0][1], k, [(True, tuple(subst(s[0][3][0][1], s[0][2], k) for s in sg))])]))
        raise Unsupported("zip")

    def n_dict(self, v=None, **kw):
        if v is None:
            return self.new(PDict([("one", k, x) for k, x in kw.items()]))
        if isinstance(self.rec(v), PDict):
            return self.new(PDict(self.rec(v).segs))
        segs = []
        for s in self.view(v):
            if s[0] == "one" and isinstance(s[1], tuple) and len(s[1]) == 2:
                segs.append(("one",) + s[1])
            elif s[0] == "rep" and all(isinstance(a[1], tuple) and len(a[1]) == 2 for a in s[3]):
                # keys must differ, or later entries would replace earlier ones
                _, n, k, alts = s
                if len(alts) != 1 or alts[0][0] is not True and not z3.is_true(alts[0][0]):
                    raise Unsupported("dict of a filtered collection")
                a, b = z3.Ints("ja!d jb!d")
                kt = alts[0][1][0]
                self.rep(("rep", n, k, [(True, kt)]), lambda x: self.hashable(x))
                dup = z3.Exists([a, b], z3.And(0 <= a, a < b, b < iv(n), self.eqf(subst(kt, k, a), subst(kt, k, b))))
                if self.w.check(self.pc + [dup], 2000) != "unsat":
                    raise Unsupported("dict from pairs whose keys may repeat")
                segs.append(("rep", n, k, [(True,) + alts[0][1]]))
            else:
                raise Unsupported("dict")
        return self.new(PDict(segs))

    def n_Counter(self, v):
        return Fz(PObj("Counter", {"segs": self.view(v)}))

    n_collections_Counter = n_Counter

    def extreme(self, v, lt, kw):
        if kw:
            raise Unsupported("min with a key")
        segs = self.view(v)
        if all(s[0] == "one" for s in segs) and all(isinstance(s[1], int) for s in segs):
            if not segs:
                raise PyRaise(ValueError)
            return (min if lt else max)(s[1] for s in segs)
        if len(segs) == 1 and segs[0][0] == "rep" and len(segs[0][3]) == 1 and (segs[0][3][0][0] is True or z3.is_true(segs[0][3][0][0])):
            _, n, k, alts = segs[0]
            x = alts[0][1]
            j = z3.Int("jm!" + str(k)[2:])
            if isinstance(x, SV):
                t = V.i(x.t)
                allint = forall(j, z3.And(j >= 0, j < iv(n)), subst(V.is_vint(x.t), k, j))
                if self.w.check(self.pc + [z3.Not(allint)], 2000) != "unsat":
                    raise Unsupported("least of values that may not be numbers")
            elif isinstance(x, SInt):
                t = x.t
            else:
                raise Unsupported("least")
            if not self.branch(iv(n) > 0):
                raise PyRaise(ValueError)
            m, w = self.fresh("least" if lt else "greatest"), self.fresh("at")
            tj = subst(t, k, j)
            self.pc += [0 <= w, w < iv(n), m == subst(t, k, w), forall(j, z3.And(j >= 0, j < iv(n)), m <= tj if lt else m >= tj)]
            return SInt(m)
        raise Unsupported("least")

    def n_min(self, *a, **kw):
        return self.extreme(a[0] if len(a) == 1 else a, True, kw)

    def n_max(self, *a, **kw):
        return self.extreme(a[0] if len(a) == 1 else a, False, kw)

    def n_sum(self, v, start=0):
        segs = self.view(v)
        t = self.it(start)
        for s in segs:
            if s[0] == "one":
                t = t + self.it(self.strong(s[1]))
            else:
                _, n, k, alts = s
                if len(alts) != 1 or not isinstance(alts[0][1], SInt):
                    raise Unsupported("sum")
                g = alts[0][1].t if alts[0][0] is True or z3.is_true(alts[0][0]) else z3.If(alts[0][0], alts[0][1].t, 0)
                t = t + self.w.sum(g, k, n)
        t = z3.simplify(t)
        return t.as_long() if z3.is_int_value(t) else SInt(t)

    # methods of built-in values
    def method(self, o, n, args, kw):
        o = self.strong(o) if isinstance(o, SV) else o
        if isinstance(o, (str, SStr)):
            return self.strmethod(o, n, args)
        if self.isV(o, "dict"):
            d = o[2]
            k = self.bvar()
            if n == "items":
                return Fz(View([("rep", dlen(d), k, [(True, (SStr(dkey(d, k)), SV(dval(d, k))))])]))
            if n == "keys":
                return Fz(View([("rep", dlen(d), k, [(True, SStr(dkey(d, k)))])]))
            if n == "values":
                return Fz(View([("rep", dlen(d), k, [(True, SV(dval(d, k)))])]))
            if n == "get":
                if not isinstance(args[0], (str, SStr)):
                    raise Unsupported("get")
                if self.branch(dhas(d, self.st(args[0]))):
                    return SV(dget(d, self.st(args[0])))
                return args[1] if len(args) > 1 else None
            raise Unsupported("dict." + n)
        r = self.rec(o)
        if isinstance(r, PDoc):
            if n == "get" and isinstance(args[0], str):
                if self.branch(self.contains(args[0], o)):
                    return self.getitem(o, args[0])
                return args[1] if len(args) > 1 else None
            if n == "setdefault" and isinstance(args[0], str):
                if not self.branch(self.contains(args[0], o)):
                    self.setitem(o, args[0], args[1])
                return self.getitem(o, args[0])
        if isinstance(r, PObj) and r.cls == "Counter":
            if n == "items":
                return Fz(View(self.counted(r.f["segs"])))
            raise Unsupported("Counter." + n)
        if isinstance(r, PDict):
            if n in ("keys", "values", "items"):
                return Fz(View(self.dview(r, n)))
            if n == "get":
                if self.branch(self.contains(args[0], o)):
                    return self.dictget(r, args[0])
                return args[1] if len(args) > 1 else None
        if isinstance(r, SymMap):
            if n == "get":
                if self.branch(r.has(self.asV(args[0]))):
                    return r.get(self.asV(args[0]))
                return args[1] if len(args) > 1 else None
        if isinstance(r, PList):
            if n == "append" and r.kind == "list":
                self.setrec(o, PList(r.segs + (("one", args[0]),)))
                return None
            if n == "add" and r.kind == "set":
                self.hashable(args[0])
                self.setrec(o, PList(r.segs + (("one", args[0]),), "set"))
                return None
            if n in ("extend", "update"):
                self.loop(self.view(args[0]), lambda v: self.method(o, "append" if r.kind == "list" else "add", [v], {}))
                return None
            if n == "copy":
                return self.new(r)
            if n == "count" and r.kind == "list":
                return self.occurrences(r.segs, args[0])
            if n == "pop" and len(args) <= r.kind.count("list") or n == "popleft":
                return self.popped(o, r)
        raise Unsupported(f"method {n} of {type(r).__name__}")

    def single(self, segs):
        if len(segs) == 1 and segs[0][0] == "rep" and len(segs[0][3]) == 1 and (segs[0][3][0][0] is True or z3.is_true(segs[0][3][0][0])):
            return iv(segs[0][1]), segs[0][2], segs[0][3][0][1]
        raise Unsupported("values from several places")

    def distinct(self, segs):
        """number of different values"""
        if all(s[0] == "one" for s in segs):
            raise Unsupported("length of a set")
        n, k, x = self.single(segs)
        a, b = z3.Ints("ja!d jb!d")
        m = self.fresh("distinct")
        self.pc += [m >= 0, m <= n, (m > 0) == (n > 0), (m == n) == forall([a, b], z3.And(0 <= a, a < b, b < n), z3.Not(self.eqf(subst(x, k, a), subst(x, k, b))))]
        return m

    def occurrences(self, segs, v):
        n, k, x = self.single(segs)
        a, b = z3.Ints("ja!o jb!o")
        m = self.fresh("occurrences")
        at = lambda i: z3.And(0 <= i, i < n, self.eqf(subst(x, k, i), v))
        self.pc += [m >= 0, (m >= 1) == z3.Exists([a], at(a)), (m >= 2) == z3.Exists([a, b], z3.And(a < b, at(a), at(b)))]
        return SInt(m)

    def counted(self, segs):
        """distinct values with how often each occurs"""
        if len(segs) == 1 and segs[0][0] == "rep" and len(segs[0][3]) == 1 and (segs[0][3][0][0] is True or z3.is_true(segs[0][3][0][0])):
            _, n, k, alts = segs[0]
            x = alts[0][1]
            a, b = z3.Ints("ja!c jb!c")
            self.rep(segs[0], lambda v: self.hashable(v))
            more = z3.Exists([b], z3.And(b >= 0, b < iv(n), b != k, self.eqf(subst(x, k, b), x)))
            self.ctr += 1
            sig = [I] * (len(self.idx) + 1)
            c, fo, fi = z3.Function(f"counted!{self.ctr}", *sig, I), z3.Function(f"firstof!{self.ctr}", *sig, I), z3.Function(f"isfirst!{self.ctr}", *sig, B)
            ck, fk, first = c(*self.idx, k), fo(*self.idx, k), fi(*self.idx, k)
            j = z3.Int("j!c")
            q = lambda f: forall(j, z3.And(j >= 0, j < iv(n)), f(j))
            at = lambda e, i: subst(e, k, i)
            self.pc.append(q(lambda j: z3.And(at(ck, j) >= 1, (at(ck, j) > 1) == at(more, j))))
            # every value has a first place; what is counted is the value
            self.pc.append(q(lambda j: z3.And(0 <= at(fk, j), at(fk, j) <= j, at(first, at(fk, j)), self.eqf(subst(x, k, at(fk, j)), subst(x, k, j)), at(ck, at(fk, j)) == at(ck, j))))
            self.pc.append(q(lambda j: at(first, j) == z3.Not(z3.Exists([a], z3.And(a >= 0, a < j, self.eqf(subst(x, k, a), subst(x, k, j)))))))
            return [("rep", n, k, [(first, (x, SInt(ck)))])]
        raise Unsupported("Counter")

    def strmethod(self, o, n, args):
        args = [self.strong(a) for a in args]
        if isinstance(o, str) and all(isinstance(a, (str, int)) for a in args) and n in ("lower", "upper", "startswith", "endswith", "isspace", "strip", "split", "join"):
            v = getattr(o, n)(*args)
            return v if not isinstance(v, list) else self.new(PList([("one", x) for x in v]))
        if n == "lower" and isinstance(o, SStr):
            return SStr(slower(o.t))
        if n in ("startswith", "endswith") and isinstance(o, SStr) and len(args) == 1 and isinstance(args[0], str) and len(args[0]) == 1:
            return SBool(z3.And(slen(o.t) >= 1, sat(o.t, 0 if n == "startswith" else -1) == self.w.sc(args[0])))
        if n in ("join", "format"):
            return Opaque("text")
        if n == "isspace" and isinstance(o, SStr) and o.t.decl().name() == "schar":
            return SBool(z3.Function("isspace", Str, B)(o.t))
        if n == "startswith" and isinstance(o, SStr) and len(args) == 1 and isinstance(args[0], SStr):
            return SBool(z3.Function("isprefix", Str, Str, B)(o.t, args[0].t))
        raise Unsupported("str." + n)
