"""Contracts of beschi/protocol.py and the documented rules they are checked against."""
import ast, os, time
import z3
from .core import *
from .interp import Interp
from . import module
from spec import rules

REPO = os.environ.get("VERIF_REPO", "/repo")
WS = rules.WS
INTS = sorted(rules.INTS)
A, E_ = lambda js, f: forall(js, f.arg(0), f.arg(1)), z3.Exists
Cyc = z3.Function("cyclic", Str, B)
Imp, And, Or, Not = z3.Implies, z3.And, z3.Or, z3.Not


class Spec:
    """the documented rules over a document"""
    def __init__(self, w, D):
        self.w, self.D = w, D
        for c in WS:
            w.chars.add(c)
        self.n_ = {}

    def c(self, s):
        return self.w.sc(s)

    def n(self, kind):
        return z3.If(dhas(self.D, self.c(kind)), llen(V.l(dget(self.D, self.c(kind)))), 0)

    def el(self, kind, i):
        return V.d(lel(V.l(dget(self.D, self.c(kind))), i))

    def name(self, kind, i):
        return dget(self.el(kind, i), self.c("_name"))

    def pre(self):
        D, c = self.D, self.c
        i = z3.Int("i")
        out = [Imp(dhas(D, c("meta")), V.is_vdict(dget(D, c("meta"))))]
        for k in ("structs", "messages", "enums"):
            l = dget(D, c(k))
            out += [Imp(dhas(D, c(k)), V.is_vlist(l)), A([i], Imp(And(dhas(D, c(k)), 0 <= i, i < llen(V.l(l))), V.is_vdict(lel(V.l(l), i))))]
        return out

    def nows(self, s):
        return And(*[Not(scontains(s, self.c(x))) for x in WS])

    def among(self, s, ws):
        return Or(*[s == self.c(x) for x in ws])

    def each(self, kind, f, p="i"):
        i = z3.Int(p + "_" + kind)
        return A([i], Imp(And(0 <= i, i < self.n(kind)), f(i)))

    def listed(self, t):
        return And(slen(t) > 1, sat(t, 0) == self.c("["), sat(t, -1) == self.c("]"))

    def base(self, t):
        return z3.If(self.listed(t), ssub(t, 1, -1), t)

    def known(self, t):
        i = z3.Int("it")
        return Or(self.among(t, rules.BASE), *[E_([i], And(0 <= i, i < self.n(k), self.name(k, i) == V.vstr(t))) for k in ("structs", "enums")])

    def member(self, kind, i, j):
        """formulas of the rules of member j"""
        d = self.el(kind, i)
        k, v = dkey(d, j), dval(d, j)
        t = V.s(v)
        hid = And(slen(k) >= 1, sat(k, 0) == self.c("_"))
        L, b = self.listed(t), self.base(t)
        return hid, {
            "is not empty": k != self.c(""),
            "has no whitespace": self.nows(k),
            "is not reserved": Not(self.among(k, rules.RESERVED)),
            "type is a string": V.is_vstr(v),
            "is no list of lists": Imp(L, Not(And(slen(b) >= 1, sat(b, 0) == self.c("["), sat(b, -1) == self.c("]")))),
            "type is known": self.known(b)}

    def vals(self, i):
        return V.l(dget(self.el("enums", i), self.c("_values")))

    def enum_forms(self, l):
        a = z3.Int("ae")
        e = lel(l, a)
        inr = And(0 <= a, a < llen(l))
        d = V.d(e)
        N, X = self.c("_name"), self.c("_value")
        strs = A([a], Imp(inr, V.is_vstr(e)))
        dicts = A([a], Imp(inr, And(V.is_vdict(e), dhas(d, N), V.is_vstr(dget(d, N)), dhas(d, X), V.is_vint(dget(d, X)))))
        return strs, dicts

    def ename(self, l, a):
        e = lel(l, a)
        return z3.If(V.is_vstr(e), V.s(e), V.s(dget(V.d(e), self.c("_name"))))

    def evalue(self, l, a):
        e = lel(l, a)
        return z3.If(V.is_vstr(e), a, V.i(dget(V.d(e), self.c("_value"))))

    def enum_rules(self, l):
        """rules of a list of values by themselves"""
        a, b = z3.Ints("a_ b_")
        strs, dicts = self.enum_forms(l)
        two = And(0 <= a, a < b, b < llen(l))
        one = And(0 <= a, a < llen(l))
        return {"has values": llen(l) > 0,
                "values all names or all tables with name and number": Or(strs, dicts),
                "value names differ": A([a, b], Imp(two, self.ename(l, a) != self.ename(l, b))),
                "numbers fit the largest encoding": A([a], Imp(one, And(self.evalue(l, a) >= -2 ** 31, self.evalue(l, a) < 2 ** 31)))}

    def fits(self, l, lo, hi):
        a = z3.Int("af")
        return A([a], Imp(And(0 <= a, a < llen(l)), And(self.evalue(l, a) >= lo, self.evalue(l, a) <= hi)))

    def rules(self):
        D, c = self.D, self.c
        M = V.d(dget(D, c("meta")))
        R = {}
        hm = dhas(D, c("meta"))
        ns = dget(M, c("namespace"))
        R["namespace is a string without whitespace"] = Imp(And(hm, dhas(M, c("namespace"))), And(V.is_vstr(ns), self.nows(V.s(ns))))
        for k in ("list_size_type", "string_size_type"):
            v = dget(M, c(k))
            R[k + " is an integer type"] = Imp(And(hm, dhas(M, c(k))), And(V.is_vstr(v), self.among(V.s(v), INTS)))
        kinds = ("structs", "messages", "enums")
        for k in kinds:
            one = k[:-1]
            nm = lambda i, k=k: self.name(k, i)
            s = lambda i, k=k: V.s(self.name(k, i))
            R[f"{one} has a name"] = self.each(k, lambda i: And(dhas(self.el(k, i), c("_name")), V.is_vstr(nm(i))))
            R[f"{one} name is not empty"] = self.each(k, lambda i: s(i) != c(""))
            R[f"{one} name has no whitespace"] = self.each(k, lambda i: self.nows(s(i)))
            R[f"{one} name is not reserved"] = self.each(k, lambda i: Not(self.among(slower(s(i)), rules.RESERVED)))
            for k2 in kinds[:kinds.index(k) + 1]:
                i, j = z3.Ints("i_u j_u")
                rng = And(0 <= i, i < j, j < self.n(k)) if k == k2 else And(0 <= i, i < self.n(k2), 0 <= j, j < self.n(k))
                R[f"{one} name is no other {k2[:-1]}'s"] = A([i, j], Imp(rng, self.name(k2, i) != self.name(k, j)))
        for k in ("structs", "messages"):
            j = z3.Int("j_m")
            for w in self.member(k, z3.Int("i"), j)[1]:
                def f(i, w=w):
                    h, m = self.member(k, i, j)
                    return A([j], Imp(And(0 <= j, j < dlen(self.el(k, i)), Not(h)), m[w]))
                R[f"{k[:-1]} member {w}"] = self.each(k, f)
        R["enum _values is a list"] = self.each("enums", lambda i: And(dhas(self.el("enums", i), c("_values")), V.is_vlist(dget(self.el("enums", i), c("_values")))))
        for w in self.enum_rules(z3.Int("l")):
            R["enum " + w] = self.each("enums", lambda i: self.enum_rules(self.vals(i))[w])
        a, b = z3.Ints("a_n b_n")
        l = self.vals
        R["enum numbers differ"] = self.each("enums", lambda i: A([a, b], Imp(And(0 <= a, a < b, b < llen(l(i))), self.evalue(l(i), a) != self.evalue(l(i), b))))
        R["enum value name is not empty"] = self.each("enums", lambda i: A([a], Imp(And(0 <= a, a < llen(l(i))), self.ename(l(i), a) != c(""))))
        R["enum value name has no whitespace"] = self.each("enums", lambda i: A([a], Imp(And(0 <= a, a < llen(l(i))), self.nows(self.ename(l(i), a)))))
        for k in ("structs", "messages"):
            R[f"enum value name is no {k[:-1]}'s"] = self.each("enums", lambda i: A([a], Imp(And(0 <= a, a < llen(l(i))), self.each(k, lambda j: self.name(k, j) != V.vstr(self.ename(l(i), a)), "x"))))
        R["at most 255 messages"] = self.n("messages") <= 255
        R["no struct contains itself"] = self.each("structs", lambda i: Not(Cyc(V.s(self.name("structs", i)))))
        return R


class Job:
    """one function against its contract"""
    def __init__(self, name):
        self.name = name
        self.obls = []         # dict(label, status)
        self.unsupported = None
        self.time = 0
        self.paths = 0
        self.w = World()

    def decide(self, label, pc, goal, **kw):
        fs = list(pc) + [Not(goal)]
        many = sum(o["status"] == "unknown" for o in self.obls[-60:]) > 3     # enough is known by then
        r = self.w.check(fs, 200 if many else 1000)
        if r == "unknown" and not many:
            r = self.w.check(fs + self.w.touches(fs))
        st = "ok" if r == "unsat" else "fail" if r == "sat" else "unknown"
        self.obls.append(dict(label=label, status=st, pc=list(pc), goal=goal, **kw))
        return st

    def run(self):
        t = time.time()
        try:
            self.body()
        except Unsupported as e:
            self.unsupported = str(e)
        except z3.Z3Exception as e:
            self.unsupported = "engine: " + str(e)[:200]
        except (AttributeError, KeyError, IndexError, TypeError, AssertionError, RecursionError, ValueError) as e:
            import traceback
            self.unsupported = f"engine: {type(e).__name__}: {e} at " + traceback.format_exc().strip().splitlines()[-3].strip()
        self.time = time.time() - t
        return self

    def interp(self, contracts=None, natives=()):
        it = Interp(self.w, contracts)
        self.it, it.job = it, self
        it.env0 = module.load(it, os.path.join(REPO, "beschi", "protocol.py"), natives)
        return it

    def method(self, it, cls, name):
        c = it.heap[it.env0].d.get(cls)
        m = c.method(name) if isinstance(c, Cls) else None
        if m is None:
            raise Unsupported(f"no {cls}.{name}")
        return c, m


def enum_contract(spec):
    """Enum(name, values): refuses exactly the lists that break a rule, otherwise maps names to numbers in order"""
    def f(it, cls, args, kw):
        if len(args) != 2 or kw:
            raise Unsupported("Enum arguments")
        nm, vs = args
        if not isinstance(vs, SV):
            raise Unsupported("Enum values")
        if not it.branch(V.is_vlist(vs.t)):
            raise Unsupported("Enum of something that may not be a list")
        l = V.l(vs.t)
        ok = And(*spec.enum_rules(l).values())
        if it.choose(2):
            it.pc.append(Not(ok))
            raise PyRaise(ValueError)
        it.pc.append(ok)
        k = it.bvar()
        enc = it.fresh("encoding", Str)
        it.pc += encoding_facts(spec, l, enc)
        return it.new(PObj(cls, {"name": nm, "values": Fz(PDict([("rep", llen(l), k, [(True, SStr(spec.ename(l, k)), SInt(spec.evalue(l, k)))])])), "encoding": SStr(enc)}))
    return f


def encoding_facts(spec, l, enc):
    b, s = spec.fits(l, 0, 255), spec.fits(l, -32768, 32767)
    return [Imp(b, enc == spec.c("byte")), Imp(And(Not(b), s), enc == spec.c("int16")), Imp(And(Not(b), Not(s)), enc == spec.c("int32"))]


class EnumJob(Job):
    def __init__(self):
        super().__init__("Enum.__init__")

    def body(self):
        it = self.interp()
        cls, m = self.method(it, "Enum", "__init__")
        spec = Spec(self.w, z3.Int("D"))
        l = z3.Int("values")
        slf = it.new(PObj(cls, {}))
        nm = SStr(z3.Const("enum_name", Str))
        vs = SV(V.vlist(l))
        R = spec.enum_rules(l)
        outs = it.explore(lambda: it.callfn(Func(m, cls.env, slf, cls), [nm, vs], {}))
        self.paths = it.npaths
        fits = R
        for o in outs:
            if o.kind == "raise":
                self.decide("enum: refuses only what breaks a rule", o.pc + list(R.values()), z3.BoolVal(False), line=getattr(o.v.node, "lineno", None))
                continue
            if o.kind != "norm":
                raise Unsupported(o.kind)
            for w, r in R.items():
                self.decide("enum: accepted: " + w, o.pc, r)
            it.restore(o.s)
            f = it.heap[slf.i].f
            self.decide("enum: keeps its name", o.pc, it.eqf(f["name"], nm))
            vals = it.rec(f["values"])
            self.entries(it, spec, l, vals, o.pc)
            for e in encoding_facts(spec, l, it.st(f["encoding"])):
                self.decide("enum: smallest encoding", o.pc, e)
            # its default is the first listed
            c2, g = self.method(it, "Enum", "get_default_pair")
            for p in it.explore(lambda: it.callfn(Func(g, c2.env, slf, c2), [], {})):
                if p.kind != "norm" or not isinstance(p.v, tuple) or len(p.v) != 2:
                    self.decide("enum: has a default", p.pc, z3.BoolVal(False))
                    continue
                it.restore(p.s)
                self.decide("enum: default is the first", p.pc, And(it.eqf(p.v[0], SStr(spec.ename(l, z3.IntVal(0)))), it.eqf(p.v[1], SInt(spec.evalue(l, z3.IntVal(0))))))

    def entries(self, it, spec, l, vals, pc):
        if not isinstance(vals, PDict) or len(vals.segs) != 1 or vals.segs[0][0] != "rep":
            raise Unsupported("values are not filled by one loop")
        _, n, k, alts = vals.segs[0]
        self.decide("enum: one entry per value", pc, iv(n) == llen(l))
        j = z3.Int("jx")
        pc = pc + [0 <= j, j < llen(l)]
        gs = [z3.BoolVal(True) if a[0] is True else subst(a[0], k, j) for a in alts]
        self.decide("enum: every value has its entry", pc, disj(gs))
        for g, a in zip(gs, alts):
            key, v = subst(a[1], k, j), subst(a[2], k, j)
            self.decide("enum: entry names", pc + [g], it.eqf(key, SStr(spec.ename(l, j))))
            self.decide("enum: entry numbers", pc + [g], it.eqf(v, SInt(spec.evalue(l, j))))


class DocJob(Job):
    """Protocol(file): accepted exactly when the document follows the rules, represented as written"""
    def __init__(self, have=None):
        super().__init__("Protocol.__init__")
        self.have = have

    def body(self):
        D = z3.Int("D")
        spec = self.spec = Spec(self.w, D)
        self.seen = {}

        def loads(it, args, kw):
            return it.new(PDoc(D, {}))

        def op(it, args, kw):
            return Opaque("file")
        it = self.interp({"check_for_cycles": cycle_contract, "Protocol.check_for_cycles": cycle_contract, "Enum": enum_contract(spec)}, {"tomllib": Opaque("tomllib")})
        it.heap[it.env0] = Env({**it.heap[it.env0].d, "open": Native(op, "open")}, None)
        old = it.attr

        def attr(o, n):
            if isinstance(o, Opaque) and o.what == "tomllib" and n in ("loads", "load"):
                return Native(loads, n)
            if isinstance(o, Opaque) and o.what == "file" and n == "read":
                return Native(lambda it, a, k: Opaque("text"), n)
            return old(o, n)
        it.attr = attr
        cls, m = self.method(it, "Protocol", "__init__")
        slf = it.new(PObj(cls, {}))
        it.ghost_self = lambda: slf
        it.pc += spec.pre()
        for k, h in (self.have or {}).items():
            it.pc.append(dhas(D, spec.c(k)) if h else Not(dhas(D, spec.c(k))))
        R = spec.rules()
        outs = it.explore(lambda: it.callfn(Func(m, cls.env, slf, cls), ["file"], {}))
        self.paths = it.npaths
        for o in outs:
            if o.kind == "raise":
                self.decide("document: refuses only what breaks a rule", o.pc + list(R.values()), z3.BoolVal(False), line=getattr(o.v.node, "lineno", None), exc=o.v.cls.__name__)
                continue
            if o.kind != "norm":
                raise Unsupported(o.kind)
            for w, r in R.items():
                self.decide("document accepted: " + w, o.pc, r)
            it.restore(o.s)
            self.shape(it, spec, it.heap[slf.i].f, o.pc)

    def allstructs(self, it):
        r = it.rec(it.attr(it.ghost_self(), "structs"))
        n = None
        if isinstance(r, PDict):
            n = z3.IntVal(0) if not r.segs else iv(r.segs[0][1]) if len(r.segs) == 1 and r.segs[0][0] == "rep" else None
        key = None if n is None else n.get_id()
        if key in self.seen:
            return
        self.seen[key] = n
        self.decide("document: the search for cycles knows all structs", it.pc, z3.BoolVal(False) if n is None else n == self.spec.n("structs"))

    def shape(self, it, spec, f, pc):
        D, c = spec.D, spec.c
        M = V.d(dget(D, c("meta")))
        hm = dhas(D, c("meta"))
        for a, key, dflt in (("namespace", "namespace", None), ("list_size_type",) * 2 + ("uint32",), ("string_size_type",) * 2 + ("uint32",)):
            h = And(hm, dhas(M, c(key)))
            self.decide(f"document: {key} as written", pc, And(Imp(h, it.eqf(f[a], SV(dget(M, c(key))))), Imp(Not(h), it.eqf(f[a], dflt))))
        for kind in ("structs", "messages", "enums"):
            r = it.rec(f[kind])
            if not isinstance(r, PDict) or any(s[0] != "rep" for s in r.segs) or len(r.segs) > 1:
                raise Unsupported(kind + " are not filled by one loop")
            if not r.segs:
                self.decide(f"document: {kind} as written", pc, spec.n(kind) == 0)
                continue
            _, n, k, alts = r.segs[0]
            self.decide(f"document: number of {kind}", pc, iv(n) == spec.n(kind))
            i = z3.Int("ix")
            p2 = pc + [0 <= i, i < spec.n(kind)]
            gs = [z3.BoolVal(True) if a[0] is True else subst(a[0], k, i) for a in alts]
            self.decide(f"document: {kind} in order", p2, disj(gs))
            for g, a in zip(gs, alts):
                p3 = p2 + [g]
                key, v = subst(a[1], k, i), it.rec(subst(a[2], k, i))
                self.decide(f"document: {kind} by name", p3, And(it.eqf(key, SV(spec.name(kind, i))), it.eqf(v.f["name"], SV(spec.name(kind, i)))))
                if kind == "enums":
                    continue      # the contract of Enum
                self.decide(f"document: {kind} are such", p3, it.eqf(v.f["is_message"], kind == "messages"))
                ms = it.rec(v.f["members"])
                if not isinstance(ms, PList) or len(ms.segs) != 1 or ms.segs[0][0] != "rep":
                    raise Unsupported("members are not filled by one loop")
                _, n2, k2, al2 = ms.segs[0]
                d = spec.el(kind, i)
                self.decide(f"document: {kind}: number of members", p3, iv(n2) == dlen(d))
                j = z3.Int("jx")
                p4 = p3 + [0 <= j, j < dlen(d)]
                hid, _ = spec.member(kind, i, j)
                g2 = [z3.BoolVal(True) if x[0] is True else subst(x[0], k2, j) for x in al2]
                self.decide(f"document: {kind}: members in order", p4, disj(g2) == Not(hid))
                t = V.s(dval(d, j))
                for x, y in [(x, y) for x in range(len(g2)) for y in range(x)]:
                    self.decide(f"document: {kind}: members once", p4, Not(And(g2[x], g2[y])))
                for gg, x in zip(g2, al2):
                    mv = it.rec(subst(x[1], k2, j))
                    p5 = p4 + [gg]
                    self.decide(f"document: {kind}: member as written", p5, And(it.eqf(mv.f["name"], SStr(dkey(d, j))), it.eqf(mv.f["vartype"], SStr(spec.base(t))), it.bt(mv.f["is_list"]) == spec.listed(t) if isinstance(mv.f["is_list"], (bool, SBool)) else z3.BoolVal(False)))


def cycle_contract(it, f, args, kw):
    """check_for_cycles(s), once all structs are known: refuses exactly the structs that contain themselves; messages never do"""
    s = args[-1]
    it.job.allstructs(it)
    r = it.rec(s)
    if not isinstance(r, PObj) or "name" not in r.f:
        raise Unsupported("check_for_cycles of something else")
    nm = it.asV(r.f["name"])
    if not it.branch(it.contains(r.f["name"], it.attr(it.ghost_self(), "structs"))):
        return None
    if it.branch(Cyc(V.s(nm))):
        raise PyRaise(RecursionError)
    return None


# ---- reachability between structs
mlen = z3.Function("mlen", Str, I)               # number of members
mtype = z3.Function("mtype", Str, I, Str)        # their types
mlist = z3.Function("mlist", Str, I, B)
mname = z3.Function("mname", Str, I, Str)
isstruct = z3.Function("isstruct", Str, B)
Edge = z3.Function("holds", Str, Str, B)         # has a member of that struct
edgeat = z3.Function("holdsat", Str, Str, I)
Reach = z3.Function("reaches", Str, Str, B)


def struct_world(w):
    x, y, z = z3.Consts("x y z", Str)
    j = z3.Int("j")
    w.extra += [
        z3.ForAll([x], mlen(x) >= 0, patterns=[mlen(x)]),
        z3.ForAll([x, j], Imp(And(0 <= j, j < mlen(x), isstruct(mtype(x, j))), Edge(x, mtype(x, j))), patterns=[mtype(x, j)]),
        z3.ForAll([x, y], Imp(Edge(x, y), And(0 <= edgeat(x, y), edgeat(x, y) < mlen(x), mtype(x, edgeat(x, y)) == y, isstruct(y))), patterns=[Edge(x, y)]),
        z3.ForAll([x, y], Imp(Edge(x, y), Reach(x, y)), patterns=[Edge(x, y)]),
        z3.ForAll([x, y, z], Imp(And(Reach(x, y), Edge(y, z)), Reach(x, z)), patterns=[z3.MultiPattern(Reach(x, y), Edge(y, z))])]


def struct_rec(it, scls, vcls, nm, proto):
    k = it.bvar()
    var = Fz(PObj(vcls, {"protocol": proto, "name": SStr(mname(nm, k)), "vartype": SStr(mtype(nm, k)), "is_list": SBool(mlist(nm, k))}))
    return PObj(scls, {"name": SStr(nm), "members": Fz(PList([("rep", mlen(nm), k, [(True, var)])])), "is_message": SBool(Not(isstruct(nm)))})


def struct_map(it, scls, vcls, proto):
    return Fz(SymMap(lambda v: And(V.is_vstr(v), isstruct(V.s(v))), lambda v: Fz(struct_rec(it, scls, vcls, V.s(v), proto))))


class CycleJob(Job):
    """check_for_cycles(s): refuses exactly what reaches itself through the types of its members, and ends"""
    def __init__(self):
        super().__init__("check_for_cycles")

    def body(self):
        it = self.interp()
        struct_world(self.w)
        top = it.heap[it.env0].d
        P, S, VR = (top.get(n) for n in ("Protocol", "Struct", "Variable"))
        if not all(isinstance(c, Cls) for c in (P, S, VR)):
            raise Unsupported("classes")
        nested = [n for n in ast.walk(P.node) if isinstance(n, ast.FunctionDef)]
        f = [n for n in nested if n.name == "check_for_cycles"]
        if len(f) != 1:
            raise Unsupported("no check_for_cycles")
        f = f[0]
        slf = Ref("self")
        smap = struct_map(it, S, VR, slf)
        it.heap["self"] = PObj(P, {"structs": smap, "enums": Fz(SymMap(lambda v: z3.Function("isenum", V, B)(v), None)), "messages": Fz(SymMap(lambda v: z3.Function("ismessage", V, B)(v), None))})
        nm = z3.Const("s_name", Str)
        s = Fz(struct_rec(it, S, VR, nm, slf))
        method = f in P.node.body
        if method:
            fn = Func(f, it.env0, slf, P)
        else:
            env = it.new(Env({"self": slf}, it.env0)).i
            init = [n for n in P.node.body if isinstance(n, ast.FunctionDef) and f in list(ast.walk(n))][0]
            it.heap[env] = Env({**it.heap[env].d, **{n.name: Func(n, env) for n in init.body if isinstance(n, ast.FunctionDef)}}, it.env0)
            fn = Func(f, env)
        it.finite = lambda v: And(V.is_vstr(v), isstruct(V.s(v)))
        it.candidates = lambda it, mod, entry: self.cands(it, mod, entry, nm)
        it.oblige = lambda label, pc, goal: self.decide("cycles: " + label, pc, goal)
        outs = it.explore(lambda: it.callfn(fn, [s], {}))
        self.paths = it.npaths
        for o in outs:
            if o.kind == "raise":
                self.decide("cycles: refuses only what contains itself", o.pc, Reach(nm, nm), line=getattr(o.v.node, "lineno", None))
                continue
            if o.kind != "norm":
                raise Unsupported(o.kind)
            it.restore(o.s)
            self.decide("cycles: accepted: does not contain itself", o.pc + self.least(it, nm), Not(Reach(nm, nm)))

    def sets(self, it):
        return [Ref(i) for i, r in it.heap.items() if isinstance(r, PList) and any(s[0] == "set" for s in r.segs)]

    def least(self, it, nm):
        """what is reached is in every collection that holds the first step and is closed: instances for what there is"""
        x, y = z3.Consts("xl yl", Str)
        out = []
        cs = self.sets(it)
        for c in cs:
            m = lambda t, c=c: it.among(V.vstr(t), c)
            out.append(Imp(And(z3.ForAll([y], Imp(Edge(nm, y), m(y)), patterns=[Edge(nm, y)]),
                               z3.ForAll([x, y], Imp(And(m(x), Edge(x, y)), m(y)), patterns=[Edge(x, y)])),
                           z3.ForAll([y], Imp(Reach(nm, y), m(y)), patterns=[Reach(nm, y)])))
        # nothing reached when there is no first step
        out.append(Imp(z3.ForAll([y], Not(Edge(nm, y)), patterns=[Edge(nm, y)]), Not(Reach(nm, nm))))
        return out

    def cands(self, it, mod, entry, nm):
        x, y = z3.Consts("xc yc", Str)
        v = z3.Const("vc", V)
        cs = [Ref(i) for i, f in sorted(mod, key=str) if f is None]
        out = []

        def add(label, f):
            f.label = label
            out.append(f)
        mem = lambda it, c, t: it.among(V.vstr(t), c)
        for c in cs:
            add("names", lambda it, c=c: z3.ForAll([v], Imp(it.among(v, c), And(V.is_vstr(v), isstruct(V.s(v))))))
            add("reached", lambda it, c=c: z3.ForAll([v], Imp(it.among(v, c), Reach(nm, V.s(v)))))
            add("not itself", lambda it, c=c: Not(mem(it, c, nm)))
        groups = [[c] for c in cs] + ([cs] if len(cs) > 1 else [])
        for g in groups:
            inn = lambda it, t, g=g: Or(*[mem(it, c, t) for c in g])
            add("first step", lambda it, inn=inn: z3.ForAll([y], Imp(Edge(nm, y), inn(it, y)), patterns=[Edge(nm, y)]))
            for c in cs:
                add("closed", lambda it, c=c, inn=inn: z3.ForAll([x, y], Imp(And(mem(it, c, x), Edge(x, y)), inn(it, y)), patterns=[Edge(x, y)]))
        return out


# ---- fixed sizes
isenum = z3.Function("isenum", Str, B)
ismsg = z3.Function("ismessage", Str, B)
encof = z3.Function("encodingof", Str, Str)
TFixed = z3.Function("fixed", Str, B)            # no value of the type varies in length
SFixed = z3.Function("allfixed", Str, B)         # of a struct or message: all members
unfixed = z3.Function("unfixedat", Str, I)
TSize = z3.Function("sizeof", Str, I)
rank = z3.Function("rank", Str, I)
SIZES = {"byte": 1, "bool": 1, "uint16": 2, "int16": 2, "uint32": 4, "int32": 4, "uint64": 8, "int64": 8, "float": 4, "double": 8}


def size_world(w):
    """a protocol that was accepted, and the documented sizes"""
    struct_world(w)
    x, y = z3.Consts("x y", Str)
    j = z3.Int("j")
    base = [w.sc(b) for b in list(SIZES) + ["string"]]
    mok = And(Not(mlist(x, j)), TFixed(mtype(x, j)))
    w.extra += [
        z3.ForAll([x], And(Imp(isstruct(x), Not(ismsg(x))), Imp(isenum(x), Not(Or(isstruct(x), ismsg(x)))), Imp(Or(isstruct(x), ismsg(x), isenum(x)), And(*[x != b for b in base]))), patterns=[isstruct(x), ismsg(x), isenum(x)]),
        z3.ForAll([x, j], Imp(And(0 <= j, j < mlen(x)), Or(isstruct(mtype(x, j)), isenum(mtype(x, j)), *[mtype(x, j) == b for b in base])), patterns=[mtype(x, j)]),
        z3.ForAll([x], Imp(isenum(x), And(TFixed(x), Or(*[And(encof(x) == w.sc(e), TSize(x) == SIZES[e]) for e in ("byte", "int16", "int32")]))), patterns=[isenum(x)]),
        z3.ForAll([x], Imp(Or(isstruct(x), ismsg(x)), TFixed(x) == SFixed(x)), patterns=[TFixed(x), SFixed(x)]),
        z3.ForAll([x, j], Imp(And(SFixed(x), 0 <= j, j < mlen(x)), mok), patterns=[z3.MultiPattern(SFixed(x), mtype(x, j))]),
        z3.ForAll([x], Or(SFixed(x), And(0 <= unfixed(x), unfixed(x) < mlen(x), Not(z3.substitute(mok, (j, unfixed(x)))))), patterns=[SFixed(x)]),
        z3.ForAll([x], z3.If(Or(isstruct(x), ismsg(x)), rank(x) >= 1, rank(x) == 0), patterns=[rank(x)]),
        z3.ForAll([x, y], Imp(Edge(x, y), rank(y) < rank(x)), patterns=[Edge(x, y)])]
    for b, n in SIZES.items():
        w.extra += [TFixed(w.sc(b)), TSize(w.sc(b)) == n]
    w.extra.append(Not(TFixed(w.sc("string"))))


class SizeJob(Job):
    """is_simple and get_size_of against: fixed exactly without strings and lists at any depth; the size is the sum of the parts"""
    def __init__(self, which):
        super().__init__(which)
        self.which = which

    def body(self):
        it = self.interp()
        size_world(self.w)
        top = it.heap[it.env0].d
        P, S, VR, E = (top.get(n) for n in ("Protocol", "Struct", "Variable", "Enum"))
        if not all(isinstance(c, Cls) for c in (P, S, VR, E)):
            raise Unsupported("classes")
        slf = Ref("self")
        by = lambda p, f: Fz(SymMap(lambda v: And(V.is_vstr(v), p(V.s(v))), lambda v: Fz(f(V.s(v)))))
        st = lambda x: struct_rec(it, S, VR, x, slf)
        it.heap["self"] = PObj(P, {"structs": by(isstruct, st), "messages": by(ismsg, st), "enums": by(isenum, lambda x: PObj(E, {"name": SStr(x), "encoding": SStr(encof(x))}))})
        self.measure = None

        def smaller(it, m):
            if self.measure is not None and it.callstack:
                self.decide("sizes: the recursion ends", it.pc, And(m >= 0, m < self.measure))

        def var_simple(it, f, args, kw):
            r = it.rec(f.self_)
            listed = (list(args) + [kw.get("listed", False)])[0]
            t = it.st(r.f["vartype"])
            smaller(it, 2 * rank(t) + 1)
            return SBool(And(Or(Not(it.bt(r.f["is_list"])), it.bt(listed)), TFixed(t)))

        def struct_simple(it, f, args, kw):
            x = it.st(it.rec(f.self_).f["name"])
            smaller(it, 2 * rank(x))
            return SBool(SFixed(x))

        def size_of(it, f, args, kw):
            v = (list(args) + [kw.get("var_type")])[0]
            t = it.st(it.strong(v))
            smaller(it, rank(t))
            if it.branch(TFixed(t)):
                return SInt(TSize(t))
            raise PyRaise(NotImplementedError)
        it.contracts.update({"Variable.is_simple": var_simple, "Struct.is_simple": struct_simple, "Protocol.get_size_of": size_of})
        cn, fn = self.which.split(".")
        cls, m = self.method(it, cn, fn)
        x = z3.Const("x", Str)
        j = z3.Int("jm")
        runs = []
        if self.which == "Variable.is_simple":
            it.pc += [Or(isstruct(x), isenum(x), *[x == self.w.sc(b) for b in list(SIZES) + ["string"]])]
            lst = z3.Const("is_list", B)
            o = Fz(PObj(VR, {"protocol": slf, "name": SStr(z3.Const("var_name", Str)), "vartype": SStr(x), "is_list": SBool(lst)}))
            self.measure = 2 * rank(x) + 1
            a = z3.Const("listed", B)
            runs = [(o, [], And(Not(lst), TFixed(x))), (o, [SBool(a)], And(Or(Not(lst), a), TFixed(x)))]
        elif self.which == "Struct.is_simple":
            it.pc += [Or(isstruct(x), ismsg(x))]
            self.measure = 2 * rank(x)
            runs = [(Fz(st(x)), [], SFixed(x))]
        else:
            it.pc += [Or(isstruct(x), ismsg(x), isenum(x), *[x == self.w.sc(b) for b in list(SIZES) + ["string"]])]
            self.measure = rank(x)
            runs = [(slf, [SStr(x)], None)]
            k = z3.Int("k!size")
            total = self.w.sum(TSize(mtype(x, k)), k, mlen(x))
            it.pc.append(Imp(Or(isstruct(x), ismsg(x)), TSize(x) == total))
        for o, args, want in runs:
            for r in it.explore(lambda: it.callbody(Func(m, cls.env, o, cls), args, {})):
                if r.kind == "raise":
                    self.decide(f"sizes: {self.which}: refuses only what has no fixed size", r.pc, Not(TFixed(x)) if want is None else z3.BoolVal(False), line=getattr(r.v.node, "lineno", None))
                    continue
                it.restore(r.s)
                if want is None:
                    if not isinstance(r.v, (int, SInt)):
                        raise Unsupported("size")
                    self.decide("sizes: claimed only where fixed", r.pc, TFixed(x))
                    self.decide("sizes: the sum of the parts", r.pc, it.it(r.v) == TSize(x))
                else:
                    self.decide(f"sizes: {self.which}: exactly what has no strings and lists", r.pc, it.truth_formula(r.v) == want if isinstance(r.v, (SBool, SV)) else want if r.v is True else Not(want) if r.v is False else z3.BoolVal(False))
        self.paths = it.npaths
