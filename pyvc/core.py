"""Symbolic execution of the Python of /repo (its own syntax tree, parsed on every run) against contracts.

Values are Python values, terms of the solver, or records in a heap.  Loops over collections of unknown length are
summarised: one iteration at an arbitrary index k from the state after k iterations, whose form is found by iterating
to a fixpoint (lists and dicts grow by a template, numbers by a sum); the fixpoint is the loop's invariant."""
import ast, builtins, string, collections
import z3

Str = z3.DeclareSort("Str")
_V = z3.Datatype("V")
_V.declare("vstr", ("s", Str))
_V.declare("vint", ("i", z3.IntSort()))
_V.declare("vbool", ("b", z3.BoolSort()))
_V.declare("vlist", ("l", z3.IntSort()))
_V.declare("vdict", ("d", z3.IntSort()))
_V.declare("vother", ("o", z3.IntSort()))
_V.declare("vnone")
V = _V.create()
I, B = z3.IntSort(), z3.BoolSort()
slen = z3.Function("slen", Str, I)
sat = z3.Function("sat", Str, I, Str)
ssub = z3.Function("ssub", Str, I, I, Str)
slower = z3.Function("slower", Str, Str)
scontains = z3.Function("scontains", Str, Str, B)
llen = z3.Function("llen", I, I)
lel = z3.Function("lel", I, I, V)
dlen = z3.Function("dlen", I, I)
dkey = z3.Function("dkey", I, I, Str)
dval = z3.Function("dval", I, I, V)
dhas = z3.Function("dhas", I, Str, B)
dget = z3.Function("dget", I, Str, V)
didx = z3.Function("didx", I, Str, I)
peq = z3.Function("peq", V, V, B)
touch = z3.Function("touch", V, B)


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


class NoJoin(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, cls, v=None, node=None):
        self.cls, self.v, self.node = cls, v, node


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


# ---- values
class SInt:
    def __init__(self, t):
        self.t = t


class SBool:
    def __init__(self, t):
        self.t = t


class SStr:
    def __init__(self, t):
        self.t = t


class SV:
    def __init__(self, t):
        self.t = t


class Opaque:
    """a value nothing looks into"""
    def __init__(self, what=""):
        self.what = what


class Ref:
    def __init__(self, i):
        self.i = i


class Fz:
    """record that is never changed"""
    def __init__(self, r):
        self.r = r


class PList:
    """segs: ("one", v) | ("rep", n, k, [(guard, v)]) | ("set", fn, n): the values fn holds for, n of them"""
    kind = "list"

    def __init__(self, segs, kind="list"):
        self.segs, self.kind = tuple(segs), kind


class PDict:
    """segs: ("one", key, v) | ("rep", n, k, [(guard, key, v)])"""
    def __init__(self, segs):
        self.segs = tuple(segs)


class PDoc:
    """the document at its top level, with what the code has added"""
    def __init__(self, d, over):
        self.d, self.over = d, over


class PObj:
    def __init__(self, cls, f):
        self.cls, self.f = cls, f


class Env:
    def __init__(self, d, parent):
        self.d, self.parent = d, parent


class SymMap:
    """a dict given from outside: has(key term) -> formula, get(key term) -> value"""
    def __init__(self, has, get, n=None, key=None):
        self.has, self.get, self.n, self.key = has, get, n, key


class Func:
    def __init__(self, node, env, self_=None, cls=None):
        self.node, self.env, self.self_, self.cls = node, env, self_, cls


class Cls:
    def __init__(self, name, node, env):
        self.name, self.node, self.env = name, node, env

    def method(self, n):
        for d in self.node.body:
            if isinstance(d, (ast.FunctionDef,)) and d.name == n:
                return d
        return None


class Bound:
    """method of a built-in value"""
    def __init__(self, v, name):
        self.v, self.name = v, name


class Native:
    def __init__(self, f, name=""):
        self.f, self.name = f, name


class View:
    """what iterating gives: segments of values"""
    def __init__(self, segs):
        self.segs = tuple(segs)


class Undef:
    pass


UNDEF = Undef()


def conj(cs):
    cs = [c for c in cs if not z3.is_true(c)]
    return z3.BoolVal(True) if not cs else cs[0] if len(cs) == 1 else z3.And(*cs)


def disj(cs):
    cs = [c for c in cs if not z3.is_false(c)]
    if any(z3.is_true(c) for c in cs):
        return z3.BoolVal(True)
    return z3.BoolVal(False) if not cs else cs[0] if len(cs) == 1 else z3.Or(*cs)


def neg(c):
    return z3.BoolVal(False) if z3.is_true(c) else z3.BoolVal(True) if z3.is_false(c) else c.arg(0) if z3.is_not(c) else z3.Not(c)


def iv(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def subst(v, k, t):
    """v with k replaced by t"""
    if isinstance(v, z3.ExprRef):
        return z3.substitute(v, (k, iv(t)))
    if isinstance(v, (SInt, SBool, SStr, SV)):
        return type(v)(subst(v.t, k, t)) if isinstance(v.t, z3.ExprRef) else v
    if isinstance(v, Fz):
        return Fz(subst(v.r, k, t))
    if isinstance(v, PObj):
        return PObj(v.cls, {n: subst(x, k, t) for n, x in v.f.items()})
    if isinstance(v, PList):
        return PList([subst(s, k, t) for s in v.segs], v.kind)
    if isinstance(v, PDict):
        return PDict([subst(s, k, t) for s in v.segs])
    if isinstance(v, View):
        return View([subst(s, k, t) for s in v.segs])
    if isinstance(v, tuple):
        return tuple(subst(x, k, t) for x in v)
    if isinstance(v, list):
        return [subst(x, k, t) for x in v]
    if isinstance(v, Func) and v.self_ is not None:
        return Func(v.node, v.env, subst(v.self_, k, t), v.cls)
    return v


def same(a, b):
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, (SInt, SBool, SStr, SV)):
        return same(a.t, b.t)
    if isinstance(a, Fz):
        return same(a.r, b.r)
    if isinstance(a, Ref):
        return a.i == b.i
    if isinstance(a, PObj):
        return a.cls is b.cls and a.f.keys() == b.f.keys() and all(same(a.f[n], b.f[n]) for n in a.f)
    if isinstance(a, (PList, PDict, View)):
        return same(a.segs, b.segs)
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, str, bool, type(None), float)):
        return a == b
    if isinstance(a, z3.FuncDeclRef):
        return a.eq(b)
    if isinstance(a, Opaque):
        return a.what == b.what
    if isinstance(a, Func):
        return a.node is b.node and a.env == b.env and a.cls is b.cls and (a.self_ is b.self_ or same(a.self_, b.self_))
    return False


def refs(v):
    if isinstance(v, Ref):
        return [v.i]
    if isinstance(v, Env):
        return [x for y in v.d.values() for x in refs(y)] + ([v.parent] if v.parent else [])
    if isinstance(v, PObj):
        return [x for y in v.f.values() for x in refs(y)]
    if isinstance(v, (PList, PDict, View)):
        return refs(v.segs)
    if isinstance(v, (tuple, list)):
        return [x for y in v for x in refs(y)]
    if isinstance(v, Func):
        return ([v.env] if isinstance(v.env, str) else []) + refs(v.self_)
    if isinstance(v, Fz):
        return refs(v.r)
    if isinstance(v, Bound):
        return refs(v.v)
    return []


class Out:
    pass


def forall(js, cond, body):
    """for all js with cond: body; instantiated at every term the body has about js"""
    js = list(js) if isinstance(js, (list, tuple)) else [js]
    f = z3.Implies(cond, body)
    pats, todo, seen = [[] for _ in js], [body], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_var(x):
            continue
        todo += x.children()
        if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not hasvar(x):
            for i, j in enumerate(js):
                if any(c.eq(j) for c in x.children()):
                    pats[i].append(x)
    if not all(pats):
        return z3.ForAll(js, f)
    if len(js) == 1:
        return z3.ForAll(js, f, patterns=pats[0])
    if len(js) == 2:
        ps = [z3.MultiPattern(x, y) for x in pats[0][:3] for y in pats[1][:3]]
        return z3.ForAll(js, f, patterns=ps)
    return z3.ForAll(js, f)


def hasvar(e):
    return z3.is_var(e) or any(hasvar(c) for c in (e.children() if not z3.is_quantifier(e) else [e.body()]))


class World:
    """string constants, axioms, the solver"""
    def __init__(self, timeout=4000):
        self.consts = {}
        self.chars = set()
        self.timeout = timeout
        self.queries = 0
        self.time = 0.0
        self.extra = []          # axioms added by specifications
        self.sums = {}

    def sc(self, s):
        if s not in self.consts:
            self.consts[s] = z3.Const("str:" + s, Str)
        return self.consts[s]

    def axioms(self):
        key = len(self.consts), len(self.chars), len(self.extra)
        if getattr(self, "axkey", None) != key:
            ax = self.axioms_()
            self.axkey = len(self.consts), len(self.chars), len(self.extra)
            self.axall = z3.And(*ax)
            self.axground = z3.And(*[a for a in ax if not z3.is_quantifier(a)])
        return self.axall, self.axground

    def axioms_(self):
        s, t = z3.Const("s", Str), z3.Const("t", Str)
        d, i, j = z3.Ints("d i j")
        a, b = z3.Const("a", V), z3.Const("b", V)
        eps = self.sc("")
        ax = [z3.ForAll([s], z3.And(slen(s) >= 0, (slen(s) == 0) == (s == eps)), patterns=[slen(s)]),
              z3.ForAll([d], llen(d) >= 0, patterns=[llen(d)]), z3.ForAll([d], dlen(d) >= 0, patterns=[dlen(d)]),
              z3.ForAll([d, s], z3.Implies(dhas(d, s), z3.And(0 <= didx(d, s), didx(d, s) < dlen(d), dkey(d, didx(d, s)) == s, dget(d, s) == dval(d, didx(d, s)))), patterns=[dhas(d, s)]),
              z3.ForAll([d, i], z3.Implies(z3.And(0 <= i, i < dlen(d)), z3.And(dhas(d, dkey(d, i)), didx(d, dkey(d, i)) == i)), patterns=[dkey(d, i)])]
        ax.append(z3.ForAll([s], z3.Implies(slen(s) >= 2, slen(ssub(s, 1, -1)) == slen(s) - 2), patterns=[ssub(s, 1, -1)]))
        ax.append(z3.ForAll([s], z3.Implies(slen(s) < 2, ssub(s, 1, -1) == eps), patterns=[ssub(s, 1, -1)]))
        ax.append(z3.ForAll([s], z3.Implies(slen(s) == 1, sat(s, 0) == sat(s, -1)), patterns=[sat(s, -1)]))
        cs = list(self.consts.items())
        for c in list(self.chars):
            self.sc(c)
        cs = list(self.consts.items())
        for w, c in cs:
            ax.append(slen(c) == len(w))
            lw = w.lower()
            if lw in self.consts:
                ax.append(slower(c) == self.consts[lw])
            for ch in self.chars:
                ax.append(scontains(c, self.consts[ch]) if ch in w else z3.Not(scontains(c, self.consts[ch])))
            if w:
                for ix in (0, -1):
                    if w[ix] in self.consts:
                        ax.append(sat(c, ix) == self.consts[w[ix]])
                    else:
                        ax += [sat(c, ix) != self.consts[x] for x in self.consts if len(x) == 1]
        if len(cs) > 1:
            ax.append(z3.Distinct(*[c for _, c in cs]))
        return ax + self.extra

    def check(self, fs, timeout=None, model=False, ground=False):
        import time
        s = z3.Solver()
        s.set("timeout", timeout or self.timeout)
        s.set("random_seed", 1)
        s.add(self.axioms()[ground])
        s.add(*fs)
        self.queries += 1
        t = time.time()
        r = str(s.check())
        self.time += time.time() - t
        if model:
            return r, (s.model() if r == "sat" else None)
        return r

    def touches(self, fs):
        """elements at the indices the formulas speak of, for the solver to instantiate with"""
        ls, cs, seen, todo = {}, {}, set(), list(fs)
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                todo.append(x.body())
                continue
            if z3.is_var(x):
                continue
            todo += x.children()
            if z3.is_const(x) and z3.is_int(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                cs[x.get_id()] = x
            if x.num_args() == 2 and x.decl().name() == "lel" and not hasvar(x.arg(0)):
                l = z3.simplify(x.arg(0))
                ls[l.get_id()] = l
        return [touch(lel(l, c)) for l in list(ls.values())[:6] for c in list(cs.values())[:12] if not c.eq(l)]

    def sum(self, inc, k, n):
        """sum of inc(j) for j < n"""
        j = z3.Int("j!sum")
        body = z3.simplify(z3.substitute(iv(inc), (k, j)))
        key = body.get_id()
        if key not in self.sums:
            f = z3.Function(f"SUM!{len(self.sums)}", I, I)
            self.sums[key] = (f, body)
            self.extra += [f(0) == 0, z3.ForAll([j], z3.Implies(j >= 0, f(j + 1) == f(j) + body), patterns=[f(j + 1)])]
        return self.sums[key][0](iv(n))


HQ = {}


def has_quant(e):
    k = e.get_id()
    if k not in HQ:
        HQ[k] = e, has_quant_(e)     # holding e keeps the number its own
    return HQ[k][1]


def has_quant_(e):
    if z3.is_quantifier(e):
        return True
    return any(has_quant(x) for x in e.children())


def mentions(e, k):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if x.eq(k):
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        todo += x.children()
    return False


class X:
    def __init__(self, world=None, contracts=None):
        self.w = world or World()
        self.heap, self.pc, self.ctr, self.idx = {}, [], 0, []
        self.dec, self.pos, self.todo, self.memo, self.nl = [], 0, [], {}, 0
        self.contracts = contracts or {}
        self.maxpaths = 40000
        self.npaths = 0
        self.depth = 0
        self.checks = []       # (label, status)
        self.callstack = []
        self.ghost = {}
        self.candidates = lambda it, mod, entry: []     # invariants to try at a while loop
        self.oblige = None                              # (label, pc, goal)

    # ---------------------------------------------------------------- state
    def snap(self):
        return dict(self.heap), list(self.pc), self.ctr, list(self.idx), self.nl, list(self.callstack)

    def restore(self, s):
        self.heap, self.pc, self.ctr, self.idx, self.nl, self.callstack = dict(s[0]), list(s[1]), s[2], list(s[3]), s[4], list(s[5])

    def new(self, r):
        self.ctr += 1
        i = f"o{self.ctr}"
        self.heap[i] = r
        return Ref(i)

    def rec(self, v):
        return self.heap[v.i] if isinstance(v, Ref) else v.r if isinstance(v, Fz) else v

    def setrec(self, v, r):
        if not isinstance(v, Ref):
            raise Unsupported("change of a value that is shared")
        self.heap[v.i] = r

    def fresh(self, p, sort=I):
        self.ctr += 1
        if not self.idx:
            return z3.Const(f"{p}!{self.ctr}", sort)
        return z3.Function(f"{p}!{self.ctr}", *([I] * len(self.idx)), sort)(*self.idx)

    def bvar(self):
        self.ctr += 1
        return z3.Int(f"v!{self.ctr}")

    def choose(self, n):
        if n == 1:
            return 0
        if self.pos < len(self.dec):
            c = self.dec[self.pos]
        else:
            c = 0
            for o in range(n - 1, 0, -1):
                self.todo.append(self.dec[:self.pos] + [o])
            self.dec = self.dec + [0]
        self.pos += 1
        return c

    def feasible(self, c, quant=False):
        fs = [p for p in self.pc + [c] if quant or not has_quant(p)]
        return self.w.check(fs, 300, ground=True) != "unsat"

    def branch(self, c):
        """truth of a formula on this path"""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        for p in self.pc:
            if p.eq(c):
                return True
            if p.eq(neg(c)):
                return False
        if self.pos >= len(self.dec):
            f = self.feasible(c)
            g = self.feasible(neg(c))
            if not f and not g:
                raise Infeasible()
            if not f or not g:
                self.dec = self.dec + [0 if f else 1]
                self.pos += 1
                self.pc.append(c if f else neg(c))
                return f
        r = self.choose(2) == 0
        self.pc.append(c if r else neg(c))
        return r

    def explore(self, thunk):
        base = self.snap()
        sv = self.dec, self.pos, self.todo, self.memo
        outs = []
        self.todo, self.memo = [[]], {}
        while self.todo:
            self.dec, self.pos = self.todo.pop(), 0
            self.restore(base)
            self.npaths += 1
            if self.npaths > self.maxpaths:
                raise Unsupported("too many paths")
            o = Out()
            try:
                o.v = thunk()
                o.kind = "norm"
            except Infeasible:
                continue
            except PyRaise as e:
                o.kind, o.v = "raise", e
            except Brk:
                o.kind, o.v = "brk", None
            except Cont:
                o.kind, o.v = "cont", None
            except Ret as e:
                o.kind, o.v = "ret", e.v
            o.s = self.snap()
            o.heap, o.pc = o.s[0], o.s[1]
            outs.append(o)
        self.dec, self.pos, self.todo, self.memo = sv
        self.restore(base)
        return outs

    def resume(self, o):
        if o.kind == "norm":
            return o.v
        if o.kind == "raise":
            raise o.v
        if o.kind == "brk":
            raise Brk()
        if o.kind == "cont":
            raise Cont()
        raise Ret(o.v)

    # ---------------------------------------------------------------- joins
    merging = True

    def sub(self, thunk):
        """run a part whose paths are joined again afterwards"""
        if not self.merging:
            return thunk()
        self.nl += 1
        key = (tuple(self.dec[:self.pos]), self.nl)
        if key not in self.memo:
            base = self.snap()
            self.memo[key] = self.joined(base, self.explore(thunk))
        outs = self.memo[key]
        if not outs:
            raise Infeasible()
        o = outs[self.choose(len(outs))]
        self.restore(o.s)
        return self.resume(o)

    def joined(self, base, outs):
        res = [o for o in outs if o.kind in ("raise", "brk")]
        for kind in ("norm", "cont", "ret"):
            g = [o for o in outs if o.kind == kind]
            if len(g) > 1:
                try:
                    g = [self.join(base, g, len(base[1]))]
                except NoJoin:
                    pass
            res += g
        return res

    def join(self, base, outs, p):
        if len(outs) == 1:
            return outs[0]
        q = p
        while all(len(o.pc) > q for o in outs) and all(o.pc[q].eq(outs[0].pc[q]) for o in outs):
            q += 1
        if any(len(o.pc) <= q for o in outs):
            raise NoJoin()
        l = outs[0].pc[q]
        if has_quant(l):
            raise NoJoin()
        nl = neg(l)
        L = [o for o in outs if o.pc[q].eq(l)]
        R = [o for o in outs if o.pc[q].eq(nl)]
        if len(L) + len(R) < len(outs) or not R:
            raise NoJoin()
        a, b = self.join(base, L, q + 1), self.join(base, R, q + 1)
        ra, rb = a.pc[q + 1:], b.pc[q + 1:]
        pc = list(a.pc[:q])
        if ra or rb:
            pc.append(z3.Or(conj([l] + list(ra)), conj([nl] + list(rb))))
        heap, pair = {}, {}
        for i in base[0]:
            x, y = a.heap[i], b.heap[i]
            if x is y or same(x, y):
                heap[i] = x
            elif isinstance(x, Env) and isinstance(y, Env) or isinstance(x, PObj) and isinstance(y, PObj):
                D = (lambda r: r.d) if isinstance(x, Env) else (lambda r: r.f)
                d = {}
                for n in dict.fromkeys(list(D(x)) + list(D(y))):
                    if n not in D(x) or n not in D(y):
                        if not isinstance(x, Env):
                            raise NoJoin()
                        d[n] = UNDEF
                    else:
                        d[n] = self.pick(l, D(x)[n], D(y)[n], base, a, b, pair)
                heap[i] = Env(d, x.parent) if isinstance(x, Env) else PObj(x.cls, d)
            else:
                raise NoJoin()
        used = set()
        for o in (a, b):
            for i, r in o.heap.items():
                if i not in base[0] and (i not in (b if o is a else a).heap or same(a.heap[i], b.heap[i])):
                    heap[i] = r
        o = Out()
        o.kind = a.kind
        o.v = self.pick(l, a.v, b.v, base, a, b, pair)
        for t, i, j, r in pair.values():
            heap[t] = r
        todo = [r for i, r in heap.items() if i in base[0]] + [o.v]
        while todo:
            r = todo.pop()
            for x in refs(r):
                if x in used:
                    continue
                used.add(x)
                if x not in heap:
                    raise NoJoin()
                todo.append(heap[x])
        if any(i in used and i not in base[0] and i not in pair for q in pair.values() for i in q[1:3]):
            raise NoJoin()
        o.s = (heap, pc, max(a.s[2], b.s[2]) + len(pair), a.s[3], max(a.s[4], b.s[4]), a.s[5])
        o.heap, o.pc = heap, pc
        return o

    def pick(self, c, x, y, base, a, b, pair):
        if isinstance(x, Undef) or isinstance(y, Undef):
            return UNDEF
        if isinstance(x, Ref) and isinstance(y, Ref) and x.i not in base[0] and y.i not in base[0]:
            for t, i, j, r in pair.values():
                if (i == x.i) != (j == y.i):
                    raise NoJoin()
                if i == x.i:
                    return Ref(t)
            u, v = a.heap[x.i], b.heap[y.i]
            t = f"o{max(a.s[2], b.s[2]) + len(pair) + 1}"
            if isinstance(u, PObj) and isinstance(v, PObj) and u.cls is v.cls and u.f.keys() == v.f.keys():
                pair[t] = (t, x.i, y.i, None)
                pair[t] = (t, x.i, y.i, PObj(u.cls, {n: self.pick(c, u.f[n], v.f[n], base, a, b, pair) for n in u.f}))
                return Ref(t)
            if type(u) is type(v) and same(u, v):
                pair[t] = (t, x.i, y.i, u)
                return Ref(t)
            raise NoJoin()
        if same(x, y):
            return x
        if isinstance(x, (bool, SBool)) and isinstance(y, (bool, SBool)):
            t = lambda v: z3.BoolVal(v) if isinstance(v, bool) else v.t
            return SBool(z3.simplify(z3.If(c, t(x), t(y))))
        if isinstance(x, (int, SInt)) and isinstance(y, (int, SInt)) and not isinstance(x, bool) and not isinstance(y, bool):
            t = lambda v: v.t if isinstance(v, SInt) else iv(v)
            return SInt(z3.If(c, t(x), t(y)))
        if isinstance(x, (str, SStr)) and isinstance(y, (str, SStr)):
            t = lambda v: v.t if isinstance(v, SStr) else self.w.sc(v)
            return SStr(z3.If(c, t(x), t(y)))
        plain = (SV, SStr, SInt, SBool, str, int, bool, type(None))
        if isinstance(x, plain) and isinstance(y, plain):
            return SV(z3.If(c, self.asV(x), self.asV(y)))
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            return tuple(self.pick(c, u, v, base, a, b, pair) for u, v in zip(x, y))
        raise NoJoin()

    # ---------------------------------------------------------------- loops
    def freeze(self, v, heap=None):
        heap = heap if heap is not None else self.heap
        if isinstance(v, Ref):
            return Fz(self.freeze(heap[v.i], heap))
        if isinstance(v, PObj):
            return PObj(v.cls, {n: self.freeze(x, heap) for n, x in v.f.items() if n not in ("protocol",)} | ({"protocol": Opaque("protocol")} if "protocol" in v.f else {}))
        if isinstance(v, PList):
            return PList([self.freeze(s, heap) for s in v.segs], v.kind)
        if isinstance(v, PDict):
            return PDict([self.freeze(s, heap) for s in v.segs])
        if isinstance(v, tuple):
            return tuple(self.freeze(x, heap) for x in v)
        if isinstance(v, list):
            return [self.freeze(x, heap) for x in v]
        return v

    def loop(self, segs, body):
        """body(value) for every value of the segments; Brk ends"""
        for s in segs:
            if s[0] == "one":
                try:
                    body(s[1])
                except Cont:
                    pass
                except Brk:
                    return True
            elif s[0] == "rep":
                if self.rep(s, body):
                    return True
            else:
                raise Unsupported("iteration over a collection without order")
        return False

    def rep(self, seg, body):
        self.nl += 1
        key = (tuple(self.dec[:self.pos]), self.nl)
        if key not in self.memo:
            self.memo[key] = self.summary(seg, body)
        exits = self.memo[key]
        if not exits:
            raise Infeasible()
        o = exits[self.choose(len(exits))]
        self.restore(o.s)
        if o.kind == "raise":
            raise o.v
        if o.kind == "ret":
            raise Ret(o.v)
        return o.kind == "brk"

    def summary(self, seg, body):
        _, n, bk, alts = seg
        n = iv(n)
        entry = self.snap()
        self.ctr += 1
        k = z3.Int(f"k!{self.ctr}")
        alts = [tuple(subst(x, bk, k) for x in a) for a in alts]
        total = len(alts) == 1 and (alts[0][0] is True or z3.is_true(alts[0][0]))
        outer = list(self.idx)
        forms = {}
        base_ctr = self.ctr

        def one():
            if total:
                body(alts[0][1])
                return
            for g, v in alts:
                if self.branch(g):
                    body(v)
                    return

        for rnd in range(8):
            self.restore(entry)
            self.ctr = base_ctr
            self.idx = outer + [k]
            self.apply(entry, forms, k)
            self.pc += [k >= 0, k < n]
            n0 = len(self.pc)
            start = self.snap()
            outs = self.explore(one)
            cont = [o for o in outs if o.kind in ("norm", "cont")]
            nf = self.derive(entry, start, cont, forms, k, n0)
            stable = nf.keys() == forms.keys() and all(same(nf[x][1:], forms[x][1:]) and nf[x][0] == forms[x][0] for x in nf)
            forms = nf
            if stable:
                break
        else:
            raise Unsupported("no loop invariant found")
        j = z3.Int("j!" + str(k)[2:])
        cg = disj([conj(o.pc[n0:]) for o in cont]) if cont else z3.BoolVal(False)
        upto = lambda m: forall(j, z3.And(j >= 0, j < iv(m)), subst(cg, k, j))
        res = []
        top = max([base_ctr] + [o.s[2] for o in outs])
        # all iterations done
        self.restore(entry)
        self.ctr = top
        self.apply(entry, forms, n)
        if not z3.is_true(cg):
            self.pc.append(upto(n) if cont else n <= 0)
        o = Out()
        o.kind, o.v, o.s = "norm", None, self.snap()
        res.append(o)
        kk = k if not outer else z3.Function("K" + str(k), *([I] * len(outer)), I)(*outer)
        for o in outs:
            if o.kind in ("norm", "cont"):
                continue
            self.restore(o.s)
            self.idx, self.ctr = list(outer), top
            if not z3.is_true(cg):
                self.pc.append(upto(k))
            if kk is not k:
                self.pc = self.pc[:len(entry[1])] + [subst(c, k, kk) for c in self.pc[len(entry[1]):]]
                self.heap = {i: self.subrec(r, k, kk) for i, r in self.heap.items()}
                o.v = subst(o.v, k, kk) if not isinstance(o.v, PyRaise) else o.v
            o2 = Out()
            o2.kind, o2.v, o2.s = o.kind, o.v, self.snap()
            res.append(o2)
        self.restore(entry)
        return res

    def subrec(self, r, k, t):
        if isinstance(r, Env):
            return Env({n: subst(v, k, t) for n, v in r.d.items()}, r.parent)
        return subst(r, k, t)

    def apply(self, entry, forms, k):
        for (i, f), (kind, *d) in forms.items():
            r0 = entry[0][i]
            if kind == "grow":
                seg = ("rep", k, d[0], d[1])
                new = type(r0)(r0.segs + (seg,), r0.kind) if isinstance(r0, PList) else PDict(r0.segs + (seg,))
                self.heap[i] = new
                continue
            cur = self.heap[i]
            fd = dict(cur.d if isinstance(cur, Env) else cur.f)
            if kind == "undef":
                fd[f] = UNDEF
            elif kind == "acc":
                v0 = (r0.d if isinstance(r0, Env) else r0.f)[f]
                t0 = v0 if isinstance(v0, int) else v0.t
                fd[f] = SInt(z3.simplify(iv(t0) + self.w.sum(d[0], d[1], k)))
            elif kind == "flag":
                j = z3.Int("jf!" + str(d[1])[2:])
                e = z3.Exists([j], z3.And(j >= 0, j < iv(k), subst(d[0], d[1], j)))
                v0 = (r0.d if isinstance(r0, Env) else r0.f)[f]
                t0 = z3.BoolVal(v0) if isinstance(v0, bool) else v0.t
                fd[f] = SBool(z3.Or(t0, e) if d[2] else z3.And(t0, z3.Not(e)))
            self.heap[i] = Env(fd, cur.parent) if isinstance(cur, Env) else PObj(cur.cls, fd)

    def derive(self, entry, start, cont, forms, k, n0):
        nf = {}
        if not cont:
            return nf
        common = None
        for o in cont:
            ids = {c.get_id() for c in o.pc[n0:]}
            common = ids if common is None else common & ids
        gs = [conj([c for c in o.pc[n0:] if c.get_id() not in common]) for o in cont]
        for i, r0 in entry[0].items():
            old = start[0][i]
            news = [o.heap[i] for o in cont]
            if isinstance(r0, (Env, PObj)):
                D = lambda r: r.d if isinstance(r, Env) else r.f
                names = set()
                for nw in news:
                    names |= {n for n in D(nw) if n not in D(old) or not same(D(nw)[n], D(old)[n])}
                names |= {f for (ii, f) in forms if ii == i and f is not None}
                for f in sorted(names):
                    v0 = D(r0).get(f, UNDEF)
                    ov = D(old).get(f, UNDEF)
                    vs = [D(nw).get(f, UNDEF) for nw in news]
                    nf[(i, f)] = self.leaf(v0, ov, vs, gs, cont, k, forms.get((i, f)))
                continue
            if all(nw is old or same(nw, old) for nw in news) and (i, None) not in forms:
                continue
            if not isinstance(r0, (PList, PDict)):
                raise Unsupported("collection changed in a loop")
            alts = []
            for g, nw, o in zip(gs, news, cont):
                if len(nw.segs) == len(old.segs):
                    if not same(nw.segs, old.segs):
                        raise Unsupported("collection changed in a loop")
                    continue
                if len(nw.segs) != len(old.segs) + 1 or not same(nw.segs[:len(old.segs)], old.segs) or nw.segs[-1][0] != "one":
                    raise Unsupported("collection changed in a loop")
                alts.append((g,) + tuple(self.freeze(x, o.heap) for x in nw.segs[-1][1:]))
            b = z3.Int("b!" + str(k)[2:] + i)
            nf[(i, None)] = ("grow", b, [tuple(subst(x, k, b) for x in a) for a in alts])
        return nf

    def leaf(self, v0, old, vs, gs, cont, k, form):
        if form and form[0] == "undef":
            return form
        if isinstance(v0, (int, SInt)) and not isinstance(v0, bool) and all(isinstance(v, (int, SInt)) and not isinstance(v, bool) for v in vs) and not isinstance(old, Undef):
            t = lambda v: iv(v if isinstance(v, int) else v.t)
            ds = [z3.simplify(t(v) - t(old)) for v in vs]
            g = ds[-1]
            for c, d in reversed(list(zip(gs, ds))[:-1]):
                g = d if d.eq(g) else z3.If(c, d, g)
            if not any(mentions(g, a) for a in self.sumapps(t(old), k)):
                return ("acc", g, k)
        if isinstance(v0, (bool, SBool)) and all(isinstance(v, (bool, SBool)) for v in vs) and not isinstance(old, Undef):
            for to in (True, False):
                if all(same(v, old) or v is to for v in vs):
                    return ("flag", disj([c for c, v in zip(gs, vs) if v is to]), k, to)
        return ("undef",)

    def sumapps(self, t, k):
        out, todo = [], [t]
        while todo:
            x = todo.pop()
            if z3.is_app(x) and x.decl().name().startswith("SUM!"):
                out.append(x)
            todo += x.children()
        return out
