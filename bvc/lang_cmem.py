"""C, who owns what: every allocation is released exactly once or kept where Destroy finds it.

Reading side.  What malloc gives is an object of its own until a pointer to it is stored; then it lives where that pointer is
(one owner by construction: a second stored pointer to it is not supported, hence no verdict).  Losing the last pointer,
releasing what is released or was never allocated, and releasing something that still owns something are crashes of the
path.  The postcondition of FromBytes, ProcessRawBytes and UnpackMessages, whether they succeed or fail, is owned().

Destroying side.  The precondition is owned(): an arbitrary message with every pointer symbolic (null or not, the constant of
the default or not).  free() adds an event to a ghost trace that loops summarise; at the end the trace has to cover every
live pointer exactly once, and no access may follow the release of what it goes through."""
from .lang_c import *
from .lang_c import C as C_


class Own:
    """a value that owns what its type says, complete or partial"""
    __slots__ = ("t", "id")

    def __init__(self, t, id):
        self.t, self.id = t, id

    def __repr__(self):
        return f"Own({self.t})"


RELEASED = "released memory"
PROPS = ["C11"]
MEMBER = Un("a number of the message")


class CM(C_):
    okind = None                # kind of the function under proof

    def __init__(self, proto):
        super().__init__(proto)
        self.own_vals = {t: Own(t, proto.msg_ids.get(t)) for t in list(proto.structs) + list(proto.messages)}
        self.holds = {}

    def trap_props(self, kind):
        return PROPS

    # ---- what a type owns
    def owns(self, t):
        k = self.p.kind(t)
        if k in ("num", "enum"):
            return False
        if k == "string":
            return True
        if t not in self.holds:
            self.holds[t] = False
            self.holds[t] = any(l or self.owns(mt) for _, mt, l in self.p.st(t).members)
        return self.holds[t]

    def end(self, ex, v):
        while isinstance(v, Fwd):
            v = ex.load(v.loc, v.path)
        return v

    def own_at(self, ex, a, c, good=None):
        """element c of an array, by cases (those known to be good left out)"""
        for wr in reversed(a.writes):
            if wr[0] == "one":
                if ex.branch(eq(wr[1], c)):
                    return wr[2]
                continue
            _, K, k, alts = wr
            if ex.branch(lt(c, K)):
                if good:
                    alts = [x for x in alts if not good(x[1])]
                    if not alts:
                        raise Infeasible()
                g, v = alts[ex.choose(len(alts))]
                ex.assume(subst(g, k, c))
                return subst(v, k, c)
        return a.dflt(c)

    def element(self, ex, a, n, check, good=None):
        """check of an arbitrary one of the first n elements"""
        if known(n) and n == 0:
            return
        if ex.choose(2) == 0:
            return
        c = ex.fresh("c", 0)
        ex.assume(lt(c, n))
        if not ex.feasible():
            raise Infeasible()
        check(self.own_at(ex, a, c, good))
        raise Infeasible()

    def owned(self, ex, t, v, where, inlist=False):
        """v, of type t, owns what Destroy will release, and every pointer Destroy looks at is defined"""
        v = self.end(ex, v)
        k = self.p.kind(t)
        ob = lambda what, c: ex.oblige(f"{where}: {what}", c, props=PROPS)
        if k in ("num", "enum"):
            return
        if k == "string":
            if isinstance(v, S) and isinstance(v.h, bytes):
                return ob("a text that is a constant is not released", not inlist and v.h == b"")
            if isinstance(v, (Null, S, Raw)):
                return ob("a text is null or allocated", True)
            if isinstance(v, Un):
                return ob(f"a text is null or allocated, not {v.why}", False)
            raise Unsupported(f"text {v!r}")
        if isinstance(v, Own):
            return ob("is complete or partial as its reader leaves it", v.t == t)
        if isinstance(v, Msg):
            return ob("is a message of this kind", v.h == t or v.h is None and ex.proves(self.is_kind(ex, t, v.k)))
        if isinstance(v, Un):
            return ob(f"holds defined pointers, not {v.why}", not self.owns(t))
        if not isinstance(v, St):
            raise Unsupported(f"structure {v!r}")
        for m, mt, is_list in self.p.st(t).members:
            n = self.fname(v.ty, m)
            if not is_list:
                self.owned(ex, mt, v.f[n], f"{where}.{m}", inlist)
                continue
            w = f"{where}.{m}"
            ob = lambda what, c: ex.oblige(f"{w}: {what}", c, props=PROPS)
            ln = v.f[n + "_len"]
            for f in [n] + ([n + "_els_len"] if n + "_els_len" in v.f else []):
                x = self.end(ex, v.f[f])
                if isinstance(x, Un):
                    ob(f"the list is null or allocated, not {x.why}", False)
                    continue
                if not isinstance(x, (Null, A, Raw)):
                    raise Unsupported(f"list {x!r}")
                if f != n or not self.owns(mt):
                    ob("the list is null or allocated", True)
                    continue
                if not isinstance(ln, I):
                    ob("the length of the list is defined", False)
                    continue
                if isinstance(x, Null):
                    ob("a list that is null has length 0", eq(ln.t, 0))
                    continue
                if isinstance(x, Raw):
                    ob("a list not filled has length 0", eq(ln.t, 0))
                    continue
                ob("the length is at most that of the allocated list", le(ln.t, x.n))
                self.element(ex, x, ln.t, lambda y, w=w, mt=mt: self.owned(ex, mt, y, w + "[]", True))
                self.beyond(ex, x, ln.t, f"{w}: elements after the last one counted")

    def beyond(self, ex, x, n, what):
        """the elements from n on own nothing"""
        if ex.choose(2) == 0:
            return
        c = ex.fresh("c", 0)
        ex.assume(and_(le(n, c), lt(c, x.n)))
        if not ex.feasible():
            raise Infeasible()
        self.gone(ex, self.own_at(ex, x, c), what)
        raise Infeasible()

    # ---- nothing is lost
    def gone(self, ex, v, what, owner=True):
        """v is about to be overwritten or released with what holds it"""
        if isinstance(v, Fwd) or v is None:
            return
        if isinstance(v, Own) and v.t != "*":
            if self.owns(v.t) or v.id is not None:
                raise Crash(f"{what}: what it owns is lost")
            return
        if isinstance(v, Msg) or isinstance(v, Own) and v.t == "*":
            raise Crash(f"{what}: a message is lost")
        if isinstance(v, St):
            for x in v.f.values():
                self.gone(ex, x, what)
            return
        if isinstance(v, S) and isinstance(v.h, bytes) and not isinstance(v, CStr):
            return
        if isinstance(v, (S, Raw)) or isinstance(v, A) and not (known(v.n) and v.tag == "inplace"):
            raise Crash(f"{what}: allocated memory is lost")

    def content(self, ex, v, what):
        """v itself is released: what it holds must not own anything any more"""
        if isinstance(v, St):
            for x in v.f.values():
                self.gone(ex, x, what)
        elif isinstance(v, A):
            self.element(ex, v, v.n, lambda y: self.gone(ex, y, what))
        elif isinstance(v, Own):
            self.gone(ex, v, what)
        elif isinstance(v, Msg):
            raise Crash(f"{what}: what the message owns is lost")

    def blank(self, ex, t, zero):
        v = super().blank(ex, t, zero)
        if isinstance(v, A):
            v.tag = "inplace"           # an array, not a pointer
        return v

    def reg(self, ex, r):
        if isinstance(r, Ref):
            ex.heap["$mal"] = ex.heap.get("$mal", ()) + (r.loc,)
        return r

    def b_malloc(self, ex, args, e):
        return self.reg(ex, super().b_malloc(ex, args, e))

    def b_calloc(self, ex, args, e):
        n, s = args[0].t, args[1].t
        if not self.alloc(ex, mul(n, s)):
            return NULL
        raise Unsupported("calloc")

    def b_realloc(self, ex, args, e):
        if args[0] is NULL:
            return super().b_realloc(ex, args, e)
        self.tofree(ex, args[0])
        r = super().b_realloc(ex, args, e)
        return self.reg(ex, r)

    def tofree(self, ex, v):
        """(place, object) of a pointer given to free or realloc"""
        if not isinstance(v, Ref):
            raise Unsupported(f"free of {v!r}")
        loc, path = self.follow(ex, v)
        x = ex.load(loc, path)
        if isinstance(x, Un):
            raise Crash("releases " + ("released memory again" if x.why == RELEASED else "memory that was never allocated: " + x.why))
        if isinstance(x, S) and isinstance(x.h, bytes) and not isinstance(x, CStr) or isinstance(x, (I, B, F)):
            raise Crash("releases memory that was not allocated")
        if not path and loc not in ex.heap.get("$mal", ()) and isinstance(x, (St, Own)):
            raise Crash("releases an object it did not allocate")
        if path and isinstance(x, St) and not isinstance(path[-1], tuple):
            raise Crash("releases a part of an object")
        return loc, path, x

    def b_free(self, ex, args, e):
        v = args[0]
        if v is NULL:
            return None
        if isinstance(v, S) and isinstance(v.h, bytes):
            raise Crash("releases a constant")
        if isinstance(v, Un):
            raise Crash("releases an undefined pointer: " + v.why)
        if self.tree(v):
            return self.free_event(ex, v)
        loc, path, x = self.tofree(ex, v)
        self.content(ex, x, "free")
        ex.store(loc, path, Un(RELEASED))

    def b_memset(self, ex, args, e):
        if isinstance(args[0], Ref):
            x = ex.load(*self.follow(ex, args[0]))
            if isinstance(x, (St, A)):
                self.content(ex, x, "memset")
        return super().b_memset(ex, args, e)

    def e_pval(self, ex, e):
        v = super().e_pval(ex, e)
        if isinstance(v, (Own, Msg)):
            raise Unsupported("pointer to a message")
        return v

    def store_special(self, ex, l, v):
        m = l
        while m["k"] == "paren":
            m = m["x"]
        if not (m["k"] == "var" and m["n"] in ex.env):
            b = ex.ev(m["x"]) if m["k"] == "index" else None
            old = None
            if not isinstance(b, Buf) and not (isinstance(b, Ref) and isinstance(ex.load(*self.follow(ex, b)), CStr)):
                loc, path = ex.lv(m)
                if loc in ("m",):
                    raise Unsupported("change of the message being destroyed")
                old = ex.load(loc, path)
                if isinstance(v, Ref) and self.follow(ex, v) == (loc, path):
                    old = None
            self.gone(ex, old, "store")
        return super().store_special(ex, l, v)

    INL = INLINE + (Own,)

    def settle(self, ex, v, loc, path):
        vl, vp = self.follow(ex, v)
        x = ex.load(vl, vp)
        if isinstance(x, Own) and not vp:
            ex.heap[vl] = Fwd(loc, path)
            return x
        return super().settle(ex, v, loc, path)

    def after_iter(self, ex, start):
        """at the end of an iteration"""
        was = start.heap.get("$mal", ())
        now = ex.heap.get("$mal", ())
        if len(now) > len(was):
            self.settled(ex, now[len(was):], "an iteration of a loop", set(start.heap))
            ex.heap["$mal"] = was

    def settled(self, ex, locs, what, roots):
        for loc in locs:
            v = ex.heap.get(loc)
            at = loc
            while isinstance(v, Fwd):
                at, v = v.loc, ex.load(v.loc, v.path)
            if isinstance(v, Un) and v.why == RELEASED:
                continue
            if at == loc:
                for l2, x in ex.heap.items():
                    if isinstance(x, Ref) and not isinstance(x, Fwd) and x.loc == loc and l2 in roots and what.startswith("an it"):
                        raise Unsupported("an allocation held by a variable over iterations")
                raise Crash(f"what was allocated is still only in a variable at the end of {what}: lost")
            if at not in roots and at not in locs and at not in ex.heap.get("$mal", ()):
                raise Crash(f"what was allocated is in a variable that ends with {what}: lost")

    # ---- the message being destroyed
    def tree(self, v):
        return isinstance(v, Ref) and v.loc == "m" and self.okind in ("destroy", "destroylist", "destroyany")

    def pid(self, path):
        s, ix = "", []
        for p in path:
            if isinstance(p, tuple):
                s += "[]"
                ix.append(p[1])
            else:
                s += "." + p
        return s, tuple(ix)

    def sym(self, name, pid, ix, lo, hi):
        d = z3.Function(f"{name}{pid}", *([z3.IntSort()] * (len(ix) + 1)))
        lo_, hi_ = lo, hi
        self.ex.w.facts.setdefault(f"{name}{pid}", lambda a: [a >= lo_] + ([a <= hi_] if hi_ is not None else []))
        return d(*[zi(i) for i in ix])

    def nul(self, pid, ix):
        return self.sym("NUL", pid, ix, 0, 1) == 1

    def dfl(self, pid, ix):
        return False if "[]" in pid else self.sym("DFL", pid, ix, 0, 1) == 1

    def length(self, ex, pid, ix):
        """of a list"""
        n = f"LEN{pid}"
        hi = self.ptrs[pid]["max"]
        own = self.ptrs[pid]["own"]
        d = z3.Function(n, *([z3.IntSort()] * (len(ix) + 1)))
        nd = z3.Function(f"NUL{pid}", *([z3.IntSort()] * (len(ix) + 1)))
        ex.w.facts.setdefault(n, lambda a: [a >= 0, a <= hi] + ([z3.Implies(nd(*a.children()) == 1, a == 0)] if own else []))
        return d(*[zi(i) for i in ix])

    def tree_of(self, ex, t, pid, ix):
        ty = self.typename(t)
        fs = {f["n"]: f["t"] for f in self.mod.types[ty]["fields"]}
        out = {n: MEMBER for n in fs}
        if "_mt" in fs:
            out["_mt"] = I(self.p.msg_ids[t], self.under(fs["_mt"]))
        for m, mt, is_list in self.p.st(t).members:
            n = self.fname(ty, m)
            q = f"{pid}.{n}"
            if is_list:
                el = RANGES_MAX[self.p.lst]
                own = self.owns(mt)
                self.ptrs.setdefault(q, dict(max=el, own=own, deep=pid))
                ln = self.length(ex, q, ix)
                out[n + "_len"] = I(ln, self.under(fs[n + "_len"]))
                out[n] = A(ln, lambda i, mt=mt, q=q, ix=ix: self.tree_el(ex, mt, q + "[]", ix + (i,)), (), None, "tree")
                if own:
                    self.tree_el(ex, mt, q + "[]", ix + (z3.Int("probe"),))
                if n + "_els_len" in fs:
                    self.ptrs.setdefault(q + "_els_len", dict(max=el, own=False, deep=pid))
                    out[n + "_els_len"] = A(ln, lambda i: MEMBER, (), None, "tree")
            elif self.p.kind(mt) == "string":
                out[n] = self.tree_el(ex, mt, q, ix)
                out[n + "_len"] = I(self.sym("LEN", q, ix, 0, 1 << 40), self.under(fs[n + "_len"]))
            elif self.p.kind(mt) not in ("num", "enum"):
                out[n] = self.tree_of(ex, mt, q, ix)
        return St(ty, out)

    def tree_el(self, ex, mt, pid, ix):
        k = self.p.kind(mt)
        if k in ("num", "enum"):
            return MEMBER
        if k == "string":
            self.ptrs.setdefault(pid, dict(own=False, text=True))
            return S(z3.IntVal(0), self.sym("TXT", pid, ix, 0, None), None)
        return self.tree_of(ex, mt, pid, ix)

    def binop(self, ex, o, x, y, e):
        if o in ("==", "!="):
            for a, b in ((x, y), (y, x)):
                if self.tree(a) and a.path:
                    pid, ix = self.pid(a.path)
                    if pid in self.ptrs:
                        t = None
                        if isinstance(b, Null):
                            t = self.nul(pid, ix)
                        elif isinstance(b, S) and isinstance(b.h, bytes):
                            t = self.dfl(pid, ix)
                        if t is not None:
                            return B(t if o == "==" else not_(t))
        return super().binop(ex, o, x, y, e)

    def truth(self, ex, v):
        if self.tree(v) and v.path:
            pid, ix = self.pid(v.path)
            if pid in self.ptrs:
                return not_(self.nul(pid, ix))
        return super().truth(ex, v)

    def free_event(self, ex, v):
        pid, ix = self.pid(v.path)
        if pid not in self.ptrs and pid != self.rootpid:
            raise Crash("releases a part of an object")
        s = ex.heap["$free"]
        ex.heap["$free"] = s.with_(ev=s.ev + (("free", pid, ix),))

    def flat(self, ev):
        """{pid: [(pid, index terms, conditions, [(variable, bound)])]}"""
        r = self.flats.get(id(ev))
        if r is not None:
            return r[1]
        out = {}

        def go(ev, conds, vs):
            for x in ev:
                if x[0] == "free":
                    out.setdefault(x[1], []).append((x[1], x[2], conds, vs))
                else:
                    _, K, j, alts = x
                    for g, q in alts:
                        go(q, conds + [g], vs + [(j, K)])
        go(ev, [], [])
        self.flats[id(ev)] = (ev, out)
        return out

    def when(self, ex, e, ix):
        """(condition under which event e releases the pointer with these indices, can it do so more than once)"""
        pid, it, conds, vs = e
        sub_ = []
        rest = []
        left = {j.get_id(): j for j, _ in vs}
        many = False
        it = [zi(t) for t in it]
        for t, c in zip(it, ix):
            t = z3.substitute(t, *sub_) if sub_ else t
            done = False
            for j in list(left.values()):
                if not ex.w.mentions(t, j):
                    continue
                co, at = ex.w.linear(t)
                mine = [q for q, a in at if a.eq(j)]
                if len(mine) == 1 and abs(mine[0]) == 1 and not any(ex.w.mentions(a, j) for q, a in at if not a.eq(j)):
                    others = add(co, *[mul(q, a) for q, a in at if not a.eq(j)])
                    sol = mul(mine[0], sub(c, others))
                    if not any(ex.w.mentions(sol, l) for l in left.values()):
                        sub_.append((j, zi(sol)))
                        del left[j.get_id()]
                        done = True
                        break
            if not done:
                rest.append(eq(t, zi(c)))
        on = lambda c: z3.simplify(z3.substitute(zb(c), *sub_) if sub_ else zb(c))
        r = []
        for c in rest + [c for j, K in vs for c in (le(0, j), lt(j, K))]:
            c = on(c)
            if z3.is_false(c):
                return False, False
            r.append(c)
        if left:
            many = True
        r += [on(c) for c in conds]
        return and_(*[True if z3.is_true(x) else x for x in r]), many

    def touch(self, ex, loc, path):
        """an access by way of these pointers"""
        s = ex.heap.get("$free")
        if s is None or not s.ev:
            return
        fl = self.flat(s.ev)
        for i, p in enumerate(path):
            if isinstance(p, tuple) or i == 0:
                pid, ix = self.pid(path[:i])
                for e in fl.get(pid, ()):
                    c, _ = self.when(ex, e, ix)
                    if ex.branch(c):
                        raise Crash("uses released memory")

    def byte0(self, ex, b):
        loc, path = self.follow(ex, b.ref)
        if self.tree(Ref(loc, path)):
            self.touch(ex, loc, path + ("x",))
            self.alive(ex, path)
        x = ex.load(loc, path)
        if isinstance(x, Own) and x.id is not None:
            return I(x.id, "u8")
        return super().byte0(ex, b)

    def alive(self, ex, path):
        s = ex.heap.get("$free")
        pid, ix = self.pid(path)
        for e in self.flat(s.ev).get(pid, ()):
            c, _ = self.when(ex, e, ix)
            if ex.branch(c):
                raise Crash("uses released memory")

    def setup_tree(self, ex, root):
        self.ex = ex
        self.ptrs, self.flats = {}, {}
        self.rootpid = ""
        ex.heap["$free"] = Stream("free", 0, 0, None, ())
        ex.heap["$bad"] = ()
        ex.onload = lambda loc, path: self.touch(ex, loc, path) if loc == "m" else None
        n = z3.Int("mcount")
        ex.w.facts["mcount"] = lambda a: [a >= 0, a <= 1 << 40]
        if root == "list":
            self.ptrs[".list"] = dict(own=True, max=1 << 40, deep="")
            ex.w.facts.setdefault("NUL.list", lambda a: [z3.Implies(a == 1, n == 0)])
            d = z3.Function("MH", z3.IntSort(), z3.IntSort())
            self.ptrs[".list[]"] = dict(own=False, msg=True)
            ex.heap["m"] = St("$list", {"list": A(n, lambda i: Msg(None, d(zi(i))), (), None, "tree")})
            self.rootpid = None
        elif root == "any":
            ex.heap["m"] = Msg(None, ex.symbol("mh"))
        else:
            ex.heap["m"] = self.tree_of(ex, root, "", ())
        return n

    def bound(self, ex, pid, n):
        """(fresh indices, conditions that they are in range) for a pointer"""
        parts = pid.split("[]")
        ix, cs = (), []
        for i in range(len(parts) - 1):
            lp = "[]".join(parts[:i + 1])
            ln = n if lp == ".list" else self.length(ex, lp, ix)
            c = ex.fresh("c", 0)
            cs += [c >= 0, lt(c, ln)]
            ix += (c,)
        return ix, cs

    def covered(self, ex, n, root, where):
        """the events release every pointer once"""
        fl = self.flat(ex.heap["$free"].ev)
        todo = list(self.ptrs) + ([""] if root is not None else [])
        for pid in todo:
            ix, cs = self.bound(ex, pid, n)
            p = self.ptrs.get(pid, {})
            live = [] if pid == "" or p.get("msg") else [not_(self.nul(pid, ix))]
            if p.get("text"):
                d = self.dfl(pid, ix)
                live.append(not_(d))
            mine = [self.when(ex, e, ix) for e in fl.get(pid, ())]
            any_ = or_(*[c for c, _ in mine]) if mine else False
            nm = pid[1:] or "the message"
            imp = lambda hyp, c: or_(*[not_(h) for h in hyp], c)
            if pid == "" and not root:
                ex.oblige(f"{where}: the message itself is not released", not_(any_), props=PROPS)
                continue
            ex.oblige(f"{where}: {nm} is released", imp(cs + live, any_), props=PROPS)
            once = []
            for i, (a, many) in enumerate(mine):
                if many:
                    once.append(not_(a))
                for b, _ in mine[:i]:
                    once.append(not_(and_(a, b)))
            ex.oblige(f"{where}: {nm} is released only once", imp(cs + live, and_(*once)), props=PROPS)
            if p.get("text") and "[]" not in pid:
                ex.oblige(f"{where}: {nm} is not released when it is the constant of the default", imp(cs + [not_(self.nul(pid, ix)), d], not_(any_)), props=PROPS)

    # ---- contracts
    def contract(self, ex, n, args, e):
        t, f = self.split(n)
        k = self.okind
        if f == "FromBytes":
            if self.target == ("read", t):
                return NotImplemented
            v = self.read_contract(ex, t)
            loc, path = self.follow(ex, args[1])
            old = ex.load(loc, path)
            if isinstance(old, (S, A)) and not (isinstance(old, A) and old.tag == "inplace"):
                raise Crash("reads into a pointer")
            self.gone(ex, old, "FromBytes")
            ex.store(loc, path, self.own_vals[t])
            if v is None:
                return self.someerr(ex)
            self.advance(ex, "$in")
            return self.err(0)
        if f in ("Cleanup", "Destroy") and t is not None:
            if k == "destroy" and t == self.target[1]:
                return NotImplemented
            if args[0] is NULL:
                raise Crash("null pointer")
            if k in ("destroylist", "destroyany"):
                if f == "Cleanup" or not self.tree(args[0]):
                    raise Unsupported("cleanup")
                self.touch(ex, "m", args[0].path)
                self.alive(ex, args[0].path)
                x = ex.load(*self.follow(ex, args[0]))
                ex.oblige(f"what is destroyed as a {t} is one", self.is_kind(ex, t, x.k), props=PROPS)
                self.free_event(ex, args[0])
                return None
            loc, path = self.follow(ex, args[0])
            x = ex.load(loc, path)
            if isinstance(x, Un):
                raise Crash("destroys " + x.why)
            if isinstance(x, St):
                self.owned(ex, t, x, f)
            elif isinstance(x, Own):
                ex.oblige(f"what is destroyed as a {t} is one", x.t == t, props=PROPS)
            else:
                raise Unsupported(f"{f} of {x!r}")
            if f == "Destroy" and not path and loc not in ex.heap.get("$mal", ()):
                raise Crash("releases an object it did not allocate")
            ex.store(loc, path, Un(RELEASED) if f == "Destroy" else self.blank(ex, ["rec", self.typename(t)], False))
            return None
        if t is None and f == "DestroyMessageList" and k != "destroylist":
            if args[0] is NULL:
                return self.err(0)
            loc, path = self.follow(ex, args[0])
            x = ex.load(loc, path)
            if isinstance(x, Un):
                raise Crash("destroys " + x.why)
            if not isinstance(x, A):
                raise Unsupported("list of messages")
            ln = args[1].t
            ex.oblige("what is destroyed is within the list", le(ln, x.n), props=PROPS)
            self.messages(ex, x, ln, "DestroyMessageList")
            if x.tag == "messages":
                ex.oblige("all the messages of the list are destroyed", eq(ln, x.n), props=PROPS)
            else:
                self.beyond(ex, x, ln, "DestroyMessageList")
            ex.store(loc, path, Un(RELEASED))
            return self.err(0)
        if t is None and f == "Destroy" and k != "destroyany":
            raise Unsupported("Destroy")
        if t is None and f == "ProcessRawBytes" and self.target[0] != "process":
            v = self.process_contract(ex, args[1].t)
            out, ln = self.follow(ex, args[2]), self.follow(ex, args[3])
            self.gone(ex, ex.load(*out), "ProcessRawBytes")
            if v is None and ex.choose(2):
                ex.store(*out, NULL)
                ex.store(*ln, I(0, "u64"))
                return self.someerr(ex)
            m = v.n if v is not None else ex.fresh("part", 0, 1 << 40)
            ex.store(*out, A(m, lambda i: self.anymsg, (), None, "messages"))
            ex.store(*ln, I(m, "u64"))
            return self.err(0) if v is not None else self.someerr(ex)
        if f == "Create":
            return NotImplemented
        return super().contract(ex, n, args, e)

    anymsg = Own("*", None)

    def messages(self, ex, x, ln, where):
        """the first ln elements are messages"""
        def one(y):
            y = self.end(ex, y)
            if isinstance(y, Own):
                ex.oblige(f"{where}: holds messages", y.t == "*" or y.id is not None, props=PROPS)
            elif isinstance(y, St) and "_mt" in y.f:
                t = [q for q in self.p.messages if self.typename(q) == y.ty]
                self.owned(ex, t[0], y, where)
                m = y.f["_mt"]
                ex.oblige(f"{where}: a message is marked as what it is", isinstance(m, I) and eq(m.t, self.p.msg_ids[t[0]]), props=PROPS)
            elif isinstance(y, Un):
                ex.oblige(f"{where}: holds messages, not {y.why}", False, props=PROPS)
            else:
                raise Unsupported(f"message {y!r}")
        self.element(ex, x, ln, one, lambda y: isinstance(y, Own) and y.id is not None)

    # ---- jobs
    def own_end(self, ex, roots, returned=None):
        """nothing allocated is out of reach"""
        locs = [l for l in ex.heap.get("$mal", ()) if l != returned]
        self.settled(ex, locs, "the function", set(roots) | ({returned} if returned else set()))

    def own_read(self, ex, t):
        r_ = self.access(ex, "$in")
        ty = self.typename(t)
        ex.heap["dst"] = self.blank(ex, ["rec", ty], False)
        r = ex.call_fn(self.fn(t, "FromBytes"), [r_, Ref("dst", ())])
        res = "success" if self.code(ex, r) else "failure"
        v = ex.heap["dst"]
        self.own_end(ex, ["dst"])
        self.owned(ex, t, v, f"after {res}")
        if t in self.p.messages:
            m = v.f.get("_mt")
            ex.oblige(f"after {res}: the message is marked as a {t}", eq(m.t, self.p.msg_ids[t]) if isinstance(m, I) else False, props=PROPS)

    def own_create(self, ex, t):
        r = ex.call_fn(self.fn(t, "Create"), [])
        if r is NULL:
            return self.own_end(ex, [])
        loc, path = self.follow(ex, r)
        v = ex.load(loc, path)
        if loc not in ex.heap.get("$mal", ()):
            raise Crash("what it returns was not allocated")
        self.own_end(ex, [], loc)
        self.owned(ex, t, v, "created")
        m = v.f.get("_mt")
        ex.oblige(f"created: the message is marked as a {t}", eq(m.t, self.p.msg_ids[t]) if isinstance(m, I) else False, props=PROPS)

    def own_list(self, ex, res):
        x, n = self.end(ex, ex.heap["lst"]), ex.heap["len"]
        self.own_end(ex, ["lst", "len"])
        where = f"after {res}"
        if isinstance(x, Un):
            return ex.oblige(f"{where}: the list is null or allocated, not {x.why}", False, props=PROPS)
        if isinstance(x, Null):
            if res == "success":
                ex.oblige(f"{where}: a list that is null has length 0", isinstance(n, I) and eq(n.t, 0), props=PROPS)
            else:
                ex.oblige(f"{where}: the list is null or allocated", True, props=PROPS)
            return
        if isinstance(x, Raw):
            return ex.oblige(f"{where}: a list not filled has length 0", isinstance(n, I) and eq(n.t, 0), props=PROPS)
        if not isinstance(x, A):
            raise Unsupported(f"list {x!r}")
        if not isinstance(n, I):
            return ex.oblige(f"{where}: the length of the list is defined", False, props=PROPS)
        ex.oblige(f"{where}: the length is at most that of the allocated list", le(n.t, x.n), props=PROPS)
        self.messages(ex, x, n.t, where)
        if x.tag == "messages":
            ex.oblige(f"{where}: all the messages are in reach", eq(n.t, x.n), props=PROPS)
        else:
            self.beyond(ex, x, n.t, "messages after the last one counted")

    def own_process(self, ex, mx):
        r_ = self.access(ex, "$in")
        ex.heap["lst"], ex.heap["len"] = Un("list"), Un("length")
        r = ex.call_fn(self.fn("ProcessRawBytes"), [r_, I(mx, "i32"), Ref("lst", ()), Ref("len", ())])
        self.own_list(ex, "success" if self.code(ex, r) else "failure")

    def own_unpack(self, ex):
        r_ = self.access(ex, "$in")
        ex.heap["lst"], ex.heap["len"] = Un("list"), Un("length")
        r = ex.call_fn(self.fn("UnpackMessages"), [r_, Ref("lst", ()), Ref("len", ())])
        self.own_list(ex, "success" if self.code(ex, r) else "failure")

    def own_destroy(self, ex, t, f):
        n = self.setup_tree(ex, t)
        ex.call_fn(self.fn(t, f), [Ref("m", ())])
        ex.onload = None
        self.covered(ex, n, f == "Destroy", f)

    def own_destroylist(self, ex):
        n = self.setup_tree(ex, "list")
        ex.call_fn(self.fn("DestroyMessageList"), [Ref("m", ("list",)), I(n, "u64")])
        ex.onload = None
        self.covered(ex, n, None, "DestroyMessageList")

    def own_destroyany(self, ex):
        n = self.setup_tree(ex, "any")
        ex.call_fn(self.fn("Destroy"), [Ref("m", ())])
        ex.onload = None
        self.covered(ex, n, True, "Destroy")


RANGES_MAX = {k: min(v[1], 1 << 40) for k, v in RANGES.items()}
