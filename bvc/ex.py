"""Symbolic execution of the common intermediate form, path by path, loops by inductive summaries.

A run starts from a state in which every input is an unknown, and yields every feasible outcome of a function.  Loops whose
condition is not known are never unrolled: the state after k iterations is guessed from one iteration and then *checked*
by running the body once more from that state for an arbitrary k (base case and induction step of a loop invariant)."""
import z3
from .vals import *

CUR = "$in"
DEBUG = int(__import__("os").environ.get("BVC_LOOPS", "0"))
MAXPATH = 30000


def gid(c):
    try:
        return c._gid
    except AttributeError:
        c._gid = c.get_id()
        return c._gid


class Ctl(Exception):
    pass


class Ret(Ctl):
    def __init__(self, v):
        self.v = v


class Brk(Ctl):
    def __init__(self, label=None):
        self.label = label


class Cont(Ctl):
    def __init__(self, label=None):
        self.label = label


class Thr(Ctl):
    def __init__(self, v):
        self.v = v


class Crash(Ctl):
    """the program stops abnormally (panic, trap, undefined behaviour)"""
    def __init__(self, why):
        self.why = why


class CondFalse(Ctl):
    pass


class Infeasible(Exception):
    pass


class Out:
    __slots__ = ("kind", "v", "heap", "env", "pc", "ctr", "mark")

    def __repr__(self):
        return f"Out({self.kind},{self.v})"


# ------------------------------------------------------------------ symbols, facts, sums
class World:
    """what is known about uninterpreted symbols, and the solver"""
    def __init__(self, timeout=2000):
        self.facts = {}              # decl name -> fn(app) -> [z3 bool]
        self.sums = {}               # key -> (decl, gsize)
        self.sumdef = {}             # decl name -> (increment term, canonical var, outer vars)
        self.slv = z3.Solver()
        self.slv.set("timeout", timeout)
        self.stack = []
        self.apps_cache = {}
        self.pairkeys = {}
        self.keep = []
        self.cache = {}
        self.nsolve = 0
        self.tsolve = 0.0
        self.f1, self.allsums, self.nonneg = {}, {}, set()
        self.levels = []
        self.extra = []              # facts assumed in every query (merged sums)

    def apps(self, e):
        i = e.get_id()
        r = self.apps_cache.get(i)
        if r is None:
            out, seen, todo = {}, set(), [e]
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_app(x):
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        out[x.get_id()] = x
                    todo += x.children()
            r = list(out.values())
            self.apps_cache[i] = r
            self.keep.append(e)
        return r

    def facts_of(self, es):
        seen, out, todo = set(), [], [a for e in es for a in self.apps(e)]
        while todo:
            a = todo.pop()
            if a.get_id() in seen:
                continue
            seen.add(a.get_id())
            for x in self.facts1(a):
                out.append(x)
                todo += self.apps(x)
        return out, [a for a in self.sumapps(seen)]

    def facts1(self, a):
        i = a.get_id()
        r = self.f1.get(i)
        if r is None:
            n = a.decl().name()
            f = self.facts.get(n)
            r = [x for x in f(a) if not isinstance(x, bool)] if f else []
            self.f1[i] = r
            self.keep.append(a)
            if n.startswith("SUM!"):
                self.allsums[i] = a
        return r

    def sumapps(self, ids):
        return [self.allsums[i] for i in ids if i in self.allsums]

    def pairs(self, new, old):
        """a sum of terms that are not negative grows with the bound"""
        out = []
        groups = {}
        for a in old:
            k = self.pairkey(a)
            if k:
                groups.setdefault(k, []).append(a)
        for a in new:
            k = self.pairkey(a)
            if not k:
                continue
            g = groups.setdefault(k, [])
            for b in g:
                m, n = b.arg(0), a.arg(0)
                out.append(z3.Implies(m <= n, b <= a))
                out.append(z3.Implies(n <= m, a <= b))
            g.append(a)
        return out

    def pairkey(self, a):
        i = a.get_id()
        r = self.pairkeys.get(i)
        if r is None:
            n = a.decl().name()
            r = self.pairkeys[i] = (n,) + tuple(a.arg(i).get_id() for i in range(1, a.num_args())) if n in self.nonneg else ()
            self.keep.append(a)
        return r

    def check(self, pc, extra=()):
        """'sat', 'unsat' or 'unknown'"""
        pc = [c for c in pc if not isinstance(c, bool)]
        ex = []
        for c in extra:
            if isinstance(c, bool):
                if not c:
                    return "unsat"
            else:
                ex.append(c)
        key = (tuple(gid(c) for c in pc), tuple(gid(c) for c in ex))
        r = self.cache.get(key)
        if r is not None:
            return r
        n = 0
        while n < len(self.stack) and n < len(pc) and self.stack[n] == gid(pc[n]):
            n += 1
        if n < len(self.stack):
            self.slv.pop(len(self.stack) - n)
            del self.stack[n:]
            del self.levels[n:]
        for c in pc[n:]:
            self.slv.push()
            self.slv.add(c)
            fs, sm = self.facts_of([c])
            for f in fs:
                self.slv.add(f)
            if sm:
                old = {a.get_id(): a for l in self.levels for a in l}
                sm = [a for a in sm if a.get_id() not in old]
                for f in self.pairs(sm, old.values()):
                    self.slv.add(f)
            self.stack.append(gid(c))
            self.levels.append(sm)
            self.keep.append(c)
        self.slv.push()
        for c in ex:
            self.slv.add(c)
            self.keep.append(c)
        if ex:
            fs, sm = self.facts_of(ex)
            for f in fs:
                self.slv.add(f)
            if sm:
                old = {a.get_id(): a for l in self.levels for a in l}
                for f in self.pairs([a for a in sm if a.get_id() not in old], old.values()):
                    self.slv.add(f)
        for f in self.extra:
            self.slv.add(f)
        import time
        t = time.time()
        r = str(self.slv.check())
        self.tsolve += time.time() - t
        self.nsolve += 1
        self.model = self.slv.model() if r == "sat" else None
        self.slv.pop()
        self.cache[key] = r
        return r

    def model_of(self, pc, extra=()):
        self.cache.pop((tuple(c.get_id() for c in pc if not isinstance(c, bool)), tuple(c.get_id() for c in extra if not isinstance(c, bool))), None)
        r = self.check(pc, extra)
        return self.model if r == "sat" else None

    # linear sums
    def linear(self, t):
        """t as (const, [(coef, atom)])"""
        if known(t):
            return int(t), []
        t = z3.simplify(t, som=True)
        c, at = 0, []
        parts = t.children() if z3.is_add(t) else [t]
        for p in parts:
            if z3.is_int_value(p):
                c += p.as_long()
            elif z3.is_mul(p) and p.num_args() == 2 and z3.is_int_value(p.arg(0)):
                at.append((p.arg(0).as_long(), p.arg(1)))
            elif z3.is_app(p) and p.decl().kind() == z3.Z3_OP_UMINUS:
                at.append((-1, p.arg(0)))
            else:
                at.append((1, p))
        return c, at

    def sum(self, g, k, n):
        """sum of g over k = 0 .. n-1"""
        c, at = self.linear(g)
        r = mul(c, n) if c else 0
        for co, a in at:
            if not self.mentions(a, k):
                try:
                    r = add(r, mul(co, mul(a, n)))
                    continue
                except Unsupported:
                    pass
            r = add(r, mul(co, self.sum_atom(a, k, n)))
        return r

    def mentions(self, t, k):
        return not known(t) and any(a.eq(k) for a in self.apps(t))

    def sum_atom(self, a, k, n):
        outer, seen, todo = [], {k.get_id()}, [a]
        while todo:             # in the order in which they occur
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith(("k!", "j!")):
                outer.append(x)
            todo += reversed(x.children())
        canon = [z3.Int(f"c!{i}") for i in range(len(outer) + 1)]
        ca = z3.substitute(a, (k, canon[0]), *[(o, canon[i + 1]) for i, o in enumerate(outer)])
        key = ca.get_id()
        self.keep.append(ca)
        d = self.sums.get(key)
        if d is None:
            name = f"SUM!{len(self.sums)}"
            d = z3.Function(name, *([z3.IntSort()] * (len(outer) + 2)))
            self.sums[key] = d
            self.sumdef[name] = (ca, canon)
            nn = self.check([], [ca < 0] ) == "unsat"

            if nn:
                self.nonneg.add(name)

            def fact(app, ca=ca, canon=canon, nn=nn, d=d):
                n_ = app.arg(0)
                rest = [app.arg(i) for i in range(1, app.num_args())]
                f = [z3.Implies(n_ <= 0, app == 0)]
                if nn:
                    f.append(app >= 0)
                if z3.is_const(n_) and not z3.is_int_value(n_) and n_.decl().name().startswith(("k!", "j!")):
                    inc = z3.substitute(ca, (canon[0], n_), *[(c, r) for c, r in zip(canon[1:], rest)])
                    f.append(d(n_ + 1, *rest) == app + inc)
                return f
            self.facts[name] = fact
        return d(zi(n), *outer)

    def has_sum(self, t):
        return not known(t) and any(a.decl().name().startswith(("SUM!", "MSIZE")) for a in self.apps(t))


class Form:
    """value of a leaf after k iterations"""
    def __init__(self, kind, v0, data=None):
        self.kind, self.v0, self.data = kind, v0, data
        self.grows = self.room = None


class Ex:
    def __init__(self, mod, lang, world=None):
        self.mod, self.lang = mod, lang
        self.w = world or World()
        self.heap, self.env, self.pc, self.ctr = {}, {}, [], 0
        self.idx = []
        self.dec, self.pos, self.todo, self.memo = [], 0, [], {}
        self.obls = []                # (label, status, pc, cond)
        self.assumed = set()
        self.depth = 0
        self.npaths = 0
        self.oblseen = {}
        self.frames = []
        self.untied = set()
        self.track = None
        self.onload = None            # told of every access
        self.defers = []

    # ---------------------------------------------------------------- state
    def save(self, kind=None, v=None):
        o = Out()
        o.kind, o.v, o.heap, o.env, o.pc, o.ctr, o.mark = kind, v, dict(self.heap), self.env, list(self.pc), self.ctr, None
        return o

    def restore(self, o):
        self.heap, self.env, self.pc, self.ctr = dict(o.heap), o.env, list(o.pc), o.ctr

    def fresh_name(self, p):
        self.ctr += 1
        return f"{p}!{self.ctr}"

    def fresh(self, p, lo=None, hi=None):
        n = self.fresh_name(p)
        return self.symbol(n, lo, hi)

    def symbol(self, n, lo=None, hi=None):
        d = z3.Function(n, *([z3.IntSort()] * (len(self.idx) + 1)))
        app = d(*self.idx)
        fs = lambda a, lo=lo, hi=hi: ([a >= lo] if lo is not None else []) + ([a <= hi] if hi is not None else [])
        self.w.facts[n] = fs
        return app

    def fresh_bool(self, p):
        t = self.fresh(p, 0, 1)
        return t == 1

    def new(self, v):
        self.ctr += 1
        loc = f"l{self.ctr}"
        if self.idx:
            loc += "@" + str(len(self.idx))
        self.heap[loc] = v
        return loc

    def bind(self, n, v):
        self.env = {**self.env, n: self.new(v)}

    # ---------------------------------------------------------------- decisions
    def choose(self, n):
        if n == 1:
            return 0
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
        else:
            d = 0
            for i in range(n - 1, 0, -1):
                self.todo.append(self.dec[:self.pos] + [i])
            self.dec.append(0)
        self.pos += 1
        return d

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise Infeasible()
            return
        self.pc.append(c)

    def proves(self, c):
        if isinstance(c, bool):
            return c
        return self.w.check(self.pc, [z3.Not(c)]) == "unsat"

    def proves_sum(self, c):
        """proves, with the partial sums up to the present iterations brought in if need be"""
        if self.proves(c):
            return True
        if not self.idx:
            return False
        ms = self.mentions()
        return bool(ms) and self.w.check(self.pc, ms + [z3.Not(c)]) == "unsat"

    def mentions(self):
        w, out, seen = self.w, [], set()
        todo = list(w.facts_of([c for c in self.pc if not isinstance(c, bool)])[1])
        while todo:
            a = todo.pop()
            if a.get_id() in seen:
                continue
            seen.add(a.get_id())
            if a.decl().name() not in w.nonneg:
                continue
            rest = [a.arg(i) for i in range(1, a.num_args())]
            at = {k.get_id() for k in self.idx[:len(rest)]}
            if len(rest) >= len(self.idx) or {x.get_id() for x in rest} != at:
                continue
            m = a.decl()(self.idx[len(rest)], *rest)
            if m.get_id() in seen:
                continue
            seen.add(m.get_id())
            out.append(m >= 0)
            w.keep.append(m)
            todo += w.facts_of([m])[1]
        return out

    def branch(self, c):
        if isinstance(c, B):
            c = c.t
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        nc = z3.simplify(z3.Not(c))
        t = self.w.check(self.pc, [c]) != "unsat"
        if not t:
            return False
        f = self.w.check(self.pc, [nc]) != "unsat"
        if not f:
            return True
        r = self.choose(2) == 0
        self.pc.append(c if r else nc)
        w = self.__dict__.get("watch")
        if w is not None and w[0] is self.heap.get("$in") and w[1] is self.heap.get("$out"):
            self.cmark = len(self.pc)
        return r

    def oblige(self, label, c, **kw):
        """c has to hold here; goes on assuming it"""
        if isinstance(c, B):
            c = c.t
        if isinstance(c, bool):
            st = "ok" if c else "fail"
            r = st
            cid = c
        else:
            c = z3.simplify(c)
            r = self.w.check(self.pc, [z3.Not(c)])
            st = {"unsat": "ok", "sat": "fail", "unknown": "unknown"}[r]
            cid = c.get_id()
        key = (label, cid, tuple(gid(x) for x in self.pc if not isinstance(x, bool)))
        if key not in self.oblseen:
            self.oblseen[key] = True
            self.obls.append(dict(label=label, status=st, pc=list(self.pc), cond=c, key=key, **kw))
        self.assume(c) if st != "fail" else self._assume_or_stop(c)

    def doubt(self, c, what):
        """c has to hold for the machinery to go on; not so here is no verdict, and a trial run may do so"""
        if not self.proves(c):
            self.obls.append(dict(label=what, status="unsupported", pc=list(self.pc), cond=c, key=("doubt", len(self.obls))))
            self.assume(c)

    def forget(self, n):
        """obligations of a trial run"""
        for o in self.obls[n:]:
            self.oblseen.pop(o["key"], None)
        del self.obls[n:]

    def _assume_or_stop(self, c):
        if isinstance(c, bool) or self.w.check(self.pc, [c]) == "unsat":
            raise Infeasible()
        self.pc.append(c)

    def explore(self, thunk, key=None):
        """every outcome of thunk from the present state"""
        mk = None
        if key is not None:
            mk = (key, tuple(self.dec[:self.pos]), self.ctr)
            if mk in self.memo:
                return self.memo[mk]
        base = self.save()
        keep = (self.dec, self.pos, self.todo, self.memo, self.idx, self.frames, self.defers, self.__dict__.get("cmark"), self.__dict__.get("watch"))
        outs = []
        self.todo, self.memo = [[]], {}
        fr, df = list(self.frames), list(self.defers)
        try:
            while self.todo:
                self.dec = self.todo.pop()
                self.pos = 0
                self.frames, self.defers = list(fr), list(df)
                self.restore(base)
                self.npaths += 1
                if self.npaths > MAXPATH:
                    raise Unsupported("too many paths")
                self.cmark = self.watch = None
                kind, v = "norm", None
                try:
                    v = thunk()
                except Infeasible:
                    continue
                except Ret as c:
                    kind, v = "ret", c.v
                except Brk as c:
                    kind, v = "brk", c.label
                except Cont as c:
                    kind, v = "cont", c.label
                except Thr as c:
                    kind, v = "thr", c.v
                except Crash as c:
                    kind, v = "crash", c.why
                except CondFalse:
                    kind = "exit"
                o = self.save(kind, v)
                o.mark = self.cmark
                outs.append(o)
        finally:
            self.dec, self.pos, self.todo, self.memo, self.idx, self.frames, self.defers, self.cmark, self.watch = keep
            self.restore(base)
        if mk:
            self.memo[mk] = outs
        return outs

    def resume(self, o):
        """go on from outcome o"""
        self.restore(o)
        if o.kind == "ret":
            raise Ret(o.v)
        if o.kind == "brk":
            raise Brk(o.v)
        if o.kind == "cont":
            raise Cont(o.v)
        if o.kind == "thr":
            raise Thr(o.v)
        if o.kind == "crash":
            raise Crash(o.v)
        return o.v

    # ---------------------------------------------------------------- memory
    def load(self, loc, path=()):
        if loc not in self.heap:
            raise Unsupported(f"use of released or unknown object {loc}")
        if self.track is not None:
            self.track.add(loc)
        if self.onload is not None:
            self.onload(loc, path)
        v = self.heap[loc]
        for i, p in enumerate(path):
            v = self.sel(v, p)
        return v

    def sel(self, v, p):
        if isinstance(v, Ref):
            v = self.load(v.loc, v.path)
        if isinstance(p, tuple):
            return self.at(v, p[1])
        if isinstance(v, St):
            if p not in v.f:
                raise Unsupported(f"no field {p} in {v.ty}")
            return v.f[p]
        r = self.lang.field(self, v, p)
        if r is None:
            raise Unsupported(f"field {p} of {v!r}")
        return r

    def at(self, v, i):
        """element i, known to be in range"""
        if isinstance(v, A):
            for wr in reversed(v.writes):
                if wr[0] == "one":
                    e = eq(wr[1], i)
                    if e is True or (e is not False and self.proves(e)):
                        return wr[2]
                    if e is False or self.proves(not_(e)):
                        continue
                    raise Unsupported("read of an array element that may have been written")
                _, K, k, alts = wr
                if self.proves(le(K, i)):
                    continue
                if self.proves(lt(i, K)):
                    if len(alts) == 1:
                        self.assume(subst(alts[0][0], k, i))
                        return subst(alts[0][1], k, i)
                    raise Unsupported("read of an alternative")
                raise Unsupported("read of an array partly written")
            return v.dflt(i)
        if isinstance(v, L):
            if known(i) and all(s[0] == "one" for s in v.segs):
                return v.segs[i][1]
            pos = 0
            for s in v.segs:
                n = 1 if s[0] == "one" else s[1]
                if self.proves(and_(le(pos, i), lt(i, add(pos, n)))):
                    o = sub(i, pos)
                    if s[0] == "one":
                        return s[1]
                    if s[0] == "sym":
                        return s[2](o)
                    alts = s[3]
                    if len(alts) == 1:
                        self.assume(subst(alts[0][0], s[2], o))
                        return subst(alts[0][1], s[2], o)
                    raise Unsupported("read of an alternative")
                pos = add(pos, n)
            raise Unsupported("list element not located")
        if isinstance(v, By) and v.els is not None:
            if known(i):
                return v.els[i]
        raise Unsupported(f"element of {v!r}")

    def store(self, loc, path, val):
        # follow references met on the way
        v = self.heap.get(loc)
        if loc not in self.heap:
            raise Unsupported("store into an unknown object")
        for i, p in enumerate(path):
            if isinstance(v, Ref):
                return self.store(v.loc, v.path + tuple(path[i:]), val)
            if i < len(path) - 1 or True:
                try:
                    v = self.sel(v, p) if i < len(path) - 1 else v
                except Unsupported:
                    raise
        self.heap[loc] = self.upd(self.heap[loc], tuple(path), val)

    def upd(self, v, path, val):
        if not path:
            return val
        p = path[0]
        if isinstance(p, tuple):
            i = p[1]
            new = self.upd(self.at(v, i), path[1:], val) if len(path) > 1 else val
            if isinstance(v, A):
                ws = v.writes
                if ws and ws[-1][0] == "one" and eq(ws[-1][1], i) is True:
                    ws = ws[:-1]
                return A(v.n, v.dflt, ws + (("one", i, new),), v.ty, v.tag)
            if isinstance(v, L) and known(i) and all(s[0] == "one" for s in v.segs):
                segs = list(v.segs)
                segs[i] = ("one", new)
                return L(segs, v.ty)
            if isinstance(v, L):
                pos = 0
                for x, s in enumerate(v.segs):
                    if s[0] == "one" and self.proves(eq(pos, i)):
                        return L(v.segs[:x] + (("one", new),) + v.segs[x + 1:], v.ty)
                    pos = add(pos, 1 if s[0] == "one" else s[1])
            if isinstance(v, By) and v.els is not None and known(i):
                els = list(v.els)
                els[i] = new
                return By(els=els)
            raise Unsupported("store into this kind of list")
        if isinstance(v, St):
            return v.set(p, self.upd(v.f.get(p), path[1:], val))
        raise Unsupported(f"store into field {p} of {v!r}")

    # ---------------------------------------------------------------- loops
    def summarise(self, key, iteration, count=None, label=None, steps=(), watched=False):
        """iteration(k) runs one iteration (raises CondFalse when the loop is over); continues by choosing an exit"""
        outs = self.explore(lambda: self._loop(key, iteration, count, label, steps, watched), key=("loop", key))
        if not outs:
            raise Infeasible()
        o = outs[self.choose(len(outs))]
        return self.resume(o)

    def _loop(self, key, iteration, count, label, steps=(), watched=False):
        exits = self._summary(key, iteration, count, label, steps, watched)
        if not exits:
            raise Infeasible()
        o = exits[self.choose(len(exits))]
        return self.resume(o)

    def _summary(self, key, iteration, count, label, steps=(), watched=False):
        mk = ("summary", key, tuple(self.dec[:self.pos]), self.ctr)
        if mk in self.memo:
            return self.memo[mk]
        entry = self.save()
        self.ctr += 1
        kn = f"k!{self.ctr}"
        k = z3.Int(kn)
        self.w.facts.setdefault(kn, lambda a: [a >= 0])
        # the step of the loop suggests how its counters go; the rounds below decide
        forms = {(loc, ()): Form("lin", entry.heap[loc], d) for loc, d in steps if isinstance(entry.heap.get(loc), I)}
        outer_idx = list(self.idx)
        nob = len(self.obls)
        untied, self.untied = self.untied, set()
        for rnd in range(10):
            self.forget(nob)
            self.restore(entry)
            self.ctr += 1
            self.idx = outer_idx + [k]
            self.apply(forms, k)
            if count is not None:
                self.pc.append(zi(k) < zi(count)) if not isinstance(lt(k, count), bool) else None
            start = self.save()

            def one():
                iteration(k)
                self.lang.after_iter(self, start)
                return None
            outs = self.explore(one)
            self.idx = outer_idx
            cont = [o for o in outs if o.kind == "norm"]
            nf, stable = self.derive(entry, start, cont, forms, k, len(start.pc), rnd)
            if DEBUG:
                print("   round", rnd, "paths", len(cont), "exits", len(outs) - len(cont), {str(l): (f.kind, str(f.data)[:DEBUG]) for l, f in nf.items()})
            if stable:
                break
            forms = nf
        else:
            self.untied = untied
            raise Unsupported("no loop invariant found")
        self.untied = untied
        self.idx = outer_idx
        res = []
        n0 = len(start.pc)
        pins = []
        for o in cont:
            cp = [c for c in o.pc[n0:(o.mark if o.mark is not None else n0)]]
            t = and_(*cp) if cp else True
            if not any(same(t, p) for p in pins):
                pins.append(t)
        kk = z3.Function("K" + kn, *([z3.IntSort()] * (len(outer_idx) + 1)))(*outer_idx)
        self.w.facts["K" + kn] = lambda a: [a >= 0]
        cands = []
        if count is not None:
            # the loop over a collection ends after count iterations
            self.restore(entry)
            self.ctr = start.ctr + 1
            self.apply(forms, count)
            if self.feasible():
                res.append(self.save("norm"))
        for o in outs:
            if o.kind == "norm":
                continue
            if o.kind == "exit" and not cont:
                o2 = self.sub_out(o, k, 0)
            else:
                o2 = o
            self.restore(o2)
            if o2 is o:
                if o.kind == "exit" or o.kind == "brk" and watched:
                    pin = or_(eq(k, 0), *[subst(p, k, k - 1) for p in pins])
                    if not isinstance(pin, bool):
                        self.pc.append(pin)
                    if self.w.check(self.pc) == "unsat":
                        continue
                    t = self.solve_k(k, self.pc[len(entry.pc):]) if o.kind == "exit" else None
                else:
                    t = None
                    if len(cont) == 0:
                        self.pc.append(k == 0)
                        t = 0
                    if self.w.check(self.pc) == "unsat":
                        continue
                o2 = self.sub_out(self.save(o.kind, o.v), k, kk if t is None else t)
                o2.pc = o2.pc[:len(entry.pc)] + ([] if t is None or known(t) else [zi(t) >= 0]) + o2.pc[len(entry.pc):]
            if o2.kind == "exit":
                o2.kind = "norm"
            if o2.kind == "brk" and (o2.v is None or o2.v == label):
                o2.kind = "norm"
            elif o2.kind == "cont" and o2.v == label:
                raise Unsupported("continue")
            o2.v = None if o2.kind == "norm" else o2.v
            o2.env = entry.env
            o2.pc = [c for c in o2.pc if not isinstance(c, bool)]
            res.append(o2)
        self.restore(entry)
        self.memo[mk] = res
        return res

    def feasible(self):
        return self.w.check(self.pc) != "unsat"

    def sub_out(self, o, k, t):
        r = Out()
        r.kind, r.env, r.ctr, r.mark = o.kind, o.env, o.ctr, None
        r.v = subst(o.v, k, t) if not isinstance(o.v, str) else o.v
        r.heap = {l: subst(v, k, t) for l, v in o.heap.items()}
        r.pc = [c if isinstance(c, bool) else (z3.substitute(c, (k, zi(t)))) for c in o.pc]
        return r

    def solve_k(self, k, cs):
        """a term t without k such that the path condition forces k = t"""
        atoms, todo, seen = [], list(cs), set()
        while todo:
            c = todo.pop()
            if isinstance(c, bool) or c.get_id() in seen:
                continue
            seen.add(c.get_id())
            if z3.is_and(c) or z3.is_or(c) or z3.is_not(c):
                todo += c.children()
            elif z3.is_app(c) and c.num_args() == 2 and z3.is_int(c.arg(0)):
                atoms.append(c)
        for a in atoms:
            try:
                c, at = self.w.linear(sub(a.arg(0), a.arg(1)))
            except Exception:
                continue
            co = [x for x, y in at if y.eq(k)]
            if len(co) != 1 or any(self.w.mentions(y, k) for x, y in at if not y.eq(k)):
                continue
            rest = add(c, *[mul(x, y) for x, y in at if not y.eq(k)])
            if abs(co[0]) == 1:
                t0 = mul(-co[0], rest)
                cs_ = [t0, add(t0, 1), add(t0, -1)]
            else:
                # |co| * k = -rest ; works if rest is a multiple syntactically
                q, ok = abs(co[0]), True
                parts = [(x, y) for x, y in at if not y.eq(k)]
                s = -1 if co[0] > 0 else 1
                if any(x % q for x, _ in parts):
                    continue
                b = add(*[mul(s * x // q, y) for x, y in parts])
                cs_ = [add(b, s * c // q), add(b, -(-s * c // q)), add(b, s * c // q + 1)]
            for t in cs_:
                if self.proves(eq(k, t)):
                    return t
        return None

    def apply(self, forms, k):
        for (loc, path), f in forms.items():
            self.heap[loc] = self.put(self.heap[loc], path, self.form_at(f, k))
            if getattr(f, "mono", False):
                # nothing was ever taken away (shown in the round before, and again in every further one)
                self.pc.append(zi(f.v0.t if isinstance(f.v0, I) else f.v0) <= zi(self.form_at(f, k).t if isinstance(f.v0, I) else self.form_at(f, k)))
            if f.kind == "fill" and f.data[2] is not None:
                n = self.form_at(f, k).n
                if f.grows:
                    self.pc.append(zi(f.v0.n) <= zi(n))
                if f.room:
                    self.pc.append(zi(k) <= zi(n))
            if loc == "$in" and path == ("cur",):
                # every read checks first that enough is left, so the cursor never passes the end
                s = self.heap[loc]
                self.pc.append(zi(s.cur) <= zi(s.end))

    def put(self, v, path, val):
        if not path:
            return val
        if isinstance(v, St):
            return v.set(path[0], self.put(v.f[path[0]], path[1:], val))
        if isinstance(v, Stream):
            return v.with_(**{path[0]: val})
        raise Unsupported("loop leaf")

    def get(self, v, path):
        for p in path:
            v = getattr(v, p) if isinstance(v, Stream) else v.f[p]
        return v

    def form_at(self, f, k):
        v0 = f.v0
        if f.kind == "lin":
            if isinstance(v0, I):
                return I(add(v0.t, mul(f.data, k)), v0.ty)
            return add(v0, mul(f.data, k))
        if f.kind == "acc":
            s = self.w.sum(f.data[0], f.data[1], k)
            return I(add(v0.t, s), v0.ty) if isinstance(v0, I) else add(v0, s)
        if f.kind == "ev":
            alts, j = f.data
            return tuple(v0) + (("rep", k, j, alts),)
        if f.kind == "push":
            alts, j = f.data
            return L(v0.segs + (("rep", k, j, alts),), v0.ty)
        if f.kind == "fill":
            alts, j, nn = f.data
            n = v0.n if nn is None else self.havoc_int(nn, k)
            return A(n, v0.dflt, v0.writes + ((("rep", k, j, alts),) if alts is not None else ()), v0.ty, v0.tag)
        if f.kind == "havoc":
            return self.havoc(v0, f.data, k)
        raise Unsupported(f.kind)

    def havoc_int(self, name, k):
        outer = [x for x in self.idx if not x.eq(k)] if not known(k) else self.idx
        d = z3.Function(name, *([z3.IntSort()] * (len(outer) + 2)))
        return d(*(list(outer) + [zi(k)]))

    def havoc(self, v0, name, k):
        app = self.havoc_int(name, k)
        if isinstance(v0, I) and name in self.w.facts:
            return I(app, v0.ty)
        if isinstance(v0, I):
            if v0.ty in RANGE:
                lo, hi = RANGE[v0.ty]
                self.w.facts[name] = lambda a: [a >= lo, a <= hi]
            return I(app, v0.ty)
        if isinstance(v0, B):
            return B(app == 1)
        return Un("changed by a loop")

    def diffs(self, loc, path, a, b, out):
        if a is b or same(a, b):
            return
        if isinstance(a, St) and isinstance(b, St) and a.ty == b.ty and a.f.keys() == b.f.keys():
            for n in a.f:
                self.diffs(loc, path + (n,), a.f[n], b.f[n], out)
            return
        if isinstance(a, Stream) and isinstance(b, Stream):
            if not same(a.cur, b.cur):
                out.add((loc, path + ("cur",)))
            if not same(a.ev, b.ev):
                out.add((loc, path + ("ev",)))
            return
        out.add((loc, path))

    def derive(self, entry, start, cont, forms, k, n0, rnd):
        leaves = set(forms)
        for o in cont:
            for loc, old in start.heap.items():
                if loc not in o.heap:
                    raise Unsupported("object released in a loop")
                self.diffs(loc, (), old, o.heap[loc], leaves)
        if not cont:
            return {}, True
        # a leaf inside a leaf
        nf, stable = {}, True
        guards = [and_(*o.pc[n0:]) if len(o.pc) > n0 else True for o in cont]
        for lf in sorted(leaves, key=str):
            loc, path = lf
            if any(l2 == loc and path[:len(p2)] == p2 and p2 != path for l2, p2 in leaves):
                continue
            if loc not in entry.heap:
                continue
            v0 = self.get(entry.heap[loc], path)
            old = self.get(start.heap[loc], path)
            news = [self.get(o.heap[loc], path) for o in cont]
            f = forms.get(lf)
            g = self.guess(lf, v0, old, news, guards, cont, k, f, n0)
            if g.kind == "havoc" and rnd < 2 and isinstance(v0, (A, L, tuple)):
                stable = False
                continue
            if g is f:
                g = Form(f.kind, f.v0, f.data)
                g.tries = getattr(f, "tries", 0)
            if g.kind == "acc" and isinstance(v0, (I, int, z3.ArithRef)):
                tv = lambda x: x.t if isinstance(x, I) else x
                s = self.w.sum(g.data[0], g.data[1], k)
                g.mono = self.w.check([], [zi(s) < 0]) != "unsat" and all(self.w.check(o.pc, [zi(tv(n)) < zi(tv(old))]) == "unsat" for o, n in zip(cont, news))
            if g.kind == "fill" and g.data[2] is not None:
                # it never gets smaller; it has room for what the iterations wrote
                ns = [n.n for n in news if isinstance(n, A)]
                holds = lambda c, o: self.w.check(o.pc, [z3.Not(zb(c))]) == "unsat"
                if len(ns) == len(news) and f is not None and f.kind == "fill" and f.data[2] is not None:
                    g.grows = f.grows is not False and all(holds(le(old.n, n), o) for o, n in zip(cont, ns))
                    g.room = f.room is not False and g.data[0] is not None and self.w.check(entry.pc, [zi(v0.n) < 0]) == "unsat" and all(holds(le(k + 1, n), o) for o, n in zip(cont, ns))
                    if f.grows != g.grows or f.room != g.room:
                        stable = False
            nf[lf] = g
            if f is None or f.kind != g.kind or not same(f.data, g.data) or getattr(f, "mono", False) != getattr(g, "mono", False):
                stable = False
        if set(nf) != set(forms):
            stable = False
        if not self.tie(entry, cont, nf, forms, k):
            stable = False
        return nf, stable

    def tie(self, entry, cont, nf, forms, k):
        """numbers that change in no regular way but stay equal to each other share a name; keeps what bounds them"""
        name = lambda f: f.data if f.kind == "havoc" else f.data[2] if f.kind == "fill" else None
        term = lambda v: v.t if isinstance(v, I) else v.n if isinstance(v, A) else None
        lv = [lf for lf, f in nf.items() if f.kind == "havoc" and isinstance(f.v0, I) or f.kind == "fill" and f.data[2] is not None]
        fl = [lf for lf in lv if nf[lf].kind == "fill"]
        if not fl:
            return True
        # a counter that starts as the length of such an array is taken to follow it until a round shows otherwise
        for lf, f in nf.items():
            if f.kind in ("acc", "lin") and isinstance(f.v0, I) and any(same(f.v0.t, nf[x].v0.n) and (lf, x) not in self.untied for x in fl) and not (f.kind == "lin" and known(f.data) and f.data == 1):
                lv.append(lf)
        groups = []
        for lf in sorted(lv, key=str):
            t0 = term(nf[lf].v0)
            ts = [term(self.get(o.heap[lf[0]], lf[1])) for o in cont]
            for g in groups:
                h = g[0][0]
                if not same(g[1], t0) or (lf, h) in self.untied:
                    continue
                was = name(forms[lf]) if lf in forms else None
                if was is not None and h in forms and name(forms[h]) == was:
                    if not all(a is not None and b is not None and (same(a, b) or self.w.check(o.pc, [zi(a) != zi(b)]) == "unsat") for a, b, o in zip(g[2], ts, cont)):
                        for x in g[0]:
                            self.untied |= {(lf, x), (x, lf)}
                        continue
                g[0].append(lf)
                break
            else:
                groups.append(([lf], t0, ts))
        fixed = True
        for ls, t0, ts in groups:
            nm = "E" + str(k) + "_" + str(ls[0]).replace(" ", "") + f"_{len(ls)}"
            lo, hi = 0, 1 << 48
            ok = all(t is not None and (o2 is None or True) for t, o2 in zip(ts, cont)) and self.w.check(entry.pc, [z3.Not(zb(and_(le(0, t0), le(t0, hi))))]) == "unsat" \
                and all(t is not None and self.w.check(o.pc, [z3.Not(zb(and_(le(0, t), le(t, hi))))]) == "unsat" for t, o in zip(ts, cont))
            if not any(nf[l].kind == "fill" for l in ls):
                for l in ls:
                    f = nf[l]
                    if f.kind == "havoc" and str(f.data).startswith("E"):
                        nf[l] = Form("havoc", f.v0, "H" + str(k) + "_" + str(l).replace(" ", ""))
                        fixed = False
                continue
            nm += "b" if ok else ""
            self.w.facts[nm] = (lambda a: [a >= 0, a <= hi]) if ok else (lambda a: [])
            for l in ls:
                f = nf[l]
                if name(f) != nm:
                    fixed = False
                    f = Form("havoc", f.v0, nm) if f.kind != "fill" else Form("fill", f.v0, (f.data[0], f.data[1], nm))
                    nf[l] = f
        return fixed

    def guess(self, lf, v0, old, news, guards, cont, k, f, n0):
        hv = lambda: Form("havoc", v0, f.data if f and f.kind == "havoc" else "H" + str(k) + "_" + str(sorted([lf], key=str)[0]).replace(" ", ""))
        if f and f.kind == "havoc":
            return f
        j = z3.Int("j" + str(k)[1:])
        self.w.facts.setdefault(str(j), lambda a: [a >= 0])
        sb = lambda x: subst(x, k, j)
        path = lf[1]
        num = isinstance(v0, I) and all(isinstance(n, I) for n in news) or (isinstance(v0, int) or isinstance(v0, z3.ArithRef)) and not isinstance(v0, bool)
        if num:
            tv = lambda x: x.t if isinstance(x, I) else x
            if isinstance(old, Un):
                return hv()
            deltas = [sub(tv(n), tv(old)) for n in news]
            d0 = deltas[0]
            if known(d0) and all(known(d) and d == d0 for d in deltas):
                return Form("lin", v0, d0)
            if not known(d0) and all(same(d, tv(old)) for d in deltas):
                return hv()                 # doubled
            # is the present form still right?
            if f and f.kind in ("lin", "acc"):
                if f.kind == "lin":
                    exp = f.data
                else:
                    exp = subst(f.data[0], f.data[1], k)
                if all(self.w.check(o.pc, [zi(d) != zi(exp)]) == "unsat" for o, d in zip(cont, deltas)):
                    return f
            if f is not None and f.kind == "acc" and getattr(f, "tries", 0) > 3:
                return hv()
            if any(self.w.mentions(d, a) for d in deltas for a in self.leafsyms(v0, old, k)):
                return hv()
            g = None
            cands = {}
            for d in deltas:
                cands.setdefault(d if known(d) else gid(d), d)
            for d in (list(cands.values()) if len(cands) <= 4 else []):
                if all(same(d, e) or self.w.check(o.pc, [zi(d) != zi(e)]) == "unsat" for o, e in zip(cont, deltas)):
                    g = d
                    break
            if g is not None:
                deltas = [g]
                d0 = g
            else:
                guards = self.telling(guards, deltas)
                g = deltas[-1]
                for gd, d in reversed(list(zip(guards, deltas))[:-1]):
                    g = ite(gd, d, g)
            if len(deltas) > 1 and not all(same(d, d0) for d in deltas):
                # one name for the increment: counters and cursors that move together stay comparable
                g = self.named_increment(guards, deltas, k)
            r = Form("acc", v0, (g, k))
            r.tries = getattr(f, "tries", 0) + 1 if f else 0
            return r
        if path and path[-1] == "ev" and isinstance(v0, tuple):
            alts = []
            for gd, n in zip(guards, news):
                if len(n) < len(old) or not same(n[:len(old)], old):
                    return hv()
                alts.append((sb(gd), sb(tuple(n[len(old):]))))
            return Form("ev", v0, (self.merged(alts), j))
        if isinstance(v0, L) and isinstance(old, L):
            alts = []
            for gd, n in zip(guards, news):
                if not isinstance(n, L) or len(n.segs) != len(old.segs) + 1 or n.segs[-1][0] != "one" or not same(n.segs[:len(old.segs)], old.segs):
                    return hv()
                alts.append((sb(gd), sb(n.segs[-1][1])))
            return Form("push", v0, (tuple(alts), j))
        if isinstance(v0, A) and isinstance(old, A):
            alts = []
            nn = None
            if all(isinstance(n, A) for n in news) and (f is not None and f.kind == "fill" and f.data[2] is not None or not all(same(n.n, old.n) for n in news)):
                nn = f.data[2] if f is not None and f.kind == "fill" and f.data[2] is not None else "N" + str(k) + "_" + str(lf).replace(" ", "")
                if all(same(n.writes, old.writes) for n in news):
                    return Form("fill", v0, (None, j, nn))
            for gd, n, o in zip(guards, news, cont):
                if not isinstance(n, A) or len(n.writes) != len(old.writes) + 1 or n.writes[-1][0] != "one" or not same(n.writes[:len(old.writes)], old.writes):
                    return hv()
                if self.w.check(o.pc, [zi(n.writes[-1][1]) != k]) != "unsat":
                    return hv()
                alts.append((sb(gd), sb(n.writes[-1][2])))
            return Form("fill", v0, (self.merged(alts), j, nn))
        return hv()

    def telling(self, guards, deltas):
        """of the guards only what does not depend on earlier iterations, if that still tells the ways apart"""
        out = []
        for g in guards:
            if isinstance(g, bool):
                return guards
            cs = [c for c in (g.children() if z3.is_and(g) else [g])
                  if not any(a.decl().name().startswith(("SUM!", "Ek!", "Hk!", "Nk!")) for a in self.w.apps(c))]
            out.append(and_(*cs))
        for i, a in enumerate(out):
            for j in range(i):
                if not same(deltas[i], deltas[j]) and self.w.check([], [zb(a), zb(out[j])]) != "unsat":
                    return guards
        return out

    def merged(self, alts):
        """ways that do the same are one way"""
        if len(alts) > 1 and all(same(a[1], alts[0][1]) for a in alts[1:]):
            g = or_(*[a[0] for a in alts])
            if not isinstance(g, bool) and self.w.check([], [z3.Not(g)]) == "unsat":
                g = True
            return ((g, alts[0][1]),)
        return tuple(alts)

    def leafsyms(self, v0, old, k):
        return []

    def named_increment(self, guards, deltas, k):
        key = ("inc", tuple(g.get_id() if not isinstance(g, bool) else g for g in guards), tuple(d if known(d) else d.get_id() for d in deltas))
        self.w.keep += [g for g in guards if not isinstance(g, bool)] + [d for d in deltas if not known(d)]
        g = deltas[-1]
        for gd, d in reversed(list(zip(guards, deltas))[:-1]):
            g = ite(gd, d, g)
        return g
