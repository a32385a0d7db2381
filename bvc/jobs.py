"""Obligations of one function of one generated module."""
import time, traceback
import z3
from .vals import *
from .ex import *
from .interp import Interp
from . import codec
from spec.proto import SIZES, RANGES

BIG = 1 << 62


class Mod:
    def __init__(self, d):
        self.__dict__.update(d)
        for k in ("funcs", "methods", "types", "consts"):
            if not hasattr(self, k):
                setattr(self, k, {})


class Job:
    def __init__(self, lang, kind, t=None, arg=None):
        self.lang, self.kind, self.t, self.arg = lang, kind, t, arg
        self.obls = []                # dict(prop, label, status, pc, cond, model)
        self.meta = None

    def add(self, props, label, status, pc=(), cond=None):
        self.obls.append(dict(props=props, label=label, status=status, pc=pc, cond=cond, meta=self.meta))

    def run(self):
        self.t0 = time.time()
        L = self.lang
        L.target = (self.kind[4:], self.t) if self.kind.startswith("own_") else (self.kind, self.t)
        L.p = L.proto
        ex = Interp(L.mod, L, World())
        self.ex = ex
        self.unsupported = None
        self.paths = 0
        try:
            getattr(self, "j_" + self.kind)(ex)
            self.meta = None
            for o in ex.obls:
                if o["status"] == "unsupported":
                    self.unsupported = o["label"]
                    continue
                self.add(o.get("props") or L.trap_props(self.kind), o["label"], o["status"], o["pc"], o["cond"])
        except Unsupported as e:
            self.unsupported = str(e)
        except RecursionError:
            self.unsupported = "recursion"
        except z3.Z3Exception as e:
            if __import__("os").environ.get("BVC_DEBUG"): traceback.print_exc()
            self.unsupported = "solver: " + str(e)[:200]
        self.time = time.time() - self.t0
        return self

    # ---------------------------------------------------------------- set-up
    def setup_out(self, ex):
        c0 = ex.symbol("pos0", 0, self.lang.maxpos)
        end = ex.symbol("end", 0, self.lang.maxpos) if self.lang.bounded_out else None
        ex.heap["$out"] = Stream("out", c0, c0, end, ())
        ex.heap["$bad"] = ()

    def setup_in(self, ex):
        c0 = ex.symbol("pos0", 0, self.lang.maxpos)
        end = ex.symbol("end", 0, self.lang.maxpos)
        ex.heap["$in"] = Stream("in", c0, c0, end, ())
        ex.heap["$bad"] = ()
        ex.pc.append(c0 <= end)

    def outcomes(self, ex, thunk):
        outs = ex.explore(thunk)
        self.paths = len(outs)
        if not outs:
            raise Unsupported("no feasible path")
        return outs

    def take(self, cmp, props):
        for r in cmp.res:
            self.add(props, r["label"], r["status"], r["pc"], r["cond"])

    def fail(self, props, label, pc):
        st = "fail" if self.ex.w.check(pc) != "unsat" else "ok"
        self.add(props, label, st, list(pc), False)

    # ---------------------------------------------------------------- writers
    def j_write(self, ex):
        L, p, t = self.lang, self.lang.p, self.t
        for tag in ((False, True) if t in p.messages else (False,)):
            ex.heap, ex.env, ex.pc, ex.ctr = {}, {}, [], 0
            self.setup_out(ex)
            pv = codec.make(ex, p, t, False, "v")
            spec = codec.toks(ex, p, pv)
            n = codec.size(ex, p, pv)
            c0 = ex.heap["$out"].start
            ex.pc.append(zi(add(c0, n, 1)) <= L.maxpos)
            if L.bounded_out:           # the buffer has just room for it
                ex.pc.append(zi(add(c0, n, int(tag))) <= zi(ex.heap["$out"].end))
            v = L.inject(ex, pv)
            self.meta = ("write", pv, tag)
            for o in self.outcomes(ex, lambda: L.do_write(ex, t, v, tag)):
                w = f"write({'tag' if tag else 'no tag'})"
                ex.restore(o)
                if o.kind not in ("norm", "ret") or self.failed(o.v):
                    self.fail(["C01", "C03"], f"{w}: writing a valid value fails ({o.kind} {o.v})", o.pc)
                    continue
                if ex.heap["$bad"]:
                    self.fail(["C01"], f"{w}: {ex.heap['$bad']}", o.pc)
                cm = codec.Cmp(ex, w)
                got = codec.normal(ex.heap["$out"].ev)
                if tag:
                    self.add(["C10", "C01"], f"{w}: the first byte is the identifier {p.msg_ids[t]}", *self.decide(ex, got and got[0][0] == "n" and got[0][1] == 1 and eq(got[0][2], p.msg_ids[t]), o.pc))
                    spec_ = [("n", 1, p.msg_ids[t])] + spec
                else:
                    spec_ = spec
                cm.compare(got, spec_, o.pc)
                self.take(cm, ["C01", "C02", "C19"])
                self.add(["C18"], f"{w}: the position ends after the last byte written", *self.decide(ex, and_(eq(ex.heap["$out"].cur, add(c0, n, 1 if tag else 0)), eq(L.position(ex, "$out"), ex.heap["$out"].cur)), o.pc))

    def failed(self, v):
        return isinstance(v, tuple) and len(v) == 2 and v[0] == "fail"

    def decide(self, ex, c, pc):
        if c is None or isinstance(c, list):
            c = False
        if isinstance(c, bool):
            return ("ok" if c or ex.w.check(pc) == "unsat" else "fail"), list(pc), c
        return {"unsat": "ok", "sat": "fail", "unknown": "unknown"}[ex.w.check(pc, [z3.Not(c)])], list(pc), c

    def j_size(self, ex):
        L, p, t = self.lang, self.lang.p, self.t
        pv = codec.make(ex, p, t, False, "v")
        n = codec.size(ex, p, pv)
        ex.pc.append(zi(n) <= L.maxpos) if not known(n) else None
        v = L.inject(ex, pv)
        self.meta = ("size", pv)
        for o in self.outcomes(ex, lambda: L.do_size(ex, t, v)):
            if o.kind not in ("norm", "ret"):
                self.fail(["C03"], f"size: {o.kind} {o.v}", o.pc)
                continue
            ex.restore(o)
            st, pc, c = self.decide(ex, eq(o.v, n), o.pc)
            if st == "fail" and self.merge_sums(ex):
                st, pc, c = self.decide(ex, eq(o.v, n), o.pc)
            self.add(["C03", "C19"], "size: equals the length of the encoding", st, pc, c)

    def merge_sums(self, ex):
        """sums over provably equal terms are equal"""
        w = ex.w
        ds = list(w.sumdef.items())
        added = False
        for i, (n1, (a1, c1)) in enumerate(ds):
            for n2, (a2, c2) in ds[:i]:
                if len(c1) == len(c2) == 1 and w.check([], [c1[0] >= 0, a1 != a2]) == "unsat":
                    x = z3.Int("mx")
                    d1 = z3.Function(n1, z3.IntSort(), z3.IntSort())
                    d2 = z3.Function(n2, z3.IntSort(), z3.IntSort())
                    w.extra.append(z3.ForAll([x], d1(x) == d2(x)))
                    added = True
        if added:
            w.cache.clear()
        return added

    # ---------------------------------------------------------------- readers
    def j_read(self, ex):
        L, p, t = self.lang, self.lang.p, self.t
        self.setup_in(ex)
        for o in self.outcomes(ex, lambda: L.do_read(ex, t)):
            ex.restore(o)
            s = ex.heap["$in"]
            self.meta = ("read", list(s.ev), s.cur, s.end)
            bad = ex.heap["$bad"]
            if o.kind == "crash":
                self.fail(["C04", "C05"], f"read: crashes: {o.v}", o.pc)
                continue
            if o.kind == "thr":
                o.v = ("fail", o.v)
            elif o.kind not in ("norm", "ret"):
                raise Unsupported("outcome " + o.kind)
            res, val = o.v
            if res == "ok":
                if set(bad) == {"utf8"}:        # no property says what a text that is not UTF-8 gives
                    continue
                if bad:
                    self.fail(["C04"], f"read: succeeds after {bad[-1]}", o.pc)
                    continue
                pc = list(o.pc)
                boolfacts = self.bool_facts(ex, t, s.ev, pc)
                cm = codec.Cmp(ex, "read")
                cm.compare(L.enc(ex, val, t, False), self.expect(ex, t, s.ev), pc + boolfacts)
                self.take(cm, ["C02", "C19"] + (["C05"] if L.enum_read else []))
                ens, counts, done, used, miss = codec.enums_in(ex, p, t, False, codec.normal(s.ev), pc)
                if not done or used != len(codec.normal(s.ev)):
                    self.fail(["C02", "C18"], "read: consumes exactly one encoding", pc)
                else:
                    self.add(["C02", "C18"], "read: consumes exactly one encoding", "ok")
                if not L.enum_read:
                    self.check_enums(ex, t, s.ev, pc)
                self.add(["C02", "C18"], "read: the position ends after the last byte", *self.decide(ex, and_(eq(s.cur, add(s.start, codec.toklen(ex, s.ev))), eq(L.position(ex, "$in"), s.cur)), pc))
                continue
            # refused: there has to be a reason
            ref = L.reported(ex, t, val)
            if bad:
                self.add(["C04"], f"read: fails because of {bad[-1]}", "ok")
                if ref is not None:
                    self.add(["C04"], f"read: what is cut short {ref[1]}", *self.decide(ex, ref[0], o.pc))
                continue
            if ref is not None:
                self.add(["C04", "C05"], f"read: what is refused {ref[1]}", *self.decide(ex, ref[0], o.pc))
            ens, counts, done, used, miss = codec.enums_in(ex, p, t, False, codec.normal(s.ev), o.pc)
            why = []
            for e, term, _ in ens:
                if not L.enum_read:
                    why.append(and_(*[not_(eq(term, v)) for v in e.numbers]))
            for n, ms, ty in counts:
                why.append(lt(n, 0))
            why.append(lt(sub(s.end, s.start), add(codec.toklen(ex, s.ev), miss)))
            self.add(["C05", "C02"], "read: refuses only what is not an encoding", *self.decide(ex, or_(*why) if why else False, o.pc))

    def expect(self, ex, t, ev):
        """the tokens of the value that reading has to give"""
        L, p = self.lang, self.lang.p
        if not L.enum_read or not self.has_enum(t):
            return list(ev)
        for e in self.enums_of(t):
            self.add(["C05"], f"read: the number of {e}._Unknown is not declared", *self.decide(ex, L.unknown_of(ex, e) not in p.enums[e].numbers, []))
        ts = list(codec.normal(ev))
        pos = 0
        out = []

        def num(w):
            nonlocal pos
            if pos >= len(ts) or ts[pos][0] != "n" or ts[pos][1] != w:
                raise IndexError
            pos += 1
            return ts[pos - 1]

        def one(t):
            nonlocal pos
            k = p.kind(t)
            if k == "enum":
                x = num(codec.width(p, t))
                out.append(("n", x[1], L.enum_read(ex, t, x[2])))
            elif k == "num":
                out.append(num(codec.width(p, t)))
            elif k == "string":
                out.append(num(SIZES[p.sst]))
                if pos < len(ts) and ts[pos][0] == "s":
                    out.append(ts[pos])
                    pos += 1
            else:
                for _, mt, l in p.st(t).members:
                    if not l:
                        one(mt)
                        continue
                    out.append(num(SIZES[p.lst]))
                    if pos < len(ts) and ts[pos][0] == "rep":
                        _, K, j, alts = ts[pos]
                        pos += 1
                        out.append(("rep", K, j, tuple((g, tuple(self.expect(ex, mt, q))) for g, q in alts)))
        try:
            one(t)
        except IndexError:
            raise Unsupported("numbers read piecewise")
        return out + ts[pos:]

    def enums_of(self, t):
        p = self.lang.p
        if t in p.enums:
            return {t}
        if p.kind(t) in ("num", "string"):
            return set()
        return set().union(*[self.enums_of(mt) for _, mt, _ in p.st(t).members]) if p.st(t).members else set()

    def has_enum(self, t):
        return bool(self.enums_of(t))

    def walk_bools(self, ex, t, is_list, ts, out):
        pass

    def bool_facts(self, ex, t, ev, pc):
        """bytes read as bool are 0 or 1 in what a writer writes"""
        out = []

        def go(ts):
            for x in ts:
                if x[0] == "n" and x[1] == 1 and not known(x[2]):
                    pass
                elif x[0] == "rep":
                    for g, q in x[3]:
                        go(q)
        go(ev)
        names = self.bool_terms(ex, t, False, list(codec.normal(ev)))
        self.ex.boolnames = names
        for d in names:
            f = self.ex.w.facts.get(d)
            self.ex.w.facts[d] = lambda a: [a >= 0, a <= 1]
        ex.w.cache.clear()
        ex.w.f1.clear()
        if ex.w.stack:
            ex.w.slv.pop(len(ex.w.stack))
            ex.w.stack.clear()
            ex.w.levels.clear()
        return out

    def bool_terms(self, ex, t, is_list, ts):
        """names of the symbols read at bool positions"""
        p = self.lang.p
        names = set()
        pos = 0

        def take(w):
            nonlocal pos
            got = 0
            first = None
            while got < w:
                if pos >= len(ts) or ts[pos][0] != "n":
                    raise IndexError
                first = first if first is not None else ts[pos]
                got += ts[pos][1]
                pos += 1
            return first

        def one(t):
            nonlocal pos
            k = p.kind(t)
            if k in ("num", "enum"):
                x = take(codec.width(p, t))
                if t == "bool" and not known(x[2]):
                    for a in ex.w.apps(x[2]):
                        if a.decl().name().startswith(("r!", "b!")):
                            names.add(a.decl().name())
            elif k == "string":
                take(SIZES[p.sst])
                if pos < len(ts) and ts[pos][0] == "s":
                    pos += 1
            else:
                for _, mt, l in p.st(t).members:
                    if l:
                        take(SIZES[p.lst])
                        if pos < len(ts) and ts[pos][0] == "rep":
                            for g, q in ts[pos][3]:
                                names.update(self.bool_terms(ex, mt, False, list(codec.normal(q))))
                            pos += 1
                    else:
                        one(mt)
        try:
            one(t)
        except IndexError:
            pass
        return names

    def check_enums(self, ex, t, ev, pc, where="read"):
        p = self.lang.p

        def inside(t, ts, pc):
            ens, _, _, _, _ = codec.enums_in(ex, p, t, False, codec.normal(ts), pc)
            for e, term, _ in ens:
                self.add(["C05"], f"{where}: the number accepted for enum {e.name} is declared", *self.decide(ex, or_(*[eq(term, v) for v in e.numbers]), pc))
            reps(t, False, list(codec.normal(ts)), pc)

        def reps(t, is_list, ts, pc):
            pos = 0

            def num(w):
                nonlocal pos
                got = 0
                while got < w and pos < len(ts) and ts[pos][0] == "n":
                    got += ts[pos][1]
                    pos += 1

            def one(t):
                nonlocal pos
                k = p.kind(t)
                if k in ("num", "enum"):
                    num(codec.width(p, t))
                elif k == "string":
                    num(SIZES[p.sst])
                    if pos < len(ts) and ts[pos][0] == "s":
                        pos += 1
                else:
                    for _, mt, l in p.st(t).members:
                        if l:
                            num(SIZES[p.lst])
                            if pos < len(ts) and ts[pos][0] == "rep":
                                _, K, j, alts = ts[pos]
                                pos += 1
                                ex.ctr += 1
                                k = z3.Int(f"k!e{ex.ctr}")
                                ex.w.facts.setdefault(str(k), lambda a: [a >= 0])
                                for g, q in alts:
                                    g = subst(g, j, k)
                                    inside(mt, subst(q, j, k), pc + [zi(k) < zi(K)] + ([] if isinstance(g, bool) else [g]))
                        else:
                            one(mt)
            one(t)
        inside(t, ev, list(pc))

    # ---------------------------------------------------------------- the rest
    def j_default(self, ex):
        L, p, t = self.lang, self.lang.p, self.t
        for o in self.outcomes(ex, lambda: L.do_default(ex, t)):
            if o.kind not in ("norm", "ret"):
                self.fail(["C09"], f"default: {o.kind} {o.v}", o.pc)
                continue
            ex.restore(o)
            cm = codec.Cmp(ex, "default")
            cm.compare(L.enc(ex, o.v, t, False), codec.toks(ex, p, codec.default(ex, p, t)), o.pc)
            self.take(cm, ["C09"])
            if not cm.res:
                self.add(["C09"], "default: nothing to hold", "ok")

    def j_id(self, ex):
        L, p, t = self.lang, self.lang.p, self.t
        for o in self.outcomes(ex, lambda: L.do_id(ex, t)):
            if o.kind not in ("norm", "ret"):
                self.fail(["C10"], f"id: {o.kind} {o.v}", o.pc)
                continue
            ex.restore(o)
            self.add(["C10"], f"id: is {p.msg_ids[t]}", *self.decide(ex, eq(o.v, p.msg_ids[t]), o.pc))

    def j_packsize(self, ex):
        L = self.lang
        n = ex.symbol("count", 0, L.maxcount)
        lst = L.msg_list(ex, n)
        k = z3.Int("k!p")
        ex.w.facts["k!p"] = lambda a: [a >= 0]
        d = z3.Function("MH", z3.IntSort(), z3.IntSort())
        spec = add(9, n, ex.w.sum(L.msg_size(ex, Msg(None, d(k))), k, n))
        ex.pc.append(zi(spec) <= L.maxpos)
        for o in self.outcomes(ex, lambda: L.do_packed_size(ex, lst)):
            if o.kind not in ("norm", "ret"):
                self.fail(["C07"], f"packed size: {o.kind} {o.v}", o.pc)
                continue
            ex.restore(o)
            self.add(["C07"], "packed size: 9 + the tagged messages", *self.decide(ex, eq(o.v, spec), o.pc))

    def j_pack(self, ex):
        L = self.lang
        self.setup_out(ex)
        n = ex.symbol("count", 0, L.maxcount)
        lst = L.msg_list(ex, n)
        j = z3.Int("j!p")
        k = z3.Int("k!p")
        ex.w.facts["j!p"] = ex.w.facts["k!p"] = lambda a: [a >= 0]
        d = z3.Function("MH", z3.IntSort(), z3.IntSort())
        m = Msg(None, d(j))
        spec = [("n", 1, b) for b in b"BSCI"] + [("n", 4, n), ("rep", n, j, ((True, (("n", 1, L.msg_tag(ex, m)), ("msg", None, m.k, L.msg_size(ex, m)))),)), ("n", 1, 0)]
        size = add(9, n, ex.w.sum(L.msg_size(ex, Msg(None, d(k))), k, n))
        c0 = ex.heap["$out"].start
        ex.pc.append(zi(add(c0, size)) <= L.maxpos)
        if L.bounded_out:
            ex.pc.append(zi(add(c0, size)) <= zi(ex.heap["$out"].end))
        for o in self.outcomes(ex, lambda: L.do_pack(ex, lst)):
            ex.restore(o)
            if o.kind not in ("norm", "ret") or self.failed(o.v):
                self.fail(["C07"], f"pack: {o.kind} {o.v}", o.pc)
                continue
            cm = codec.Cmp(ex, "pack")
            cm.compare(ex.heap["$out"].ev, spec, o.pc)
            self.take(cm, ["C07"])

    def j_process(self, ex):
        L, p = self.lang, self.lang.p
        for case in ("any", "some"):
            ex.heap, ex.env, ex.pc, ex.ctr = {}, {}, [], 0
            self.setup_in(ex)
            if case == "any":
                mx = -1
            else:
                mx = ex.symbol("max", 0, (1 << 31) - 1)
            for o in self.outcomes(ex, lambda: L.do_process(ex, mx)):
                ex.restore(o)
                self.process_outcome(ex, o, mx, f"process({'no limit' if case == 'any' else 'limit'})")

    def messages_of(self, ex, v):
        """(K, j, [(guard, Msg)]) of a list of messages"""
        L = self.lang
        v = ex.deref(v)
        if v is NULL:
            return []
        if isinstance(v, A) and known(v.n) and v.n == 0:
            return []
        if not isinstance(v, L_):
            raise Unsupported(f"list of messages {v!r}")
        return [s for s in v.segs if not (s[0] == "rep" and known(s[1]) and s[1] == 0)]

    def altkey(self, q, j):
        return tuple((t[0], t[1]) + tuple(x if not z3.is_expr(x) else x.get_id() for x in t[2:3]) for t in q) + (j.get_id(),)

    def process_outcome(self, ex, o, mx, w):
        L, p = self.lang, self.lang.p
        if o.kind == "crash":
            self.fail(["C06"], f"{w}: crashes: {o.v}", o.pc)
            return
        if o.kind == "thr":
            o.v = ("fail", o.v)
        res, val = o.v
        s = ex.heap["$in"]
        bad = ex.heap["$bad"]
        ev = [t for t in codec.normal(s.ev)]
        K, pos = 0, 0
        rep = None
        if ev and ev[0][0] == "rep":
            rep = ev[0]
            K, pos = rep[1], 1
        more = or_(lt(mx, 0), lt(K, mx))
        if rep:
            _, K, j, alts = rep
            ex.ctr += 1
            k = z3.Int(f"k!q{ex.ctr}")
            ex.w.facts.setdefault(str(k), lambda a: [a >= 0])
            seen = self.__dict__.setdefault("repseen", {})
            for g, q in alts:
                qk = self.altkey(q, j)
                if qk in seen:
                    continue
                g, q = subst(g, j, k), codec.normal(subst(q, j, k))
                pc = ([] if isinstance(g, bool) else [g])
                ok = len(q) == 2 and q[0][0] == "n" and q[0][1] == 1 and q[1][0] == "msg" and q[1][1] in p.msg_ids
                if ok and self.decide(ex, eq(q[0][2], p.msg_ids[q[1][1]]), pc)[0] == "ok":
                    seen[qk] = q
                pc = o.pc + [zi(k) < zi(K)] + ([] if isinstance(g, bool) else [g])
                ok = len(q) == 2 and q[0][0] == "n" and q[0][1] == 1 and q[1][0] == "msg" and q[1][1] in p.msg_ids
                self.add(["C06", "C10"], f"{w}: one tag and its message per round", *self.decide(ex, eq(q[0][2], p.msg_ids[q[1][1]]) if ok else False, pc))
        tail = ev[pos:]
        if res == "ok":
            cut = L.stops and bad == ("sub",) and tail and tail[0][0] == "n" and tail[0][1] == 1
            if cut:
                self.add(["C06"], f"{w}: ends with an unreadable message", *self.decide(ex, more, o.pc))
            elif bad:
                if not (bad[-1] == "short" and L.eof_by_failed_read and len(bad) == 1):
                    self.fail(["C06"], f"{w}: succeeds after {bad[-1]}", o.pc)
                    return
            segs = self.messages_of(ex, val)
            if rep is None:
                self.add(["C06"], f"{w}: no messages", *self.decide(ex, not segs, o.pc))
            else:
                ok = len(segs) == 1 and segs[0][0] == "rep"
                if not ok and not segs:
                    self.add(["C06"], f"{w}: the messages", *self.decide(ex, eq(K, 0), o.pc))
                elif not ok:
                    self.fail(["C06"], f"{w}: the messages", o.pc)
                else:
                    self.add(["C06"], f"{w}: as many as were read", *self.decide(ex, eq(segs[0][1], K), o.pc))
                    pairs = len(segs[0][3]) == len(rep[3]) and all(same(subst(a[0], segs[0][2], k), subst(b[0], rep[2], k)) for a, b in zip(segs[0][3], rep[3]))
                    for i1, (g1, m) in enumerate(segs[0][3]):
                        if pairs and self.altkey(rep[3][i1][1], rep[2]) in self.__dict__.setdefault("elemseen", {}):
                            continue
                        for g2, q in ([rep[3][i1]] if pairs else rep[3]):
                            g = [x for x in (subst(g1, segs[0][2], k), subst(g2, rep[2], k)) if not isinstance(x, bool)]
                            pc = o.pc + [zi(k) < zi(K)] + g
                            if not pairs and len(rep[3]) > 1 and ex.w.check(pc) == "unsat":
                                continue
                            q2 = codec.normal(subst(q, rep[2], k))
                            m2 = L.as_msg(ex, subst(m, segs[0][2], k))
                            okm = isinstance(m2, Msg) and len(q2) == 2 and q2[1][0] == "msg" and m2.h == q2[1][1]
                            if okm and eq(m2.k, q2[1][2]) is True:
                                if self.altkey(q, rep[2]) not in self.__dict__.setdefault("elemseen", {}):
                                    self.elemseen[self.altkey(q, rep[2])] = q
                                    self.add(["C06"], f"{w}: in order, each as it was read", "ok")
                                continue
                            self.add(["C06"], f"{w}: in order, each as it was read", *self.decide(ex, eq(m2.k, q2[1][2]) if okm else False, pc))
            if cut:
                pass
            elif not tail:
                why = or_(eq(s.cur, s.end), and_(le(0, mx), eq(K, mx)))
                self.add(["C06"], f"{w}: stops at the end or at the maximum", *self.decide(ex, why, o.pc))
            elif len(tail) == 1 and tail[0][0] == "n" and tail[0][1] == 1:
                self.add(["C06"], f"{w}: stops at a zero tag", *self.decide(ex, and_(or_(eq(tail[0][2], 0), and_(L.stops, or_(lt(tail[0][2], 0), lt(len(p.messages), tail[0][2])))), more), o.pc))
            else:
                self.fail(["C06"], f"{w}: stops for no reason", o.pc)
            return
        if bad and bad[-1] == "alloc":
            self.add(["C06"], f"{w}: fails for want of memory", "ok")
            return
        if not tail or tail[0][0] != "n" or tail[0][1] != 1:
            self.fail(["C06"], f"{w}: fails before a tag", o.pc)
            return
        b = tail[0][2]
        if bad and bad[-1] in ("sub", "alloc"):
            self.add(["C06"], f"{w}: fails with an unreadable message", *self.decide(ex, more, o.pc))
        else:
            self.add(["C06", "C10"], f"{w}: fails at an unknown tag only", *self.decide(ex, and_(more, or_(lt(b, 0), lt(len(p.messages), b))), o.pc))

    def j_dispatch(self, ex):
        """functions that find out what kind of message they are given"""
        L = self.lang
        for tag in (None, False, True):
            ex.heap, ex.env, ex.pc, ex.ctr = {}, {}, [], 0
            self.setup_out(ex)
            m = Msg(None, ex.symbol("mh"))
            n, c0 = L.msg_size(ex, m), ex.heap["$out"].start
            ex.pc.append(zi(add(c0, n, 1)) <= L.maxpos)
            if L.bounded_out:
                ex.pc.append(zi(add(c0, n, 1)) <= zi(ex.heap["$out"].end))
            for o in self.outcomes(ex, lambda: L.do_dispatch_size(ex, m) if tag is None else L.do_dispatch_write(ex, m, tag)):
                ex.restore(o)
                w = "dispatched size" if tag is None else f"dispatched write({'tag' if tag else 'no tag'})"
                props = ["C03"] if tag is None else ["C01", "C10"]
                if o.kind not in ("norm", "ret") or self.failed(o.v):
                    self.fail(props, f"{w}: {o.kind} {o.v}", o.pc)
                elif tag is None:
                    self.add(props, f"{w}: that of the message", *self.decide(ex, eq(o.v, n), o.pc))
                else:
                    cm = codec.Cmp(ex, w)
                    cm.compare(ex.heap["$out"].ev, ([("n", 1, L.msg_tag(ex, m))] if tag else []) + [("msg", None, m.k, n)], o.pc)
                    self.take(cm, props)

    def j_unpack(self, ex):
        L = self.lang
        self.setup_in(ex)
        for o in self.outcomes(ex, lambda: L.do_unpack(ex)):
            ex.restore(o)
            if o.kind == "crash":
                self.fail(["C08"], f"unpack: crashes: {o.v}", o.pc)
                continue
            if o.kind == "thr":
                o.v = ("fail", o.v)
            res, val = o.v
            s, bad = ex.heap["$in"], ex.heap["$bad"]
            ev = list(codec.normal(s.ev))
            # header
            hb, cnt, i = [], None, 0
            got = 0
            v = 0
            vals = []
            while i < len(ev) and ev[i][0] == "n" and got < 8:
                vals.append((got, ev[i][1], ev[i][2]))
                got += ev[i][1]
                i += 1
            marker = True
            count = None
            mk = [x for x in vals if x[0] < 4]
            word = int.from_bytes(b"BSCI", "little")
            # what has been read of the marker is right
            marker = and_(*[eq(modw(t, 8 * wd, False), word >> (8 * off) & ((1 << (8 * wd)) - 1)) for off, wd, t in mk if off + wd <= 4])
            whole = sum(x[1] for x in mk) == 4
            ck = [x for x in vals if x[0] >= 4]
            if sum(x[1] for x in ck) == 4:
                tot = 0
                for off, wd, t in ck:
                    tot = add(tot, mul(1 << (8 * (off - 4)), modw(t, 8 * wd, False)))
                count = tot
            proc = ev[i] if i < len(ev) and ev[i][0] == "proc" else None
            if res == "ok":
                if bad:
                    self.fail(["C08"], f"unpack: succeeds after {bad[-1]}", o.pc)
                    continue
                if count is None or not whole:
                    self.fail(["C08"], "unpack: succeeds without reading the header", o.pc)
                    continue
                self.add(["C08", "C07"], "unpack: accepts the marker only", *self.decide(ex, marker, o.pc))
                segs = self.messages_of(ex, val)
                if proc is None:
                    self.add(["C07", "C08"], "unpack: an empty container gives an empty list", *self.decide(ex, and_(eq(count, 0), not segs), o.pc))
                else:
                    self.add(["C07", "C08"], "unpack: as many messages as declared", *self.decide(ex, eq(proc[1], count), o.pc))
                    okl = len(segs) == 1 and segs[0][0] == "rep" and eq(segs[0][1], proc[1])
                    if not segs:
                        okl = eq(proc[1], 0)
                    self.add(["C07"], "unpack: gives all of them", *self.decide(ex, okl, o.pc))
                continue
            if bad:
                self.add(["C08"], f"unpack: fails because of {bad[-1]}", "ok")
                continue
            why = []
            if marker is not True:
                why.append(not_(marker))
            if count is None:
                why.append(lt(sub(s.end, s.start), 8))
            else:                       # every message has at least its tag
                why.append(lt(sub(s.end, s.start), add(8, count)))
            if proc is not None and count is not None:
                why.append(not_(eq(proc[1], count)))
            self.add(["C08", "C07"], "unpack: refuses only malformed containers", *self.decide(ex, or_(*why) if why else False, o.pc))

    # ---------------------------------------------------------------- C11: ownership, and no access outside the objects
    def safe(self, ex, thunk, where):
        L = self.lang
        L.okind = self.kind[4:]
        bad = 0
        n = 0
        for o in self.outcomes(ex, thunk):
            n += 1
            if o.kind == "crash":
                bad += 1
                self.fail(["C11"], f"{where}: {o.v}", o.pc)
            elif o.kind == "thr":
                raise Unsupported("outcome thr")
        if not bad:
            self.add(["C11"], f"{where}: every path stays inside the objects it may use", "ok")

    def fresh_run(self, ex, stream):
        ex.heap, ex.env, ex.pc, ex.ctr = {}, {}, [], 0
        (self.setup_out if stream == "out" else self.setup_in)(ex)

    def j_own_read(self, ex):
        self.setup_in(ex)
        self.safe(ex, lambda: self.lang.own_read(ex, self.t), "read")

    def j_own_default(self, ex):
        self.setup_in(ex)
        self.safe(ex, lambda: self.lang.own_create(ex, self.t), "create")

    def j_own_process(self, ex):
        for case in ("any", "some"):
            self.fresh_run(ex, "in")
            mx = -1 if case == "any" else ex.symbol("max", 0, (1 << 31) - 1)
            self.safe(ex, lambda: self.lang.own_process(ex, mx), "process")

    def j_own_unpack(self, ex):
        self.setup_in(ex)
        self.safe(ex, lambda: self.lang.own_unpack(ex), "unpack")

    def j_own_destroy(self, ex):
        L = self.lang
        for f in ("Cleanup", "Destroy"):
            self.fresh_run(ex, "in")
            self.safe(ex, lambda: L.own_destroy(ex, self.t, f), f)

    def j_own_destroylist(self, ex):
        self.setup_in(ex)
        self.safe(ex, lambda: self.lang.own_destroylist(ex), "destroy list")

    def j_own_destroyany(self, ex):
        self.setup_in(ex)
        self.safe(ex, lambda: self.lang.own_destroyany(ex), "destroy")

    def j_own_write(self, ex):
        L, p, t = self.lang, self.lang.p, self.t
        for tag in ((False, True) if t in p.messages else (False,)):
            self.fresh_run(ex, "out")       # a buffer of any size
            pv = codec.make(ex, p, t, False, "v")
            ex.pc.append(zi(add(ex.heap["$out"].start, codec.size(ex, p, pv), 1)) <= L.maxpos)
            v = L.inject(ex, pv)
            self.safe(ex, lambda: L.do_write(ex, t, v, tag), "write")

    def j_own_size(self, ex):
        L, p, t = self.lang, self.lang.p, self.t
        pv = codec.make(ex, p, t, False, "v")
        n = codec.size(ex, p, pv)
        ex.pc.append(zi(n) <= L.maxpos) if not known(n) else None
        v = L.inject(ex, pv)
        self.safe(ex, lambda: L.do_size(ex, t, v), "size")

    def own_container(self, ex):
        L = self.lang
        self.fresh_run(ex, "out")
        n = ex.symbol("count", 0, L.maxcount)
        lst = L.msg_list(ex, n)
        k = z3.Int("k!p")
        ex.w.facts["k!p"] = lambda a: [a >= 0]
        d = z3.Function("MH", z3.IntSort(), z3.IntSort())
        size = add(9, n, ex.w.sum(L.msg_size(ex, Msg(None, d(k))), k, n))
        ex.pc.append(zi(add(ex.heap["$out"].start, size)) <= L.maxpos)
        return lst

    def j_own_pack(self, ex):
        lst = self.own_container(ex)
        self.safe(ex, lambda: self.lang.do_pack(ex, lst), "pack")

    def j_own_packsize(self, ex):
        lst = self.own_container(ex)
        self.safe(ex, lambda: self.lang.do_packed_size(ex, lst), "packed size")

    def j_own_dispatch(self, ex):
        L = self.lang
        for tag in (None, False, True):
            self.fresh_run(ex, "out")
            m = Msg(None, ex.symbol("mh"))
            ex.pc.append(zi(add(ex.heap["$out"].start, L.msg_size(ex, m), 1)) <= L.maxpos)
            self.safe(ex, lambda: L.do_dispatch_size(ex, m) if tag is None else L.do_dispatch_write(ex, m, tag), "dispatch")


from .vals import L as L_


def jobs_for(lang):
    p = lang.proto
    out = []
    for t in p.structs:
        out += [("write", t), ("read", t), ("default", t)]
    for t in p.messages:
        out += [("write", t), ("read", t), ("size", t), ("default", t), ("id", t)]
    out += [("packsize", None), ("pack", None), ("process", None), ("unpack", None)]
    if getattr(lang, "dispatch", False):
        out.append(("dispatch", None))
    out = [j for j in out if lang.has(*j)]
    if lang.name_ == "c":
        out += [("own_" + k, t) for k, t in out if k != "id"]
        out += [("own_destroy", t) for t in p.messages] + [("own_destroylist", None), ("own_destroyany", None)]
    return out
