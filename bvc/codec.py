"""Specification side: symbolic protocol values, the tokens the documented layout gives them, their size, and comparison."""
import z3
from .vals import *
from .ex import Crash
from spec.proto import SIZES, NUM, RANGES

MAXLEN = 1 << 40


class PV:
    """a protocol value; kind num (t), str (h, n, ulen), list (n, fn), struct (m)"""
    def __init__(self, kind, t, **kw):
        self.kind, self.t = kind, t
        self.__dict__.update(kw)


def fn_symbol(ex, name, args, fact):
    d = z3.Function(name, *([z3.IntSort()] * (len(args) + 1)))
    ex.w.facts[name] = fact
    return d(*[zi(a) for a in args])


def make(ex, p, t, is_list, name, args=(), declared=True):
    """an unknown value of the type: every number an unknown in its range, every list of unknown length"""
    if is_list:
        hi = min(RANGES[p.lst][1], getattr(ex.lang, "maxlen", MAXLEN))
        n = fn_symbol(ex, name + ".len", args, lambda a: [a >= 0, a <= hi])
        return PV("list", t, n=n, fn=lambda i: make(ex, p, t, False, name + "[]", tuple(args) + (i,), declared))
    k = p.kind(t)
    if k == "string":
        hi = min(RANGES[p.sst][1], getattr(ex.lang, "maxlen", MAXLEN))
        h = fn_symbol(ex, name + ".h", args, lambda a: [])
        n = fn_symbol(ex, name + ".n", args, lambda a: [a >= 0, a <= hi])
        u = fn_symbol(ex, name + ".u", args, lambda a: [a >= 0, a <= z3.substitute(n, *[(zi(x), a.arg(i)) for i, x in enumerate(args) if not known(x)])] if not any(known(x) for x in args) else [a >= 0])
        return PV("str", t, h=h, n=n, u=u)
    if k == "struct":
        return PV("struct", t, m={m: make(ex, p, mt, l, name + "." + m, args, declared) for m, mt, l in p.st(t).members})
    if k == "enum":
        e = p.enums[t]
        lo, hi = RANGES[e.encoding]
        nums = e.numbers
        f = (lambda a: [z3.Or(*[a == v for v in nums])]) if declared else (lambda a: [a >= lo, a <= hi])
        return PV("num", t, v=fn_symbol(ex, name, args, f))
    if t == "bool":
        f = lambda a: [a >= 0, a <= 1]
    elif t in NUM:
        lo, hi = RANGES[t]
        f = lambda a: [a >= lo, a <= hi]
    else:
        m = (1 << (8 * SIZES[t])) - 1
        f = lambda a: [a >= 0, a <= m]
    return PV("num", t, v=fn_symbol(ex, name, args, f))


def width(p, t):
    return SIZES[p.enums[t].encoding] if t in p.enums else SIZES[t]


def toks(ex, p, v, lw=None):
    if v.kind == "num":
        return [("n", width(p, v.t), v.v)]
    if v.kind == "str":
        return [("n", SIZES[p.sst], v.n), ("s", v.h, v.n)]
    if v.kind == "struct":
        return [x for m in v.m.values() for x in toks(ex, p, m)]
    ex.ctr += 1
    j = z3.Int(f"j!s{ex.ctr}")
    ex.w.facts.setdefault(str(j), lambda a: [a >= 0])
    return [("n", SIZES[p.lst], v.n), ("rep", v.n, j, ((True, tuple(toks(ex, p, v.fn(j)))),))]


def size(ex, p, v):
    if v.kind == "num":
        return width(p, v.t)
    if v.kind == "str":
        return add(SIZES[p.sst], v.n)
    if v.kind == "struct":
        return add(*[size(ex, p, m) for m in v.m.values()]) if v.m else 0
    ex.ctr += 1
    j = z3.Int(f"k!s{ex.ctr}")
    ex.w.facts.setdefault(str(j), lambda a: [a >= 0])
    return add(SIZES[p.lst], ex.w.sum(size(ex, p, v.fn(j)), j, v.n))


def toklen(ex, ts):
    n = 0
    for t in ts:
        if t[0] == "n":
            n = add(n, t[1])
        elif t[0] == "s":
            n = add(n, t[2])
        elif t[0] == "msg":
            n = add(n, t[3])
        elif t[0] == "rep":
            _, K, j, alts = t
            ex.ctr += 1
            k = z3.Int(f"k!s{ex.ctr}")
            ex.w.facts.setdefault(str(k), lambda a: [a >= 0])
            if len(alts) == 1:
                n = add(n, ex.w.sum(toklen(ex, subst(alts[0][1], j, k)), k, K))
            elif alts:
                raise Unsupported("length of alternatives")
    return n


def normal(ts):
    """text constants as single bytes"""
    out = []
    for t in ts:
        if t[0] == "s" and isinstance(t[1], bytes):
            out += [("n", 1, b) for b in t[1]]
        elif t[0] == "rep" and known(t[1]) and t[1] == 0:
            pass
        else:
            out.append(bytes_rep(t) if t[0] == "rep" else t)
    return out


def bytes_rep(t):
    """the bytes of a text, one by one from the first on, are that text"""
    _, K, j, alts = t
    if len(alts) == 1 and len(alts[0][1]) == 1 and alts[0][1][0][0] == "n" and alts[0][1][0][1] == 1:
        x = alts[0][1][0][2]
        if not known(x) and z3.is_app(x) and x.decl().name() == "BYTE" and x.arg(1).eq(j):
            h = x.arg(0)
            if not z3.substitute(h, (j, j + 1)).eq(h):
                return t
            return ("s", h, K)
    return t


class Cmp:
    """records one obligation per token"""
    def __init__(self, ex, what):
        self.ex, self.what = ex, what
        self.res = []                 # dict(label, status, pc, cond)

    def prove(self, label, c, pc):
        w = self.ex.w
        if isinstance(c, bool):
            st = "ok" if c or w.check(pc) == "unsat" else "fail"
        else:
            st = {"unsat": "ok", "sat": "fail", "unknown": "unknown"}[w.check(pc, [z3.Not(c)])]
        self.res.append(dict(label=f"{self.what}: {label}", status=st, pc=list(pc), cond=c))
        return st == "ok"

    def entails(self, pc, c):
        if isinstance(c, bool):
            return c
        return self.ex.w.check(pc, [z3.Not(c)]) == "unsat"

    def compare(self, code, spec, pc, where=""):
        """the tokens of the code are those of the specification"""
        a, b = normal(code), normal(spec)
        i = j = 0
        n = 0
        while True:
            while i < len(a) and a[i][0] == "rep" and (j >= len(b) or b[j][0] != "rep") and self.entails(pc, eq(a[i][1], 0)):
                i += 1
            while j < len(b) and b[j][0] == "rep" and (i >= len(a) or a[i][0] != "rep") and self.entails(pc, eq(b[j][1], 0)):
                j += 1
            while i < len(a) and a[i][0] == "s" and (j >= len(b) or b[j][0] != "s") and self.entails(pc, eq(a[i][2], 0)):
                i += 1
            while j < len(b) and b[j][0] == "s" and (i >= len(a) or a[i][0] != "s") and self.entails(pc, eq(b[j][2], 0)):
                j += 1
            if i >= len(a) or j >= len(b):
                if i < len(a) or j < len(b):
                    self.prove(f"{where}token {n}: {'nothing more is' if j >= len(b) else 'everything is'} written", False, pc)
                    return False
                return True
            x, y = a[i], b[j]
            lab = f"{where}token {n}"
            n += 1
            if x[0] == "n" and y[0] == "n":
                wx, wy = x[1], y[1]
                vx, vy = x[2], y[2]
                xs, ys = [x], [y]
                i, j = i + 1, j + 1
                while wx != wy:
                    if wx < wy and i < len(a) and a[i][0] == "n":
                        xs.append(a[i])
                        wx += a[i][1]
                        i += 1
                    elif wy < wx and j < len(b) and b[j][0] == "n":
                        ys.append(b[j])
                        wy += b[j][1]
                        j += 1
                    else:
                        self.prove(lab + ": width", False, pc)
                        return False
                if not self.numeq(lab, xs, ys, wx, pc):
                    return False
            elif x[0] == "s" and y[0] == "s":
                if not self.prove(lab + ": text", and_(eq(x[1], y[1]), eq(x[2], y[2])), pc):
                    return False
                i, j = i + 1, j + 1
            elif x[0] == "msg" and y[0] == "msg":
                same_kind = x[1] == y[1] if x[1] is not None and y[1] is not None or x[1] is y[1] else self.ex.lang.is_kind(self.ex, x[1] or y[1], x[2])
                if not self.prove(lab + ": message", and_(same_kind, eq(x[2], y[2])), pc):
                    return False
                i, j = i + 1, j + 1
            elif x[0] == "rep" and y[0] == "rep":
                if not self.prove(lab + ": count", eq(x[1], y[1]), pc):
                    return False
                self.ex.ctr += 1
                k = z3.Int(f"k!c{self.ex.ctr}")
                self.ex.w.facts.setdefault(str(k), lambda q: [q >= 0])
                base = list(pc) + [zi(k) < zi(y[1])]
                for g1, t1 in x[3]:
                    for g2, t2 in y[3]:
                        gs = [g for g in (subst(g1, x[2], k), subst(g2, y[2], k)) if not isinstance(g, bool)]
                        p2 = base + gs
                        if (len(x[3]) > 1 or len(y[3]) > 1) and self.ex.w.check(p2) == "unsat":
                            continue
                        if not self.compare(subst(t1, x[2], k), subst(t2, y[2], k), p2, lab + ": element: "):
                            return False
                i, j = i + 1, j + 1
            else:
                self.prove(lab + f": kind {x[0]} for {y[0]}", False, pc)
                return False

    def numeq(self, lab, xs, ys, w, pc):
        if len(xs) == 1 and len(ys) == 1:
            c = eq(xs[0][2], ys[0][2])
            if c is True or self.entails(pc, c):
                return self.prove(lab + f" ({w} bytes)", c, pc)

        def val(ts):
            v, off = 0, 0
            for i, t in enumerate(ts):
                u = t[2] if i == len(ts) - 1 else modw(t[2], 8 * t[1], False)
                v = add(v, mul(1 << (8 * off), u))
                off += t[1]
            return v
        d = sub(val(xs), val(ys))
        c = d % (1 << (8 * w)) == 0 if not known(d) else d % (1 << (8 * w)) == 0
        return self.prove(lab + f" ({w} bytes)", c, pc)


def enums_in(ex, p, t, is_list, toks_, pc):
    """walk consumed tokens along the type: [(enum, term, path condition)], counts [(count term, min element size, tokens after)], complete?, tokens used, bytes at least missing"""
    out, counts = [], []
    ts = list(toks_)
    pos, miss = [0], [0]
    cm = Cmp(ex, "walk")

    class End(Exception):
        pass

    def num(w):
        if pos[0] >= len(ts) or ts[pos[0]][0] != "n":
            miss[0] = add(miss[0], w)
            raise End()
        x = ts[pos[0]]
        pos[0] += 1
        if x[1] == w:
            return x[2]
        v, got = modw(x[2], 8 * x[1], False), x[1]
        while got < w:
            if pos[0] >= len(ts) or ts[pos[0]][0] != "n":
                miss[0] = add(miss[0], w - got)
                raise End()
            y = ts[pos[0]]
            pos[0] += 1
            v = add(v, mul(1 << (8 * got), modw(y[2], 8 * y[1], False)))
            got += y[1]
        if got != w:
            raise End()
        return v

    def one(t, pc):
        k = p.kind(t)
        if k == "enum":
            out.append((p.enums[t], num(width(p, t)), list(pc)))
        elif k == "num":
            num(width(p, t))
        elif k == "string":
            n = num(SIZES[p.sst])
            counts.append((n, 1, p.sst))
            if pos[0] < len(ts) and ts[pos[0]][0] == "s":
                got = ts[pos[0]][2]
                pos[0] += 1
                if not cm.entails(pc, eq(got, n)):
                    miss[0] = add(miss[0], sub(n, got))
                    raise End()
            elif cm.entails(pc, eq(n, 0)):
                pass
            else:
                miss[0] = add(miss[0], n)
                raise End()
        else:
            ms = list(p.st(t).members)
            for i, (_, mt, l) in enumerate(ms):
                try:
                    many(mt, pc) if l else one(mt, pc)
                except End:
                    for _, t2, l2 in ms[i + 1:]:
                        miss[0] = add(miss[0], SIZES[p.lst] if l2 else minsize(p, t2))
                    raise

    def many(t, pc):
        n = num(SIZES[p.lst])
        ms = minsize(p, t)
        counts.append((n, ms, p.lst))
        if pos[0] < len(ts) and ts[pos[0]][0] == "rep":
            r = ts[pos[0]]
            pos[0] += 1
            if cm.entails(pc, eq(r[1], n)) :
                return
            done = r[1]
        elif cm.entails(pc, eq(n, 0)):
            return
        else:
            done = 0
        miss[0] = add(miss[0], mul(ms, sub(sub(n, done), 1)))
        one(t, pc)
        raise End()
    done = True
    try:
        many(t, pc) if is_list else one(t, pc)
    except End:
        done = False
    return out, counts, done, pos[0], miss[0]


def minsize(p, t):
    k = p.kind(t)
    if k in ("num", "enum"):
        return width(p, t)
    if k == "string":
        return SIZES[p.sst]
    return sum(SIZES[p.lst] if l else minsize(p, mt) for _, mt, l in p.st(t).members)


def default(ex, p, t, is_list=False):
    if is_list:
        return PV("list", t, n=0, fn=lambda i: make(ex, p, t, False, "none", (i,)))
    k = p.kind(t)
    if k == "string":
        return PV("str", t, h=b"", n=0, u=0)
    if k == "struct":
        return PV("struct", t, m={m: default(ex, p, mt, l) for m, mt, l in p.st(t).members})
    if k == "enum":
        return PV("num", t, v=p.enums[t].default)
    return PV("num", t, v=0)
