"""Values and terms of the symbolic executor.  A term is a Python int/bool when it is known, else a z3 expression."""
import z3

RANGE = {}
for b in (8, 16, 32, 64, 128):
    RANGE[f"u{b}"] = (0, (1 << b) - 1)
    RANGE[f"i{b}"] = (-(1 << (b - 1)), (1 << (b - 1)) - 1)
RANGE["usize"] = RANGE["u64"]
RANGE["isize"] = RANGE["i64"]
BITS = {k: (64 if k.endswith("size") else int(k[1:])) for k in RANGE}
SIGNED = {k: k[0] == "i" for k in RANGE}
FREE = ("lit", "num", "big", "ring")    # not machine integers; ring: a representative modulo 2^32


class Unsupported(Exception):
    pass


class I:
    __slots__ = ("t", "ty")

    def __init__(self, t, ty="lit"):
        if isinstance(t, bool):
            t = int(t)
        self.t, self.ty = t, ty

    def __repr__(self):
        return f"I({self.t},{self.ty})"


class B:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"B({self.t})"


class F:
    """a floating point number, known by its bit pattern only"""
    __slots__ = ("t", "w")

    def __init__(self, t, w):
        self.t, self.w = t, w

    def __repr__(self):
        return f"F{self.w}({self.t})"


class S:
    """a string: a handle (z3 Int or bytes) and the length of its UTF-8 form"""
    __slots__ = ("h", "n", "ulen")

    def __init__(self, h, n=None, ulen=None):
        self.h = h
        self.n = len(h) if isinstance(h, bytes) else n
        self.ulen = ulen

    def __repr__(self):
        return f"S({self.h},{self.n})"


class By:
    """bytes: els (list of I) or the UTF-8 form of the string with handle h"""
    __slots__ = ("els", "h", "n")

    def __init__(self, els=None, h=None, n=None):
        self.els = tuple(els) if els is not None else None
        self.h = h
        self.n = len(els) if els is not None else n

    def __repr__(self):
        return f"By({self.els or self.h},{self.n})"


class L:
    """a list: segments ('one', v) | ('rep', K, k, [(guard, v)]) | ('sym', n, fn)"""
    __slots__ = ("segs", "ty")

    def __init__(self, segs=(), ty=None):
        self.segs, self.ty = tuple(segs), ty

    @property
    def n(self):
        return add(*[1 if s[0] == "one" else s[1] for s in self.segs])

    def push(self, v):
        return L(self.segs + (("one", v),), self.ty)

    def __repr__(self):
        return f"L{self.segs}"


class A:
    """an array of n elements: dflt(i) unless written; writes: newest last, ('one', idx, v) | ('rep', K, k, [(guard, v)])
    (the latter writes element k for every k < K)"""
    __slots__ = ("n", "dflt", "writes", "ty", "tag")

    def __init__(self, n, dflt, writes=(), ty=None, tag=None):
        self.n, self.dflt, self.writes, self.ty, self.tag = n, dflt, tuple(writes), ty, tag

    def __repr__(self):
        return f"A(n={self.n},{self.writes})"


class St:
    __slots__ = ("ty", "f")

    def __init__(self, ty, f):
        self.ty, self.f = ty, f

    def set(self, n, v):
        d = dict(self.f)
        d[n] = v
        return St(self.ty, d)

    def __repr__(self):
        return f"{self.ty}{self.f}"


class En:
    """a variant with payload: Ok(v), Err(e), Some(v), Message::X(m)"""
    __slots__ = ("ty", "v", "p")

    def __init__(self, ty, v, p=()):
        self.ty, self.v, self.p = ty, v, tuple(p)

    def __repr__(self):
        return f"{self.ty}::{self.v}{self.p}"


class Ref:
    __slots__ = ("loc", "path")

    def __init__(self, loc, path=()):
        self.loc, self.path = loc, tuple(path)

    def __repr__(self):
        return f"&{self.loc}{list(self.path)}"


class Null:
    def __repr__(self):
        return "null"


NULL = Null()


class Un:
    """undefined or abstracted; using it is not supported"""
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f"Un({self.why})"


class Ty:
    __slots__ = ("n", "a")

    def __init__(self, n, a=()):
        self.n, self.a = n, tuple(a)

    def __repr__(self):
        return f"Ty({self.n}{list(self.a) or ''})"


class Fn:
    __slots__ = ("n", "self_", "extra")

    def __init__(self, n, self_=None, extra=None):
        self.n, self.self_, self.extra = n, self_, extra

    def __repr__(self):
        return f"Fn({self.n})"


class Er:
    """an error value; cause is why it arose: (kind, ...)"""
    __slots__ = ("cause", "ty")

    def __init__(self, cause, ty=None):
        self.cause, self.ty = cause, ty

    def __repr__(self):
        return f"Er{self.cause}"


class Msg:
    """some message, known only by its type name h (None: any) and its handle k"""
    __slots__ = ("h", "k")

    def __init__(self, h, k):
        self.h, self.k = h, k

    def __repr__(self):
        return f"Msg({self.h},{self.k})"


class Stream:
    """ghost state of an input or output: cur is the position reached, ev the tokens read or written so far"""
    __slots__ = ("kind", "start", "cur", "end", "ev")

    def __init__(self, kind, start, cur, end, ev=()):
        self.kind, self.start, self.cur, self.end, self.ev = kind, start, cur, end, tuple(ev)

    def with_(self, **k):
        s = Stream(self.kind, self.start, self.cur, self.end, self.ev)
        for a, b in k.items():
            setattr(s, a, b)
        return s

    def __repr__(self):
        return f"Stream({self.kind},{self.cur},{self.ev})"


class Buf:
    """a view of the memory of a stream: bytes base .. base+n of it"""
    __slots__ = ("loc", "base", "n", "kind")

    def __init__(self, loc, base, n, kind=None):
        self.loc, self.base, self.n, self.kind = loc, base, n, kind

    def __repr__(self):
        return f"Buf({self.loc},{self.base},{self.n})"


# ------------------------------------------------------------------ terms
def known(t):
    return isinstance(t, (int, bool))


def zi(t):
    return z3.IntVal(t) if isinstance(t, int) else t


def zb(t):
    return z3.BoolVal(t) if isinstance(t, bool) else t


def add(*ts):
    c, r = 0, None
    for t in ts:
        if known(t):
            c += t
        else:
            r = t if r is None else r + t
    if r is None:
        return c
    return r if c == 0 else z3.simplify(r + c)


def sub(a, b):
    if known(a) and known(b):
        return a - b
    if known(b) and b == 0:
        return a
    r = z3.simplify(zi(a) - zi(b))
    return r.as_long() if z3.is_int_value(r) else r


def mul(a, b):
    if known(a) and known(b):
        return a * b
    if known(a):
        a, b = b, a
    if known(b):
        return 0 if b == 0 else a if b == 1 else z3.simplify(a * b)
    raise Unsupported("product of two unknowns")


def eq(a, b):
    if known(a) and known(b):
        return a == b
    if not known(a) and not known(b) and a.eq(b):
        return True
    return zi(a) == zi(b)


def lt(a, b):
    if known(a) and known(b):
        return a < b
    return zi(a) < zi(b)


def le(a, b):
    if known(a) and known(b):
        return a <= b
    if not known(a) and not known(b) and a.eq(b):
        return True
    return zi(a) <= zi(b)


def not_(a):
    return (not a) if isinstance(a, bool) else z3.Not(a)


def and_(*a):
    r = []
    for x in a:
        if isinstance(x, bool):
            if not x:
                return False
        else:
            r.append(x)
    return True if not r else r[0] if len(r) == 1 else z3.And(*r)


def or_(*a):
    r = []
    for x in a:
        if isinstance(x, bool):
            if x:
                return True
        else:
            r.append(x)
    return False if not r else r[0] if len(r) == 1 else z3.Or(*r)


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if known(a) and known(b) and a == b:
        return a
    return z3.If(c, zi(a), zi(b))


def modw(t, bits, signed):
    m = 1 << bits
    if known(t):
        t %= m
        return t - m if signed and t >= m // 2 else t
    if signed:
        return (t + m // 2) % m - m // 2
    return t % m


FREE_OF = {}                            # (id of alternatives, variable): known not to mention it


def subst(v, k, to):
    """value or tokens with the index variable k replaced"""
    if v is None or isinstance(v, (int, bool, str, bytes)):
        return v
    if isinstance(v, z3.ExprRef):
        return z3.substitute(v, (k, zi(to)))
    if isinstance(v, I):
        return I(subst(v.t, k, to), v.ty)
    if isinstance(v, B):
        return B(subst(v.t, k, to))
    if isinstance(v, F):
        return F(subst(v.t, k, to), v.w)
    if isinstance(v, S):
        return S(subst(v.h, k, to), subst(v.n, k, to), subst(v.ulen, k, to))
    if isinstance(v, By):
        return By(els=[subst(x, k, to) for x in v.els]) if v.els is not None else By(h=subst(v.h, k, to), n=subst(v.n, k, to))
    if isinstance(v, (tuple, list)):
        if len(v) == 4 and isinstance(v[0], str) and v[0] == "rep":
            key = (id(v[3]), k.get_id())
            if key in FREE_OF:
                alts = v[3]
            else:
                alts = subst(v[3], k, to)
                if same(alts, v[3]):
                    FREE_OF[key] = alts = v[3]
            return ("rep", subst(v[1], k, to), v[2], alts)
        return type(v)(subst(x, k, to) for x in v)
    if isinstance(v, St):
        return St(v.ty, {a: subst(b, k, to) for a, b in v.f.items()})
    if isinstance(v, En):
        return En(v.ty, v.v, [subst(x, k, to) for x in v.p])
    if isinstance(v, L):
        return L([subst(s, k, to) for s in v.segs], v.ty)
    if isinstance(v, A):
        d = v.dflt
        return A(subst(v.n, k, to), (lambda i, d=d: subst(d(i), k, to)), subst(v.writes, k, to), v.ty, v.tag)
    if callable(v) and not isinstance(v, (Fn, Ty)):
        return lambda *a, f=v: subst(f(*a), k, to)
    if isinstance(v, Msg):
        return Msg(v.h, subst(v.k, k, to))
    if isinstance(v, Ref):
        return type(v)(v.loc, subst(v.path, k, to))
    if isinstance(v, Stream):
        return Stream(v.kind, v.start, subst(v.cur, k, to), v.end, subst(v.ev, k, to))
    if isinstance(v, Buf):
        return Buf(v.loc, subst(v.base, k, to), subst(v.n, k, to), v.kind)
    if isinstance(v, Er):
        return v
    return v


_x = [0]


def same_fn(f, g):
    """functions of an index, compared at an arbitrary one"""
    _x[0] += 1
    try:
        x = z3.Int(f"$x{_x[0]}")
        return same(f(x), g(x))
    finally:
        _x[0] -= 1


def same(a, b):
    """syntactically the same value"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, (int, bool, str, bytes)):
        return a == b
    if isinstance(a, I):
        return a.ty == b.ty and same(a.t, b.t)
    if isinstance(a, B):
        return same(a.t, b.t)
    if isinstance(a, F):
        return same(a.t, b.t)
    if isinstance(a, S):
        return same(a.h, b.h)
    if isinstance(a, By):
        return same(a.els, b.els) and same(a.h, b.h)
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, St):
        return a.ty == b.ty and a.f.keys() == b.f.keys() and all(same(a.f[x], b.f[x]) for x in a.f)
    if isinstance(a, En):
        return a.v == b.v and same(a.p, b.p)
    if isinstance(a, L):
        return same(a.segs, b.segs)
    if isinstance(a, A):
        return same(a.n, b.n) and same(a.writes, b.writes) and (a.dflt is b.dflt or same_fn(a.dflt, b.dflt))
    if isinstance(a, Ref):
        return a.loc == b.loc and same(a.path, b.path)
    if isinstance(a, Stream):
        return same(a.cur, b.cur) and same(a.ev, b.ev)
    if isinstance(a, Buf):
        return a.loc == b.loc and same(a.base, b.base) and same(a.n, b.n)
    if isinstance(a, (Fn, Ty)):
        return a.n == b.n
    if isinstance(a, Msg):
        return a.h == b.h and same(a.k, b.k)
    return False
