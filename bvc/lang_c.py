"""C.  Memory: what a pointer owns is kept where the pointer is (strings, arrays); other pointers are references to places."""
from .langbase import *

LIM = 1 << 47
SIZE = {"i8": 1, "u8": 1, "bool": 1, "i16": 2, "u16": 2, "i32": 4, "u32": 4, "f32": 4, "i64": 8, "u64": 8, "f64": 8}


class Raw:
    """allocated memory not used yet"""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"Raw({self.n})"


class CStr(S):
    """characters in memory of cap bytes"""
    __slots__ = ("cap",)

    def __init__(self, h, n, cap):
        super().__init__(h, n, None)
        self.cap = cap


class Fwd(Ref):
    """where an object went when a pointer to it was stored"""


class Bytes:
    """the bytes of an object"""
    __slots__ = ("ref",)

    def __init__(self, ref):
        self.ref = ref


INLINE = (A, S, By, St, Msg, L, Raw)


class C(BufLang):
    name_ = "c"
    maxpos = LIM
    dispatch = True

    def __init__(self, proto):
        super().__init__(proto)
        self.ns = proto.namespace or "beschi"

    # ---- types
    def under(self, t):
        """representation of a type"""
        if isinstance(t, list) and t[0] == "enum":
            vs = self.mod.types[t[1]]["values"].values()
            lo, hi = min(vs), max(vs)
            if lo >= 0:
                return "u32" if hi < 1 << 32 else "u64"
            return "i32" if lo >= -(1 << 31) and hi < 1 << 31 else "i64"
        return t

    def sizeof(self, t):
        return self.layout(t)[0]

    def layout(self, t):
        t = self.under(t)
        if isinstance(t, str):
            if t not in SIZE:
                raise Unsupported(f"size of {t}")
            return SIZE[t], SIZE[t]
        if t[0] == "ptr":
            return 8, 8
        if t[0] == "array":
            s, a = self.layout(t[1])
            return s * t[2], a
        if t[0] == "rec":
            o, al = 0, 1
            for f in self.mod.types[t[1]]["fields"]:
                s, a = self.layout(f["t"])
                o = (o + a - 1) // a * a + s
                al = max(al, a)
            return (o + al - 1) // al * al, al
        raise Unsupported(f"size of {t}")

    def blank(self, ex, t, zero):
        t = self.under(t)
        if isinstance(t, list) and t[0] == "rec":
            return St(t[1], {f["n"]: self.blank(ex, f["t"], zero) for f in self.mod.types[t[1]]["fields"]})
        if isinstance(t, list) and t[0] == "array":
            return A(t[2], lambda i: self.blank(ex, t[1], zero))
        if not zero:
            return Un("uninitialised memory")
        if isinstance(t, list):
            return NULL
        if t == "bool":
            return B(False)
        if t in ("f32", "f64"):
            return F(0, SIZE[t])
        return I(0, t)

    def zero(self, ex, t):
        return self.blank(ex, t, False)

    def coerce(self, ex, v, t):
        return v

    def retype(self, ex, v, old):
        return v

    def truth(self, ex, v):
        if isinstance(v, I):
            return not_(eq(v.t, 0))
        if isinstance(v, Null):
            return False
        if isinstance(v, (Ref, Buf, S, A)):
            return True
        raise Unsupported(f"condition {v!r}")

    def enum_type(self, t):
        n = self.typename(t)
        return self.under(["enum", n])

    def typename(self, t):
        for q in self.mod.types:
            if norm(q) == norm(self.ns + "_" + t):
                return q
        raise Unsupported("no declaration of " + t)

    def num_value(self, ex, t, v):
        if t in ("float", "double", "bool"):
            return super().num_value(ex, t, v)
        return I(v, self.enum_type(t) if t in self.p.enums else MACH[t])

    # ---- conversions
    def e_ccast(self, ex, e):
        c, t = e["c"], self.under(e["t"])
        v = ex.ev(e["x"])
        if c == "ToVoid":
            return None
        if c == "NullToPointer":
            return NULL
        if c in ("IntegralToBoolean", "PointerToBoolean"):
            return v if isinstance(v, B) else B(ex.truth(v))
        if c == "IntegralCast":
            if isinstance(v, B):
                return v if t == "bool" else I(ite(v.t, 1, 0), t)
            if isinstance(v, I) and t in RANGE:
                return self.convert(ex, v, t)
            raise Unsupported(f"conversion of {v!r} to {t}")
        if c == "FloatingCast" and isinstance(v, F):
            w = SIZE[t]
            if w == v.w:
                return v
            if known(v.t):
                x = struct.unpack("<d" if v.w == 8 else "<f", v.t.to_bytes(v.w, "little"))[0]
                return F(int.from_bytes(struct.pack("<d" if w == 8 else "<f", x), "little"), w)
        if c == "IntegralToFloating" and isinstance(v, I) and known(v.t):
            w = SIZE[t]
            return F(int.from_bytes(struct.pack("<d" if w == 8 else "<f", float(v.t)), "little"), w)
        if c == "BitCast":
            return self.bitcast(ex, v, t)
        raise Unsupported(f"conversion {c} of {v!r}")

    def convert(self, ex, v, ty):
        if v.ty in RANGE and not known(v.t):
            a, b = RANGE[v.ty], RANGE[ty]
            if b[0] <= a[0] and a[1] <= b[1]:
                return I(v.t, ty)
        return super().convert(ex, v, ty)

    def bitcast(self, ex, v, t):
        if not isinstance(v, Ref) or not isinstance(t, list) or t[0] != "ptr" or t[1] == "void":
            return v
        e = self.under(t[1])
        x = ex.load(v.loc, v.path)
        while isinstance(x, Fwd):
            v = Ref(x.loc, x.path)
            x = ex.load(v.loc, v.path)
        if isinstance(x, Raw):
            if e == "i8":
                return v
            s = self.sizeof(e)
            if isinstance(e, list) and e[0] == "rec" and known(x.n):
                if x.n < s:
                    raise Crash("allocated memory is too small")
                if x.n < 2 * s:
                    ex.store(v.loc, v.path, self.blank(ex, e, False))
                    return v
            ex.store(v.loc, v.path, A(self.divide(ex, x.n, s), lambda i: self.blank(ex, e, False)))
            return v
        if e == "u8" and isinstance(x, (St, Msg)):
            return Bytes(v)
        return v

    def divide(self, ex, n, s):
        if known(n):
            return n // s
        c, at = ex.w.linear(n)
        if s == 1:
            return n
        if c % s or any(q % s for q, _ in at):
            ex.doubt(False, "size that is no multiple of the element's")
        return add(c // s, *[mul(q // s, a) for q, a in at])

    # ---- expressions
    def e_pval(self, ex, e):
        """value of a pointer that is stored somewhere"""
        x = e["x"]
        if x["k"] in ("var", "field", "index", "deref", "paren"):
            if x["k"] == "var" and x["n"] not in ex.env:
                return ex.ev(x)
            loc, path = ex.lv(x)
            v = ex.load(loc, path)
            if isinstance(v, INLINE):
                if isinstance(v, S) and not isinstance(v, CStr) and isinstance(v.h, bytes):
                    return v
                return Ref(loc, path)
            return v
        return ex.ev(x)

    def e_deref(self, ex, e):
        v = ex.ev(e["x"])
        if isinstance(v, Ref):
            x = ex.load(v.loc, v.path)
            while isinstance(x, Fwd):
                x = ex.load(x.loc, x.path)
            return x
        if v is NULL:
            raise Crash("null pointer")
        if isinstance(v, Bytes):
            return self.byte0(ex, v)
        if isinstance(v, Buf):
            return self.peek(ex, v, 0)
        raise Unsupported(f"dereference of {v!r}")

    def lv_deref(self, ex, e):
        v = ex.ev(e["x"])
        if v is NULL:
            raise Crash("null pointer")
        if not isinstance(v, Ref):
            raise Unsupported(f"dereference of {v!r}")
        return self.follow(ex, v)

    def follow(self, ex, v):
        x = ex.load(v.loc, v.path)
        while isinstance(x, Fwd):
            v = x
            x = ex.load(v.loc, v.path)
        return v.loc, v.path

    def e_index(self, ex, e):
        v, i = ex.ev(e["x"]), ex.ev(e["i"])
        if isinstance(v, Buf):
            return self.peek(ex, v, i.t)
        if isinstance(v, Bytes):
            if known(i.t) and i.t == 0:
                return self.byte0(ex, v)
            raise Unsupported("byte of an object")
        if isinstance(v, Ref):
            loc, path = self.follow(ex, v)
            x = ex.load(loc, path)
            if isinstance(x, (A, L)):
                self.inrange(ex, x, i, ex.length(x))
                y = ex.at(x, i.t)
                if isinstance(y, (Msg, A, S, By, Raw)) and isinstance(e.get("t"), list) and e["t"][0] == "ptr":
                    return Ref(loc, path + (("ix", i.t),))
                return y
            raise Unsupported(f"index of {x!r}")
        if isinstance(v, (A, L)):
            self.inrange(ex, v, i, ex.length(v))
            return ex.at(v, i.t)
        if v is NULL:
            raise Crash("null pointer")
        if isinstance(v, S) and isinstance(v.h, bytes) and known(i.t) and 0 <= i.t <= len(v.h):
            return I((v.h + b"\0")[i.t], "i8")
        raise Unsupported(f"index of {v!r}")

    def inrange(self, ex, arr, i, n):
        if isinstance(arr, CStr):
            if ex.branch(and_(le(0, i.t), lt(i.t, arr.cap))):
                return
            self.oob(ex)
        if isinstance(arr, S):
            raise Unsupported("change of a text")
        if n is None:
            raise Unsupported("index of undefined memory")
        super().inrange(ex, arr, i, n)

    def lv_index(self, ex, e):
        v = ex.ev(e["x"])
        i = ex.ev(e["i"])
        if v is NULL:
            raise Crash("null pointer")
        if not isinstance(v, Ref):
            raise Unsupported(f"store into {v!r}")
        loc, path = self.follow(ex, v)
        x = ex.load(loc, path)
        if isinstance(x, (Raw, S, Un)):
            raise Unsupported(f"element of {x!r}")
        self.inrange(ex, x, i, ex.length(x))
        return loc, path + (("ix", i.t),)

    def byte0(self, ex, b):
        loc, path = self.follow(ex, b.ref)
        x = ex.load(loc, path)
        if isinstance(x, Msg):
            return I(self.msg_tag(ex, x), "u8")
        if isinstance(x, St):
            v = x.f[self.mod.types[x.ty]["fields"][0]["n"]]
            if isinstance(v, I):
                return I(v.t if known(v.t) and 0 <= v.t < 256 else modw(v.t, 8, False), "u8")
        raise Unsupported("byte of an object")

    def peek(self, ex, b, i):
        o = add(b.base, i)
        self.at_cur(ex, b.loc, o, "reading a byte")
        if not self.in_room(ex, o, 1):
            raise Crash("reads past the end of the buffer")
        return self.rd_num(ex, 1, "u8")

    def e_cstr(self, ex, e):
        return S(bytes(e["v"]))

    def e_zero(self, ex, e):
        return self.blank(ex, e["t"], True)

    def e_sizeof(self, ex, e):
        return I(self.sizeof(e["t"]), "u64")

    def e_cinit(self, ex, e):
        return St(e["t"], {n: ex.ev(x) for n, x in e["f"]})

    def e_call(self, ex, e):
        f = e["f"]
        while f["k"] == "paren":
            f = f["x"]
        if f["k"] != "var":
            raise Unsupported("call through a pointer")
        n = f["n"]
        args = [ex.ev(a) for a in e["a"]]
        h = getattr(self, "b_" + n, None)
        if n in ex.mod.funcs:
            r = self.contract(ex, n, args, e)
            if r is not NotImplemented:
                return r
            return ex.call_fn(ex.mod.funcs[n], args)
        if h is None:
            raise Unsupported("call of " + n)
        return h(ex, args, e)

    def pure_call(self, ex, e):
        return False

    def const(self, ex, c):
        return ex.ev(c["x"])

    # ---- the library
    def alloc(self, ex, n):
        if ex.choose(2) or not ex.branch(le(n, LIM)):
            self.ghost(ex, "alloc")
            return False
        return True

    def b_malloc(self, ex, args, e):
        n = args[0].t
        if not self.alloc(ex, n):
            return NULL
        return Ref(ex.new(Raw(n)), ())

    def b_calloc(self, ex, args, e):
        n, s = args[0].t, args[1].t
        if not self.alloc(ex, mul(n, s)):
            return NULL
        raise Unsupported("calloc")

    def b_realloc(self, ex, args, e):
        v, n = args[0], args[1].t
        if v is NULL:
            return self.b_malloc(ex, args[1:], e)
        if not isinstance(v, Ref):
            raise Unsupported("realloc")
        loc, path = self.follow(ex, v)
        x = ex.load(loc, path)
        t = self.under(e["at"][0])
        if not isinstance(x, A) or not isinstance(t, list) or t[0] != "ptr":
            raise Unsupported("realloc")
        if not self.alloc(ex, n):
            return NULL
        m = self.divide(ex, n, self.sizeof(t[1]))
        ex.doubt(le(x.n, m), "array made smaller")
        ex.store(loc, path, Un("released memory"))
        d, old = x.dflt, x.n
        return Ref(ex.new(A(m, d, x.writes, x.ty, x.tag)), ())

    def b_free(self, ex, args, e):
        v = args[0]
        if isinstance(v, Ref):
            loc, path = self.follow(ex, v)
            ex.store(loc, path, Un("released memory"))
        elif v is not NULL:
            raise Unsupported("free")

    def b_memset(self, ex, args, e):
        v, c, n = args
        if not isinstance(v, Ref) or not (known(c.t) and c.t == 0):
            raise Unsupported("memset")
        t = self.under(e["at"][0])
        loc, path = self.follow(ex, v)
        x = ex.load(loc, path)
        if isinstance(x, A):
            s = self.sizeof(t[1])
            if not ex.proves(eq(n.t, mul(s, x.n))):
                raise Unsupported("memset of a part")
            ex.store(loc, path, A(x.n, lambda i: self.blank(ex, t[1], True), (), x.ty))
            return v
        if isinstance(x, Raw):
            raise Unsupported("memset of raw memory")
        if not known(n.t) or n.t != self.sizeof(t[1]):
            raise Unsupported("memset of a part")
        ex.store(loc, path, self.blank(ex, t[1], True))
        return v

    def b_memcpy(self, ex, args, e):
        d, s, n = args[0], args[1], args[2].t
        if isinstance(d, Buf) and d.loc == "$out":
            self.at_cur(ex, d.loc, d.base, "writing")
            if not self.out_room(ex, d.base, n):
                raise Crash("writes past the end of the buffer")
            return self.copy_out(ex, s, n, e, d)
        if isinstance(s, Buf) and s.loc == "$in":
            if not isinstance(d, Ref):
                raise Crash("copies to a null pointer") if d is NULL else Unsupported(f"memcpy to {d!r}")
            loc, path = self.follow(ex, d)
            x = ex.load(loc, path)
            self.at_cur(ex, s.loc, s.base, "reading")
            if not self.in_room(ex, s.base, n):
                raise Crash("reads past the end of the buffer")
            if isinstance(x, Raw) or isinstance(x, CStr):
                cap = x.n if isinstance(x, Raw) else x.cap
                if not ex.branch(le(n, cap)):
                    raise Crash("writes past the end of the allocated memory")
                b = self.rd_bytes(ex, n)
                if b.els is not None:
                    if b.els:
                        raise Unsupported("text of fixed length")
                    b = By(h=ex.fresh("h"), n=0)
                ex.store(loc, path, CStr(b.h, b.n, cap))
                return d
            t = self.under(e["at"][0])
            t = self.under(t[1]) if isinstance(t, list) and t[0] in ("ptr", "array") else t
            if isinstance(x, A):
                if known(n) and known(x.n) and SIZE.get(t) == 1 and n <= x.n:
                    for i in range(n):
                        ex.store(loc, path + (("ix", i),), self.rd_num(ex, 1, t))
                    return d
                raise Unsupported("copy of an array")
            if not isinstance(t, str) or not known(n) or SIZE.get(t) != n or t == "bool":
                raise Unsupported("copy of a part")
            v = F(self.rd_bits(ex, n), n) if t in ("f32", "f64") else self.rd_num(ex, n, t)
            ex.store(loc, path, v)
            return d
        raise Unsupported("memcpy")

    def copy_out(self, ex, s, n, e, d):
        if isinstance(s, Ref):
            loc, path = self.follow(ex, s)
            x = ex.load(loc, path)
        else:
            x = s
        if isinstance(x, Null):
            if not ex.branch(eq(n, 0)):
                raise Crash("copies from a null pointer")
            return d
        if isinstance(x, S) and isinstance(x.h, bytes):
            if not known(n) or n > len(x.h) + 1:
                raise Unsupported("copy of a constant")
            self.wr_bytes(ex, S((x.h + b"\0")[:n]))
            return d
        if isinstance(x, S):
            if not ex.branch(eq(n, x.n)):
                if ex.branch(le(n, x.n)):
                    self.wr(ex, ("s", ex.fresh("part"), n), n)
                    return d
                raise Crash("reads past the end of a text")
            self.wr_bytes(ex, x)
            return d
        if isinstance(x, A) and known(n) and known(x.n) and n <= x.n:
            for i in range(n):
                self.wr_num(ex, 1, ex.at(x, i).t)
            return d
        if known(n) and isinstance(x, (I, F, B)):
            w = x.w if isinstance(x, F) else 1 if isinstance(x, B) else SIZE[x.ty]
            if w == n:
                self.wr_num(ex, n, ite(x.t, 1, 0) if isinstance(x, B) else x.t)
                return d
            if isinstance(x, I) and n < w:
                self.wr_num(ex, n, modw(x.t, 8 * n, False))
                return d
        raise Unsupported(f"copy of {x!r}")

    b_memmove = b_memcpy

    def b_memcmp(self, ex, args, e):
        a, b, n = args[0], args[1], args[2].t
        if isinstance(b, Buf):
            a, b = b, a
        if isinstance(b, Ref):
            b = ex.deref(b)
        if isinstance(a, Ref):
            a = ex.deref(a)
        if not known(n):
            raise Unsupported("memcmp")
        if isinstance(a, Buf) and a.loc == "$in" and isinstance(b, S) and isinstance(b.h, bytes):
            self.at_cur(ex, a.loc, a.base, "reading")
            if not self.in_room(ex, a.base, n):
                raise Crash("reads past the end of the buffer")
            els = [x.t for x in self.rd_bytes(ex, n).els]
        elif isinstance(a, A) and known(a.n) and n <= a.n and isinstance(b, S) and isinstance(b.h, bytes):
            els = [ex.at(a, i).t for i in range(n)]
        else:
            raise Unsupported("memcmp")
        return I(ite(and_(*[eq(modw(x, 8, False) if known(x) else x, y) for x, y in zip(els, (b.h + b"\0")[:n])]), 0, 1), "i32")

    b___builtin_memcpy, b___builtin_memset, b___builtin_memcmp = b_memcpy, b_memset, b_memcmp

    # ---- operators
    def unify(self, ex, x, y, o):
        if isinstance(x, I) and isinstance(y, I):
            if y.ty == "lit":
                y = I(y.t, x.ty)
        if isinstance(x, B) and isinstance(y, I):
            x = I(ite(x.t, 1, 0), y.ty)
        if isinstance(y, B) and isinstance(x, I):
            y = I(ite(y.t, 1, 0), x.ty)
        return x, y

    def other_binop(self, ex, o, x, y):
        if isinstance(x, Buf) and isinstance(y, I) and o in ("+", "-"):
            d = y.t if o == "+" else sub(0, y.t)
            return Buf(x.loc, add(x.base, d), sub(x.n, d), x.kind)
        if isinstance(y, Buf) and isinstance(x, I) and o == "+":
            return self.other_binop(ex, o, y, x)
        if isinstance(x, I) and isinstance(y, B):
            return ex.arith(o, x, I(ite(y.t, 1, 0), x.ty), x.ty)
        if isinstance(x, B) and isinstance(y, I):
            return ex.arith(o, I(ite(x.t, 1, 0), y.ty), y, y.ty)
        return None

    def equal(self, ex, x, y):
        if isinstance(x, (S, A)) and isinstance(y, Null) or isinstance(y, (S, A)) and isinstance(x, Null):
            return False
        return None

    def overflow(self, ex, t, ty, op):
        if SIGNED[ty]:
            lo, hi = RANGE[ty]
            if known(t) or not ex.branch(and_(zi(t) >= lo, zi(t) <= hi)):
                raise Crash("signed overflow")
            return I(t, ty)
        return super().overflow(ex, t, ty, op)

    # ---- stores
    def store_special(self, ex, l, v):
        while l["k"] == "paren":
            l = l["x"]
        if l["k"] == "index":
            b = ex.ev(l["x"])
            i = ex.ev(l["i"])
            if isinstance(b, Buf):
                if b.loc != "$out":
                    raise Unsupported("store into the input")
                o = add(b.base, i.t)
                self.at_cur(ex, b.loc, o, "writing a byte")
                if not self.out_room(ex, o, 1):
                    raise Crash("writes past the end of the buffer")
                self.wr_num(ex, 1, v.t if isinstance(v, I) else ite(v.t, 1, 0))
                return True
            if isinstance(b, Ref):
                loc, path = self.follow(ex, b)
                x = ex.load(loc, path)
                if isinstance(x, CStr):
                    self.inrange(ex, x, i, None)
                    if ex.proves(le(x.n, i.t)):
                        return True                     # after the text
                    raise Unsupported("change of a text")
        if l["k"] == "var" and l["n"] in ex.env:
            return False
        loc, path = ex.lv(l)
        if isinstance(v, Ref):
            v = self.settle(ex, v, loc, path)
        ex.store(loc, path, v)
        return True

    def settle(self, ex, v, loc, path):
        """a pointer is stored: what it points to moves there"""
        vl, vp = self.follow(ex, v)
        x = ex.load(vl, vp)
        if not path and isinstance(x, (I, B, F)) or isinstance(x, (Ref, Null)):
            raise Unsupported("pointer to a variable stored")
        if vp or not isinstance(x, INLINE + (Un,)):
            raise Unsupported("second pointer to an object")
        if (vl, vp) == (loc, path):
            return x
        ex.heap[vl] = Fwd(loc, path)
        return x

    # ---- values of the protocol
    def inject_struct(self, ex, v):
        ty = self.typename(v.t)
        fs = {f["n"]: f["t"] for f in self.mod.types[ty]["fields"]}
        out = {n: Un("member") for n in fs}
        if "_mt" in fs:
            out["_mt"] = I(self.p.msg_ids[v.t], self.under(fs["_mt"]))
        for m, x in v.m.items():
            n = self.fname(ty, m)
            if x.kind == "str":
                out[n] = S(x.h, x.n, None)
                out[n + "_len"] = I(x.n, self.under(fs[n + "_len"]))
            elif x.kind == "list":
                out[n] = A(x.n, lambda i, x=x: self.inject(ex, x.fn(i)), (), None, "input")
                out[n + "_len"] = I(x.n, self.under(fs[n + "_len"]))
                if n + "_els_len" in fs:
                    et = self.under(fs[n + "_els_len"][1])
                    out[n + "_els_len"] = A(x.n, lambda i, x=x: I(x.fn(i).n, et), (), None, "input")
            else:
                out[n] = self.inject(ex, x)
        if any(isinstance(x, Un) for x in out.values()):
            raise Unsupported("members of " + ty)
        return St(ty, out)

    def fname(self, t, m):
        for f in self.mod.types[t]["fields"]:
            if f["n"] == m:
                return m
        return super().fname(t, m)

    def enc_member(self, ex, v, t, m, mt, is_list):
        n = self.fname(v.ty, m)
        x = v.f[n]
        p = self.p
        if isinstance(x, Fwd):
            x = ex.deref(x)
        if not is_list:
            if p.kind(mt) == "string":
                return self.enc_text(ex, x, v.f[n + "_len"])
            return self.enc(ex, x, mt, False)
        w = SIZES[p.lst]
        ln = v.f[n + "_len"].t
        out = [("n", w, ln)]
        if isinstance(x, Null):
            return out if ex.proves(eq(ln, 0)) else out + [("s", ex.fresh("null"), ln)]
        if not isinstance(x, A):
            raise Unsupported(f"list {x!r}")
        if p.kind(mt) != "string":
            return out + self.enc_array(ex, x, ln, mt)
        y = v.f[n + "_els_len"]
        if known(ln) and ln == 0 or ex.proves(eq(ln, 0)):
            return out
        if not isinstance(y, A):
            raise Unsupported("lengths of a list of texts")
        if not x.writes and not y.writes:
            ex.ctr += 1
            j = z3.Int(f"j!e{ex.ctr}")
            ex.w.facts.setdefault(str(j), lambda a: [a >= 0])
            return out + [("rep", ln, j, ((True, tuple(self.enc_text(ex, x.dflt(j), y.dflt(j)))),))]
        if len(x.writes) == len(y.writes) == 1 and x.writes[0][0] == y.writes[0][0] == "rep":
            _, K, j, al = x.writes[0]
            _, K2, j2, bl = y.writes[0]
            if not ex.proves(and_(eq(K, ln), eq(K2, ln))):
                raise Unsupported("array filled in part")
            if len(al) == len(bl) == 1:
                return out + [("rep", K, j, ((and_(al[0][0], subst(bl[0][0], j2, j)), tuple(self.enc_text(ex, al[0][1], subst(bl[0][1], j2, j)))),))]
        raise Unsupported("list of texts")

    def enc_text(self, ex, x, n):
        w = SIZES[self.p.sst]
        out = [("n", w, n.t)]
        if isinstance(x, Null):
            return out if ex.proves(eq(n.t, 0)) else out + [("s", ex.fresh("null"), n.t)]
        if isinstance(x, S):
            return out + [("s", x.h, x.n)]
        raise Unsupported(f"text {x!r}")

    # ---- contracts
    def split(self, n):
        """(type, function) of a function name"""
        if not n.startswith(self.ns + "_"):
            return None, None
        r = n[len(self.ns) + 1:]
        for f in ("WriteBytes", "FromBytes", "GetSizeInBytes", "Create", "Cleanup", "Destroy"):
            if r.endswith("_" + f):
                t = r[:-len(f) - 1]
                if t in self.p.structs or t in self.p.messages:
                    return t, f
        return None, r

    def contract(self, ex, n, args, e):
        t, f = self.split(n)
        if t is None:
            if f == "ProcessRawBytes" and self.target[0] != "process":
                v = self.process_contract(ex, args[1].t)
                out, ln = self.follow(ex, args[2]), self.follow(ex, args[3])
                if v is None:
                    ex.store(*out, Un("list after an error"))
                    ex.store(*ln, Un("length after an error"))
                    return self.someerr(ex)
                ex.store(*out, A(v.n, lambda i: Un("message"), [v.segs[0]]))
                ex.store(*ln, I(v.n, "u64"))
                return self.err(0)
            if f in ("DestroyMessageList", "Destroy") and self.target[0] != "destroy":
                return self.err(0)
            return NotImplemented
        if f == "WriteBytes" and self.target != ("write", t):
            v = self.obj(ex, args[1])
            tag = t in self.p.messages and ex.branch(ex.truth(args[2]))
            if isinstance(v, Msg):
                ex.oblige(f"what is written as a {t} is one", eq(self.msg_tag(ex, v), self.p.msg_ids[t]))
                self.msg_write(ex, v, tag)
            else:
                if tag:
                    self.wr_num(ex, 1, self.p.msg_ids[t])
                self.write_contract(ex, t, v)
            s = ex.heap["$out"]
            if not ex.branch(le(s.cur, s.end)):
                return self.someerr(ex)
            self.advance(ex, "$out")
            return self.err(0)
        if f == "GetSizeInBytes" and self.target != ("size", t):
            v = self.obj(ex, args[0])
            if isinstance(v, Msg):
                ex.oblige(f"what is measured as a {t} is one", eq(self.msg_tag(ex, v), self.p.msg_ids[t]))
                r = self.msg_size(ex, v)
            else:
                r = self.size_contract(ex, t, v)
            ex.store(*self.follow(ex, args[1]), I(r, "u64"))
            return self.err(0)
        if f == "FromBytes" and self.target != ("read", t):
            v = self.read_contract(ex, t)
            loc, path = self.follow(ex, args[1])
            if v is None:
                ex.store(loc, path, Un("value after an error"))
                return self.someerr(ex)
            ex.store(loc, path, v)
            self.advance(ex, "$in")
            return self.err(0)
        if f in ("Cleanup", "Destroy") and self.target[0] != "destroy":
            return None
        if f == "Create" and self.target != ("default", t):
            if not self.alloc(ex, 8):
                return NULL
            return Ref(ex.new(self.inject(ex, codec.default(ex, self.p, t))), ())
        return NotImplemented

    def obj(self, ex, v):
        if v is NULL:
            raise Crash("null pointer")
        return ex.load(*self.follow(ex, v))

    def advance(self, ex, s):
        d = ex.heap["da"]
        ex.heap["da"] = d.set("position", I(ex.heap[s].cur, "u64"))

    def err(self, n):
        return I(n, "u8")

    def someerr(self, ex):
        return I(ex.fresh("code", 1, 255), "u8")

    # ---- entry points
    def access(self, ex, s):
        st = ex.heap[s]
        ex.heap["da"] = St(self.typename("DataAccess"), {"buffer": Buf(s, 0, st.end), "bufferSize": I(st.end, "u64"), "position": I(st.cur, "u64")})
        return Ref("da", ())

    def position(self, ex, stream):
        return ex.heap["da"].f["position"].t

    def fn(self, *n):
        return self.mod.funcs["_".join((self.ns,) + n)]

    def code(self, ex, r):
        """is this return code that of success?"""
        if not isinstance(r, I):
            raise Unsupported(f"return code {r!r}")
        return ex.branch(eq(r.t, 0))

    def do_write(self, ex, t, v, tag):
        w = self.access(ex, "$out")
        o = Ref(ex.new(v), ())
        r = ex.call_fn(self.fn(t, "WriteBytes"), [w, o] + ([B(tag)] if t in self.p.messages else []))
        return None if self.code(ex, r) else ("fail", r.t)

    def do_size(self, ex, t, v):
        out = ex.new(Un("size"))
        r = ex.call_fn(self.fn(t, "GetSizeInBytes"), [Ref(ex.new(v), ()), Ref(out, ())])
        if not self.code(ex, r):
            raise Crash("refuses")
        return ex.load(out).t

    def do_read(self, ex, t):
        r_ = self.access(ex, "$in")
        ty = self.typename(t)
        o = ex.new(self.blank(ex, ["rec", ty], False))
        r = ex.call_fn(self.fn(t, "FromBytes"), [r_, Ref(o, ())])
        if not self.code(ex, r):
            return ("fail", r.t)
        v = ex.load(o)
        if t in self.p.messages:
            m = v.f.get("_mt")
            ex.oblige(f"read: the message is marked as a {t}", eq(m.t, self.p.msg_ids[t]) if isinstance(m, I) else False, props=["C10", "C02"])
        return ("ok", v)

    def do_default(self, ex, t):
        r = ex.call_fn(self.fn(t, "Create"), [])
        if r is NULL:
            if ex.heap.get("$bad"):
                raise Infeasible()
            raise Crash("gives nothing")
        v = self.obj(ex, r)
        m = v.f.get("_mt")
        ex.oblige(f"default: the message is marked as a {t}", eq(m.t, self.p.msg_ids[t]) if isinstance(m, I) else False, props=["C09", "C10"])
        return v

    def do_id(self, ex, t):
        v = self.inject(ex, codec.make(ex, self.p, t, False, "m"))
        return ex.call_fn(self.fn("GetMessageType"), [Ref(ex.new(v), ())]).t

    def do_process(self, ex, mx):
        r_ = self.access(ex, "$in")
        out, ln = ex.new(Un("list")), ex.new(Un("length"))
        r = ex.call_fn(self.fn("ProcessRawBytes"), [r_, I(mx, "i32"), Ref(out, ()), Ref(ln, ())])
        if not self.code(ex, r):
            return ("fail", r.t)
        return ("ok", self.listof(ex, out, ln))

    def listof(self, ex, out, ln):
        x, n = ex.deref(ex.load(out)), ex.load(ln)
        if not isinstance(n, I):
            raise Unsupported(f"length {n!r}")
        if isinstance(x, Null) or ex.proves(eq(n.t, 0)):
            ex.oblige("the list is there", ex.proves(eq(n.t, 0)))
            return L([])
        if not isinstance(x, A) or len(x.writes) != 1 or x.writes[0][0] != "rep":
            raise Unsupported(f"list of messages {x!r}")
        ex.oblige("all the messages counted are there", eq(x.writes[0][1], n.t))
        return L([x.writes[0]])

    def do_packed_size(self, ex, lst):
        o = ex.new(lst)
        out = ex.new(Un("size"))
        r = ex.call_fn(self.fn("GetPackedSize"), [Ref(o, ()), I(lst.n, "u64"), Ref(out, ())])
        if not self.code(ex, r):
            raise Crash("refuses")
        return ex.load(out).t

    def do_pack(self, ex, lst):
        w = self.access(ex, "$out")
        r = ex.call_fn(self.fn("PackMessages"), [Ref(ex.new(lst), ()), I(lst.n, "u64"), w])
        return None if self.code(ex, r) else ("fail", r.t)

    def do_unpack(self, ex):
        r_ = self.access(ex, "$in")
        out, ln = ex.new(Un("list")), ex.new(Un("length"))
        r = ex.call_fn(self.fn("UnpackMessages"), [r_, Ref(out, ()), Ref(ln, ())])
        if not self.code(ex, r):
            return ("fail", r.t)
        return ("ok", self.listof(ex, out, ln))

    # the functions that look at the message to see which one it is
    def do_dispatch_size(self, ex, m):
        out = ex.new(Un("size"))
        r = ex.call_fn(self.fn("GetSizeInBytes"), [Ref(ex.new(m), ()), Ref(out, ())])
        if not self.code(ex, r):
            raise Crash("refuses")
        return ex.load(out).t

    def do_dispatch_write(self, ex, m, tag):
        w = self.access(ex, "$out")
        r = ex.call_fn(self.fn("WriteBytes"), [w, Ref(ex.new(m), ()), B(tag)])
        return None if self.code(ex, r) else ("fail", r.t)

    def has(self, kind, t=None):
        n = {"write": f"{t}_WriteBytes", "size": f"{t}_GetSizeInBytes", "read": f"{t}_FromBytes", "default": f"{t}_Create", "id": "GetMessageType",
             "process": "ProcessRawBytes", "pack": "PackMessages", "packsize": "GetPackedSize", "unpack": "UnpackMessages", "dispatch": "WriteBytes"}[kind]
        return f"{self.ns}_{n}" in self.mod.funcs and not (kind == "default" and t in self.p.structs)
