"""TypeScript."""
from .langbase import *

UNDEF = Null()
SAFE = 1 << 53
GET = {"Int8": (1, "i8"), "Uint8": (1, "u8"), "Int16": (2, "i16"), "Uint16": (2, "u16"), "Int32": (4, "i32"), "Uint32": (4, "u32"),
       "BigInt64": (8, "i64"), "BigUint64": (8, "u64"), "Float32": (4, None), "Float64": (8, None)}
ERRS = ("Error", "RangeError", "TypeError", "SyntaxError", "EvalError", "ReferenceError")
GLOBALS = ("Number", "BigInt", "Math", "Object", "Array", "Map", "Set", "String", "Boolean", "TextDecoder", "TextEncoder", "Uint8Array", "DataView", "ArrayBuffer", "JSON", "Symbol") + ERRS


class EnName:
    """the name of an enum value, undefined unless c"""
    def __init__(self, c):
        self.c = c


class TS(BufLang):
    name_ = "typescript"
    littype = "num"
    maxpos = (1 << 32) - 1

    # ---- types and values
    def zero(self, ex, t):
        return UNDEF

    def coerce(self, ex, v, t):
        return v

    def retype(self, ex, v, old):
        return v

    def truth(self, ex, v):
        v = ex.deref(v)
        if isinstance(v, I):
            return not_(eq(v.t, 0))
        if isinstance(v, Null):
            return False
        if isinstance(v, S):
            return not_(eq(v.n, 0))
        if isinstance(v, EnName):
            return v.c
        if isinstance(v, (St, L, A, By, Buf, Er, Msg, Ty, Fn)):
            return True
        raise Unsupported(f"condition {v!r}")

    def num_value(self, ex, t, v):
        if t == "bool":
            return B(v == 1 if not known(v) else bool(v))
        if t == "float":
            return F(v, 4)
        if t == "double":
            return F(v, 8)
        return I(v, "big" if t in ("int64", "uint64") else "num")

    def num_bits(self, ex, v, t):
        if t in ("float", "double"):
            w = 4 if t == "float" else 8
            if isinstance(v, I) and v.ty == "num" and known(v.t):
                return int.from_bytes(struct.pack("<f" if w == 4 else "<d", float(v.t)), "little")
            if isinstance(v, F):
                return self.fl(v, w).t
            raise Unsupported(f"{v!r} for {t}")
        if t == "bool":
            if isinstance(v, B):
                return ite(v.t, 1, 0)
            raise Unsupported(f"{v!r} for bool")
        want = "big" if t in ("int64", "uint64") else "num"
        if isinstance(v, I) and v.ty == want:
            return v.t
        return -(1 << 70)               # a value of another type is a wrong value

    def fl(self, v, w):
        if v.w == w:
            return v
        if known(v.t):
            x = struct.unpack("<d" if v.w == 8 else "<f", v.t.to_bytes(v.w, "little"))[0]
            return F(int.from_bytes(struct.pack("<f" if w == 4 else "<d", x), "little"), w)
        raise Unsupported("rounding of a floating point number")

    def fltlit(self, ex, v):
        return F(int.from_bytes(struct.pack("<d", float(v)), "little"), 8)

    def enc(self, ex, v, t, is_list):
        if isinstance(ex.deref(v), Null):
            return [("n", 1, -(1 << 70))]
        return super().enc(ex, v, t, is_list)

    def name(self, ex, n):
        if n in GLOBALS and n not in self.mod.types:
            return Ty(n)
        return None

    def e_undef(self, ex, e):
        return UNDEF

    def e_as(self, ex, e):
        return ex.ev(e["x"])

    def e_nonnull(self, ex, e):
        return ex.ev(e["x"])

    def lv_as(self, ex, e):
        return ex.lv(e["x"])

    lv_nonnull = lv_as

    def e_arr(self, ex, e):
        return Ref(ex.new(L([("one", self.settle(ex, ex.ev(x))) for x in e["els"]])), ())

    def e_coalesce(self, ex, e):
        x = ex.ev(e["x"])
        return ex.ev(e["y"]) if isinstance(x, Null) else x

    def e_typeof(self, ex, e):
        v = ex.deref(ex.ev(e["x"]))
        for c, n in ((I, None), (F, "number"), (B, "boolean"), (S, "string"), (By, "object"), (St, "object"), (L, "object"), (A, "object"), (Buf, "object")):
            if isinstance(v, c):
                return S((n or ("bigint" if v.ty == "big" else "number")).encode())
        if v is UNDEF:
            return S(b"undefined")
        raise Unsupported("typeof")

    def bases(self, n):
        out = []
        while n in self.mod.types and n not in out:
            out.append(n)
            n = self.mod.types[n].get("ext")
        return out

    def e_instanceof(self, ex, e):
        v = ex.deref(ex.ev(e["x"]))
        t = e["t"]
        if isinstance(v, St):
            return B(t in self.bases(v.ty))
        if isinstance(v, Buf):
            return B({"view": "DataView", "ab": "ArrayBuffer", "u8": "Uint8Array"}[v.kind] == t)
        if isinstance(v, Er):
            if t == "Error":
                return B(True)
            return B(ex.fresh_bool("is"))
        if isinstance(v, Msg):
            return B(t == "Message" or v.h == t) if v.h or t == "Message" else B(ex.fresh_bool("is"))
        if isinstance(v, (I, F, B, S, Null, L, A)):
            return B(t == "Array" and isinstance(v, (L, A)))
        raise Unsupported("instanceof")

    # ---- object references: what is put into a field or a list is moved there
    def settle(self, ex, v):
        if isinstance(v, Ref):
            x = ex.load(v.loc, v.path)
            if isinstance(x, (Msg, Buf)):
                return x
            if v.path or isinstance(x, Un):
                raise Unsupported("second reference to an object")
            ex.heap[v.loc] = Un("moved")
            return self.settle(ex, x) if isinstance(x, Ref) else x
        return v

    def check_root(self, ex, l):
        """a change through l changes the object itself, not a copy of it"""
        if l["k"] == "var":
            if l["n"] not in ex.env:
                return
            v = ex.load(ex.env[l["n"]])
            if isinstance(v, (Ref, I, B, F, S, Null)):
                return
            raise Unsupported("change through a second reference")
        if l["k"] in ("field", "index", "paren", "as", "nonnull"):
            return self.check_root(ex, l["x"])
        raise Unsupported("change of a computed object")

    def store_special(self, ex, l, v):
        if l["k"] == "var":
            return False
        if l["k"] == "field":
            x = ex.deref(ex.ev(l["x"]))
            if isinstance(x, St) and l["n"] not in x.f:
                raise Unsupported("new member " + l["n"])
        self.check_root(ex, l["x"])
        loc, path = ex.lv(l)
        ex.store(loc, path, self.settle(ex, v))
        return True

    # ---- members
    def static(self, ex, e):
        x = e["x"]
        if x["k"] == "var" and x["n"] not in ex.env:
            n, m = x["n"], e["n"]
            d = self.mod.types.get(n)
            if d and d["kind"] == "enum":
                v = self.members(ex, n).get(m)
                return UNDEF if v is None else I(v, "num")
            if d:
                if f"{n}.{m}" in self.mod.funcs:
                    return Fn(f"{n}.{m}")
                if f"{n}.{m}" in self.mod.consts:
                    return ex.glob(f"{n}.{m}")
                for b in self.bases(n):
                    if f"{b}.{m}" in self.mod.funcs:
                        return Fn(f"{b}.{m}")
                return Fn(f"{n}.{m}")
            if n in GLOBALS:
                if n == "Number" and m in ("MAX_SAFE_INTEGER", "MIN_SAFE_INTEGER"):
                    return I((SAFE - 1) * (1 if m[1] == "A" else -1), "num")
                return Fn(f"{n}.{m}")
        return None

    def members(self, ex, n):
        key = "$enum:" + n
        if key not in self.__dict__:
            out, nxt = {}, 0
            for m, x in self.mod.types[n]["members"]:
                if x is not None:
                    v = ex.ev(x)
                    if not isinstance(v, I) or not known(v.t):
                        raise Unsupported("enum value")
                    nxt = v.t
                out[m] = nxt
                nxt += 1
            self.__dict__[key] = out
        return self.__dict__[key]

    def field(self, ex, v, n):
        if isinstance(v, St):
            for b in self.bases(v.ty):
                if f"{b}.get {n}" in self.mod.methods:
                    return ex.call_fn(self.mod.methods[f"{b}.get {n}"], [], self_=v)
            return UNDEF if not any(f"{b}.{n}" in self.mod.methods for b in self.bases(v.ty)) else None
        if isinstance(v, Buf):
            if n == "byteLength" or n == "length" and v.kind == "u8":
                return I(v.n, "num")
            if n == "byteOffset":
                return I(add(v.base, self.bo(ex, v.loc)), "num")
            if n == "buffer":
                return Buf(v.loc, sub(0, self.bo(ex, v.loc)), self.ablen(ex, v.loc), "ab")
        if isinstance(v, (L, A)) and n == "length":
            return I(v.n, "num")
        if isinstance(v, By) and n in ("length", "byteLength"):
            return I(v.n, "num")
        if isinstance(v, S) and n == "length":
            if isinstance(v.h, bytes):
                return I(len(v.h.decode("utf-8").encode("utf-16-le")) // 2, "num")
            if v.ulen is None:
                raise Unsupported("length of a text that was read")
            return I(v.ulen, "num")
        if isinstance(v, Er):
            return Un("text")
        if isinstance(v, Null):
            raise Thr(Er(("type",), "TypeError"))
        return None

    def bo(self, ex, loc):
        """where the view starts in its buffer"""
        ex.w.facts.setdefault("bo" + loc, lambda a: [a >= 0, a <= 1 << 32])
        return z3.Int("bo" + loc)

    def ablen(self, ex, loc):
        s = ex.heap[loc]
        end = s.end
        ex.w.facts.setdefault("abx" + loc, lambda a: [a >= 0, a <= 1 << 32])
        return add(self.bo(ex, loc), end, z3.Int("abx" + loc))

    def index(self, ex, x, i):
        if isinstance(x, Ty) and self.mod.types.get(x.n, {}).get("kind") == "enum" and isinstance(i, I):
            return EnName(or_(*[eq(i.t, v) for v in self.members(ex, x.n).values()]))
        v = ex.deref(x)
        if isinstance(v, (L, A, By)) and isinstance(i, I):
            n = ex.length(v)
            if not ex.branch(and_(le(0, i.t), lt(i.t, n))):
                return UNDEF
            return ex.at(v, i.t)
        raise Unsupported(f"index of {x!r}")

    def oob(self, ex):
        raise Unsupported("write outside an array")

    # ---- operators
    def num53(self, ex, v):
        if v.ty != "num" or known(v.t) and abs(v.t) <= SAFE:
            return v
        if not known(v.t) and ex.proves_sum(and_(v.t <= SAFE, v.t >= -SAFE)):
            return v
        # rounded: only its side is known
        if self.target[0] in ("read", "process", "unpack") and ex.proves(zi(v.t) >= 0):
            if ex.branch(le(v.t, SAFE)):
                return v
            return I(ex.fresh("rnd", SAFE), "num")
        ex.oblige("the number is computed exactly", and_(v.t <= SAFE, v.t >= -SAFE))
        return v

    def int32(self, ex, v):
        if known(v.t):
            return I(modw(v.t, 32, True), "num")
        if ex.proves(and_(zi(v.t) >= -(1 << 31), zi(v.t) < 1 << 31)):
            return v
        return I(modw(v.t, 32, True), "num")

    def binop(self, ex, o, x, y, e):
        x, y = ex.deref(x), ex.deref(y)
        if o in ("==", "!=", "===", "!=="):
            t = self.eqv(ex, x, y, len(o) == 3)
            return B(t if o[0] == "=" else not_(t))
        if isinstance(x, B) and isinstance(y, (I, B)):
            x = I(ite(x.t, 1, 0), "num")
        if isinstance(y, B) and isinstance(x, I):
            y = I(ite(y.t, 1, 0), "num")
        if o in ("<", "<=", ">", ">="):
            if isinstance(x, Null) or isinstance(y, Null):
                return B(False)
            return ex.compare(o, x, y)
        if isinstance(x, I) and isinstance(y, I):
            if y.ty == "lit":
                y = I(y.t, x.ty)
            if x.ty != y.ty:
                raise Thr(Er(("type",), "TypeError"))
            if x.ty == "big":
                return ex.arith(o, x, y, "big")
            if o in ("&", "|", "^", "<<", ">>"):
                r = ex.arith(o, self.int32(ex, x), self.int32(ex, y), "num")
                return self.int32(ex, r)
            if o == ">>>":
                if known(y.t):
                    a = x.t if not known(x.t) and ex.proves(and_(zi(x.t) >= 0, zi(x.t) < 1 << 32)) else modw(x.t, 32, False)
                    return I(a >> (y.t & 31) if known(a) else zi(a) / (1 << (y.t & 31)), "num")
                raise Unsupported("shift")
            if o == "/" and not (known(x.t) and known(y.t) and y.t and x.t % y.t == 0):
                raise Unsupported("division")
            return self.num53(ex, ex.arith(o, x, y, "num"))
        if o == "+" and (isinstance(x, (S, Un)) or isinstance(y, (S, Un))):
            return Un("text")
        if isinstance(x, I) and isinstance(y, Null) or isinstance(x, Null) and isinstance(y, I):
            raise Unsupported("NaN")
        raise Unsupported(f"operator {o} on {x!r} and {y!r}")

    def eqv(self, ex, x, y, strict):
        if isinstance(x, EnName) or isinstance(y, EnName):
            a, b = (x, y) if isinstance(x, EnName) else (y, x)
            if b is UNDEF or b is NULL and not strict:
                return not_(a.c)
            raise Unsupported("comparison of an enum name")
        if isinstance(x, Null) or isinstance(y, Null):
            if isinstance(x, Un) or isinstance(y, Un):
                raise Unsupported("comparison")
            if isinstance(x, Null) and isinstance(y, Null):
                return x is y or not strict
            return False
        if isinstance(x, I) and isinstance(y, I) and x.ty != y.ty and strict:
            return False
        if type(x) is not type(y) and not (isinstance(x, (S, By)) and isinstance(y, (S, By))):
            if strict:
                return False
            raise Unsupported("comparison of different types")
        return ex.equal(x, y)

    def equal(self, ex, a, b):
        if isinstance(a, EnName) or isinstance(b, EnName):
            return self.eqv(ex, a, b, True)
        if isinstance(a, Fn) and isinstance(b, Fn):
            return a.n == b.n
        return None

    def pure_call(self, ex, e):
        f = e["f"]
        return f["k"] == "var" and f["n"] in ("Number", "BigInt") and all(ex.pure(a) for a in e["a"])

    # ---- construction
    def e_newx(self, ex, e):
        n = e["n"]
        if n in self.mod.types and self.mod.types[n]["kind"] == "struct":
            return self.create(ex, n, [ex.ev(a) for a in e["a"]])
        args = [ex.ev(a) for a in e["a"]]
        if n in ERRS:
            return Er(("own",), n)
        a = [ex.deref(x) for x in args]
        if n == "Array":
            if not a:
                return Ref(ex.new(L(())), ())
            if len(a) == 1 and isinstance(a[0], I) and a[0].ty == "num":
                if not ex.branch(and_(le(0, a[0].t), lt(a[0].t, 1 << 32))):
                    raise Thr(Er(("length",), "RangeError"))
                return Ref(ex.new(A(a[0].t, lambda i: UNDEF)), ())
        if n == "DataView" and a and isinstance(a[0], Buf) and a[0].kind == "ab":
            if len(a) == 1:
                return Buf(a[0].loc, a[0].base, a[0].n, "view")
            b, off, ln = self.window(ex, a, "view")
            return Buf(b.loc, add(b.base, off), ln, "view")
        if n == "Uint8Array":
            if len(a) == 1 and isinstance(a[0], I):
                return Ref(ex.new(A(a[0].t, lambda i: I(0, "num"))), ())
            if a and isinstance(a[0], Buf) and a[0].kind == "ab":
                b, off, ln = self.window(ex, a, "u8")
                return Buf(b.loc, add(b.base, off), ln, "u8")
            if len(a) == 1 and isinstance(a[0], By):
                return a[0]
        if n in ("TextDecoder", "TextEncoder"):
            bom = "keep"
            if n == "TextDecoder":
                enc = a[0].h if a and isinstance(a[0], S) else b"utf-8"
                if enc not in (b"utf-8", b"utf8", b"UTF-8"):
                    raise Unsupported("text encoding")
                o = a[1] if len(a) > 1 else None
                ib = o.f.get("ignoreBOM") if isinstance(o, St) else None
                if not (isinstance(ib, B) and ib.t is True):
                    bom = "drop"
                if isinstance(o, St) and "fatal" in o.f:
                    raise Unsupported("fatal decoder")
            return St("$" + n, {"bom": S(bom.encode())})
        if n in ("Map", "Set"):
            return Un(n)
        raise Unsupported("new " + n)

    def e_obj(self, ex, e):
        return St("$obj", {n: ex.ev(x) for n, x in e["f"]})

    def window(self, ex, a, kind):
        b = a[0]
        off = a[1].t if len(a) > 1 else 0
        ln = a[2].t if len(a) > 2 else sub(b.n, off)
        if any(isinstance(x, I) and x.ty != "num" for x in a[1:]):
            raise Thr(Er(("type",), "TypeError"))
        if not ex.branch(and_(le(0, off), le(0, ln), le(add(off, ln), b.n))):
            self.ghost(ex, "window")
            raise Thr(Er(("range",), "RangeError"))
        return b, off, ln

    def create(self, ex, n, args):
        if (n in self.p.structs or n in self.p.messages) and self.target != ("default", n) and not args:
            return Ref(ex.new(self.inject(ex, codec.default(ex, self.p, n))), ())
        f = {}
        for b in reversed(self.bases(n)):
            for d in self.mod.types[b]["fields"]:
                f[d["n"]] = self.settle(ex, ex.ev(d["x"])) if d.get("x") else UNDEF
        loc = ex.new(St(n, f))
        for b in self.bases(n):
            c = self.mod.methods.get(b + ".constructor")
            if c:
                ex.call_fn(c, args, self_=Ref(loc, ()))
                for p, a in zip(c["params"], args):
                    if p.get("prop"):
                        raise Unsupported("parameter property")
                break
        return Ref(loc, ())

    # ---- calls
    def apply(self, ex, f, args, e):
        if isinstance(f, Ty):
            return self.glob_call(ex, f.n, args, e)
        if isinstance(f, Fn) and f.n != "lambda" and f.n not in self.mod.funcs:
            return self.glob_call(ex, f.n, args, e)
        return super().apply(ex, f, args, e)

    def glob_call(self, ex, n, args, e):
        a = [ex.deref(x) for x in args]
        if n == "Number" and len(a) == 1:
            v = a[0]
            if isinstance(v, I):
                if v.ty == "num":
                    return v
                if known(v.t):
                    return I(int(float(v.t)), "num")
                if ex.branch(and_(v.t <= SAFE, v.t >= -SAFE)):
                    return I(v.t, "num")
                if ex.branch(v.t > 0):
                    return I(ex.fresh("rnd", SAFE), "num")
                return I(ex.fresh("rnd", None, -SAFE), "num")
            if isinstance(v, B):
                return I(ite(v.t, 1, 0), "num")
            if isinstance(v, F):
                return v
        if n == "BigInt" and len(a) == 1 and isinstance(a[0], I):
            return I(a[0].t, "big")
        if n == "BigInt.asUintN" and isinstance(a[1], I):
            return I(modw(a[1].t, a[0].t, False), "big")
        if n == "BigInt.asIntN" and isinstance(a[1], I):
            return I(modw(a[1].t, a[0].t, True), "big")
        if n == "Math.fround":
            if isinstance(a[0], F) and a[0].w == 4:
                return a[0]
            if isinstance(a[0], F) and known(a[0].t):
                return self.fl(a[0], 4)
        if n in ("Math.min", "Math.max") and len(a) == 2 and all(isinstance(x, I) and x.ty == "num" for x in a):
            c = lt(a[0].t, a[1].t) if n == "Math.min" else lt(a[1].t, a[0].t)
            return I(ite(c, a[0].t, a[1].t), "num")
        if n in ("Math.floor", "Math.trunc", "Math.ceil", "Math.round") and isinstance(a[0], I) and a[0].ty == "num":
            return a[0]
        if n == "Boolean" and len(a) == 1:
            return B(self.truth(ex, a[0]))
        if n in ("Number.isInteger", "Number.isSafeInteger") and isinstance(a[0], I) and a[0].ty == "num":
            return B(True if n == "Number.isInteger" else and_(le(a[0].t, SAFE - 1), le(1 - SAFE, a[0].t)))
        if n in ERRS:
            return Er(("own",), n)
        if n == "String":
            return Un("text")
        raise Unsupported("call of " + n)

    def dv_at(self, ex, v, o):
        if not isinstance(o, I) or o.ty != "num":
            raise Thr(Er(("type",), "TypeError"))
        return o.t

    def method(self, ex, x, xnode, n, args, e):
        v = ex.deref(x)
        if isinstance(v, Buf) and v.kind == "view":
            return self.view_method(ex, v, n, args)
        if isinstance(v, Buf) and v.kind == "u8":
            return self.u8_method(ex, v, n, args)
        if isinstance(v, Msg):
            return self.msg_method(ex, v, n, args)
        if isinstance(v, St) and v.ty == "$TextEncoder" and n == "encode":
            s = ex.deref(args[0])
            if isinstance(s, S):
                return By(els=[I(b, "num") for b in s.h]) if isinstance(s.h, bytes) else By(h=s.h, n=s.n)
        if isinstance(v, St) and v.ty == "$TextDecoder" and n == "decode":
            b = ex.deref(args[0])
            if isinstance(b, Buf) and b.kind == "u8":
                b = self.take(ex, b)
            if isinstance(b, By):
                if v.f["bom"].h == b"drop" and b.els is None:
                    return S(ex.fresh("nobom"), b.n, None)     # some other text when the text starts with a mark
                t = self.text_of(ex, b)
                if isinstance(t, S) and not isinstance(t.h, bytes):
                    u = ex.fresh("u", 0)
                    ex.assume(zi(u) <= zi(t.n))
                    t = S(t.h, t.n, u)
                return t
        if isinstance(v, (L, A)):
            return self.list_method(ex, v, xnode, n, args)
        if isinstance(v, Er) or isinstance(v, Un):
            return Un("text")
        if isinstance(v, Null):
            raise Thr(Er(("type",), "TypeError"))
        if isinstance(v, (I, S)) and n == "toString":
            return Un("text")
        if not isinstance(v, St):
            raise Unsupported(f"method {n} of {v!r}")
        r = self.contract_method(ex, v.ty, n, v, args)
        if r is not NotImplemented:
            return r
        for b in self.bases(v.ty):
            fn = self.mod.methods.get(f"{b}.{n}")
            if fn:
                return ex.call_fn(fn, args, self_=x)
        raise Unsupported(f"method {v.ty}.{n}")

    def list_method(self, ex, v, xnode, n, args):
        if n == "push":
            self.check_root(ex, xnode)
            loc, path = ex.lvbase(xnode)
            if isinstance(v, A):
                if not (known(v.n) and v.n == 0):
                    raise Unsupported("push onto an array")
                v = L(())
            for a in args:
                v = v.push(self.settle(ex, a))
            ex.store(loc, path, v)
            return I(v.n, "num")
        if n in ("keys", "entries"):
            return St("$" + n, {"of": v})
        raise Unsupported("list method " + n)

    def iterable(self, ex, s):
        v = ex.deref(ex.ev(s["x"]))
        if isinstance(v, St) and v.ty == "$entries":
            q = v.f["of"]
            return q, ex.length(q), (lambda k: (I(k, "num"), ex.at(q, k)))
        if isinstance(v, St) and v.ty == "$keys":
            return v.f["of"], ex.length(v.f["of"]), (lambda k: I(k, "num"))
        if isinstance(v, (L, A, By)):
            return v, ex.length(v), (lambda k: ex.at(v, k))
        raise Unsupported("iteration")

    def untuple(self, ex, v, n):
        if isinstance(v, tuple):
            return list(v)
        raise Unsupported("destructuring")

    # ---- the buffer
    def view_method(self, ex, v, n, args):
        k = n[3:]
        if n[:3] not in ("get", "set") or k not in GET:
            raise Unsupported("DataView." + n)
        w, ty = GET[k]
        o = add(v.base, self.dv_at(ex, v, args[0]))
        big = k.startswith("Big")
        if n[:3] == "get":
            if v.loc != "$in":
                raise Unsupported("read from the output")
            little = w == 1 or len(args) > 1 and ex.branch(ex.truth(args[1]))
            if not self.in_room(ex, o, w):
                raise Thr(Er(("short",), "RangeError"))
            self.at_cur(ex, "$in", o, "a read")
            if ty is None:
                t = self.rd_bits(ex, w)
                return F(t if little else self.swapped(ex, w, 0, (1 << (8 * w)) - 1), w)
            t = self.rd_num(ex, w, ty).t
            if not little:
                t = self.swapped(ex, w, *RANGE[ty])
            return I(t, "big" if big else "num")
        if v.loc != "$out":
            raise Unsupported("write to the input")
        x = ex.deref(args[1])
        little = w == 1 or len(args) > 2 and ex.branch(ex.truth(args[2]))
        if ty is None:
            if isinstance(x, I) and x.ty == "num" and known(x.t):
                t = int.from_bytes(struct.pack("<f" if w == 4 else "<d", float(x.t)), "little")
            elif isinstance(x, F):
                t = self.fl(x, w).t
            else:
                raise Thr(Er(("type",), "TypeError"))
        else:
            if isinstance(x, B) and not big:
                x = I(ite(x.t, 1, 0), "num")
            if isinstance(x, I) and (x.ty == "big") != big:
                raise Thr(Er(("type",), "TypeError"))
            if not isinstance(x, I):
                raise Unsupported(f"write of {x!r}")
            t = x.t
        if not self.out_room(ex, o, w):
            raise Thr(Er(("range",), "RangeError"))
        self.at_cur(ex, "$out", o, "a write")
        if little:
            self.wr_num(ex, w, t)
        else:
            self.wr_swapped(ex, w, t)
        return UNDEF

    def take(self, ex, b):
        """the bytes of a window of the input, consumed"""
        if b.loc != "$in":
            raise Unsupported("read from the output")
        s = ex.heap["$in"]
        c = le(add(b.base, b.n), s.end)
        if not (c is True or ex.proves(c)):
            ex.oblige("only bytes of the view are read", c, props=["C04", "C08"])
        if not (known(b.n) and b.n == 0):
            self.at_cur(ex, "$in", b.base, "a read")
        return self.rd_bytes(ex, b.n)

    def u8_method(self, ex, v, n, args):
        if n == "set":
            b = ex.deref(args[0])
            if not isinstance(b, By):
                raise Unsupported("Uint8Array.set")
            o = args[1].t if len(args) > 1 else 0
            if not ex.branch(and_(le(0, o), le(add(o, b.n), v.n))):
                raise Thr(Er(("range",), "RangeError"))
            at = add(v.base, o)
            if not self.out_room(ex, at, b.n):
                ex.oblige("only bytes of the view are written", False, props=["C18", "C01"])
            if not (known(b.n) and b.n == 0):
                self.at_cur(ex, "$out", at, "a write")
            self.wr_bytes(ex, b)
            return UNDEF
        if n in ("subarray", "slice"):
            lo = args[0].t if args else 0
            hi = args[1].t if len(args) > 1 else v.n
            if not ex.proves(and_(le(0, lo), le(lo, hi), le(hi, v.n))):
                raise Unsupported("subarray")
            return Buf(v.loc, add(v.base, lo), sub(hi, lo), "u8")
        raise Unsupported("Uint8Array." + n)

    # ---- contracts
    def da(self, ex, v):
        v = v if isinstance(v, Ref) else None
        if v is None:
            raise Unsupported("position of a copy")
        x = ex.load(v.loc, v.path)
        while isinstance(x, Ref):
            v = x
            x = ex.load(v.loc, v.path)
        if not isinstance(x, St) or "currentOffset" not in x.f:
            raise Unsupported("reader")
        return v, x

    def before(self, ex, ref, what):
        v, x = self.da(ex, ref)
        loc = x.f["data"].loc
        self.at_cur(ex, loc, add(x.f["data"].base, x.f["currentOffset"].t), what)
        return v, loc

    def after(self, ex, v, loc):
        x = ex.load(v.loc, v.path)
        ex.store(v.loc, v.path + ("currentOffset",), I(sub(ex.heap[loc].cur, x.f["data"].base), "num"))

    def contract_method(self, ex, ty, n, v, args):
        mine = ty in self.p.structs or ty in self.p.messages
        if n == "writeBytes" and mine and self.target != ("write", ty):
            r, loc = self.before(ex, args[0], "the write of a " + ty)
            if ty in self.p.messages and ex.branch(ex.truth(args[1])):
                self.wr_num(ex, 1, self.p.msg_ids[ty])
            self.write_contract(ex, ty, v)
            self.room_left(ex)
            self.after(ex, r, loc)
            return UNDEF
        if n == "getSizeInBytes" and ty in self.p.messages and self.target != ("size", ty):
            return I(self.size_contract(ex, ty, v), "num")
        return NotImplemented

    def room_left(self, ex):
        s = ex.heap["$out"]
        if not ex.branch(le(s.cur, s.end)):
            raise Thr(Er(("range",), "RangeError"))

    def contract(self, ex, n, args, e):
        if n.endswith(".fromBytes"):
            t = n[:-10]
            if (t in self.p.structs or t in self.p.messages) and self.target != ("read", t):
                r, loc = self.before(ex, args[0], "the read of a " + t)
                v = self.read_contract(ex, t)
                if v is None:
                    # where a failed read stops is not said
                    raise Thr(Er(("sub",), "Error"))
                self.after(ex, r, loc)
                return v if isinstance(v, Msg) else Ref(ex.new(v), ())
        if n == "ProcessRawBytes" and self.target[0] != "process":
            r, loc = self.before(ex, args[0], "the processing")
            if not isinstance(args[1], I):
                raise Unsupported("maximum")
            v = self.process_contract(ex, args[1].t)
            if v is None:
                raise Thr(Er(("sub",), "Error"))
            self.after(ex, r, loc)
            return v
        return NotImplemented

    def msg_method(self, ex, m, n, args):
        if n == "getSizeInBytes":
            return I(self.msg_size(ex, m), "num")
        if n == "writeBytes":
            r, loc = self.before(ex, args[0], "the write of a message")
            self.msg_write(ex, m, ex.branch(ex.truth(args[1])))
            self.room_left(ex)
            self.after(ex, r, loc)
            return UNDEF
        if n == "getMessageType":
            return I(self.msg_tag(ex, m), "num")
        raise Unsupported("message method " + n)

    # ---- entry points
    def access(self, ex, loc):
        s = ex.heap[loc]
        r = self.create(ex, "DataAccess", [Buf(loc, 0, s.end, "view")])
        ex.store(r.loc, ("currentOffset",), I(s.start, "num"))
        ex.heap["$da"] = r
        return r

    def position(self, ex, stream):
        x = ex.deref(ex.heap["$da"])
        return x.f["currentOffset"].t

    def this(self, ex, v):
        return Ref(ex.new(v), ())

    def do_write(self, ex, t, v, tag):
        fn = self.mod.methods[t + ".writeBytes"]
        args = [self.access(ex, "$out")] + ([B(tag)] if t in self.p.messages else [])
        ex.call_fn(fn, args, self_=self.this(ex, v))

    def do_size(self, ex, t, v):
        r = ex.call_fn(self.mod.methods[t + ".getSizeInBytes"], [], self_=self.this(ex, v))
        if not isinstance(r, I) or r.ty != "num":
            raise Unsupported("size")
        return r.t

    def do_read(self, ex, t):
        v = ex.call_fn(self.mod.funcs[t + ".fromBytes"], [self.access(ex, "$in")])
        if isinstance(v, Null):
            return ("fail", v)
        return ("ok", v)

    def do_default(self, ex, t):
        return self.create(ex, t, [])

    def do_id(self, ex, t):
        v = self.inject(ex, codec.make(ex, self.p, t, False, "m"))
        return ex.call_fn(self.mod.methods[t + ".getMessageType"], [], self_=self.this(ex, v)).t

    def do_process(self, ex, mx):
        return ("ok", ex.call_fn(self.mod.funcs["ProcessRawBytes"], [self.access(ex, "$in"), I(mx, "num")]))

    def do_packed_size(self, ex, lst):
        return ex.call_fn(self.mod.funcs["GetPackedSize"], [lst]).t

    def do_pack(self, ex, lst):
        ex.call_fn(self.mod.funcs["PackMessages"], [lst, self.access(ex, "$out")])

    def do_unpack(self, ex):
        return ("ok", ex.call_fn(self.mod.funcs["UnpackMessages"], [self.access(ex, "$in")]))

    def has(self, kind, t=None):
        M, Fs = self.mod.methods, self.mod.funcs
        return {"write": f"{t}.writeBytes" in M, "size": f"{t}.getSizeInBytes" in M, "read": f"{t}.fromBytes" in Fs, "default": t in self.mod.types,
                "id": f"{t}.getMessageType" in M, "process": "ProcessRawBytes" in Fs, "pack": "PackMessages" in Fs,
                "packsize": "GetPackedSize" in Fs, "unpack": "UnpackMessages" in Fs}[kind]
