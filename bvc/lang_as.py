"""AssemblyScript: the object model of TypeScript with machine numbers.  A throw is a trap."""
from .lang_ts import *

INTS = {"u8": "u8", "i8": "i8", "u16": "u16", "i16": "i16", "u32": "u32", "i32": "i32", "u64": "u64", "i64": "i64", "usize": "ring", "isize": "i32"}
DV = {"Int8": (1, "i8"), "Uint8": (1, "u8"), "Int16": (2, "i16"), "Uint16": (2, "u16"), "Int32": (4, "i32"), "Uint32": (4, "u32"),
      "Int64": (8, "i64"), "Uint64": (8, "u64"), "Float32": (4, None), "Float64": (8, None)}
OWN = ("Error",)


class AS(TS):
    name_ = "assemblyscript"
    littype = "lit"
    maxpos = (1 << 30) - 1              # the largest ArrayBuffer is 1 GiB
    maxcount = (1 << 28) - 1
    stops = True                        # no recoverable errors: processing ends with the messages so far

    maxlen = (1 << 30) - 1

    def __init__(self, proto):
        super().__init__(proto)
        self.raw = {}               # a wrapped number: the number before

    def overflow(self, ex, t, ty, op):
        r = modw(t, BITS[ty], SIGNED[ty])
        if not known(r) and BITS[ty] == 32:
            self.raw[r.get_id()] = (r, t)
        return I(r, ty)

    def plain(self, ex, v):
        """a size as a number of its range"""
        if v.ty != "ring":
            return v
        t = v.t
        if known(t):
            return I(t % (1 << 32), "u32")
        if ex.proves_sum(and_(t >= 0, t < 1 << 32)):
            return I(t, "u32")
        return I(modw(t, 32, False), "u32")

    # ---- types
    def under(self, t):
        while isinstance(t, str) and self.mod.types.get(t, {}).get("kind") == "alias":
            t = self.mod.types[t]["t"]
        if isinstance(t, list) and t[0] == "union":
            ts = [x for x in t[1:] if x not in ("literal", "null")]
            return self.under(ts[0]) if len(ts) == 1 else t
        if isinstance(t, str):
            if t in INTS:
                return INTS[t]
            if self.mod.types.get(t, {}).get("kind") == "enum":
                return "i32"
            if t in ("bool", "boolean"):
                return "bool"
            if t in ("number", "f64"):
                return "f64"
        return t

    def zero(self, ex, t):
        u = self.under(t)
        if isinstance(u, str) and u in RANGE:
            return I(0, u)
        if u == "bool":
            return B(False)
        if u in ("f32", "f64"):
            return F(0, 4 if u == "f32" else 8)
        if u == "string":
            return Null()
        return NULL

    def lit_float(self, n, w):
        return F(int.from_bytes(struct.pack("<f" if w == 4 else "<d", float(n)), "little"), w)

    def coerce(self, ex, v, t):
        if t is None:
            return I(v.t, "i32" if not known(v.t) or -(1 << 31) <= v.t < 1 << 31 else "i64") if isinstance(v, I) and v.ty == "lit" else v
        u = self.under(t)
        if u == "ring":
            if isinstance(v, B):
                return I(ite(v.t, 1, 0), u)
            if isinstance(v, I) and v.ty in ("ring", "lit") or isinstance(v, I) and v.ty in BITS:
                if not known(v.t) and v.t.get_id() in self.raw:
                    return I(self.raw[v.t.get_id()][1], u)
                return I(v.t, u)
            if isinstance(v, I):
                raise Unsupported("conversion of a floating point number")
        if isinstance(v, I):
            v = self.plain(ex, v)
        if isinstance(u, str) and u in RANGE:
            if isinstance(v, B):
                return I(ite(v.t, 1, 0), u)
            if isinstance(v, I):
                if v.ty == "num":
                    if ex.proves(and_(zi(v.t) >= RANGE[u][0], zi(v.t) <= RANGE[u][1])):
                        return I(v.t, u)
                    raise Unsupported("conversion of a floating point number")
                return self.convert(ex, v, u)
        elif u == "bool":
            if isinstance(v, I):
                return B(not_(eq(v.t, 0)))
        elif u in ("f32", "f64"):
            if isinstance(v, I):
                if known(v.t) and u == "f32":
                    return self.lit_float(v.t, 4)
                if u == "f64" and (v.ty in ("num", "lit") or BITS.get(v.ty, 64) <= 32):
                    return I(v.t, "num") if t == "number" or not known(v.t) else self.lit_float(v.t, 8)
                raise Unsupported("conversion to a floating point number")
            if isinstance(v, F):
                return self.fl(v, 4 if u == "f32" else 8)
        elif isinstance(u, list) and u[0] == "array":
            x = ex.deref(v)
            if isinstance(x, L) and x.ty is None and isinstance(v, Ref):
                ex.store(v.loc, v.path, L([("one", self.coerce(ex, s[1], u[1])) if s[0] == "one" else s for s in x.segs], ("of", u[1])))
        return v

    def retype(self, ex, v, old):
        old = ex.deref(old) if isinstance(old, Ref) else old
        if isinstance(old, I) and old.ty == "ring" and isinstance(v, (I, B)):
            return self.coerce(ex, v, "usize")
        if isinstance(old, I) and isinstance(v, I) and old.ty in RANGE:
            return self.coerce(ex, v, old.ty)
        if isinstance(old, I) and isinstance(v, B) and old.ty in RANGE:
            return I(ite(v.t, 1, 0), old.ty)
        if isinstance(old, I) and old.ty == "num" and isinstance(v, I):
            return I(v.t, "num")
        if isinstance(old, F) and isinstance(v, (I, F)):
            return self.coerce(ex, v, "f32" if old.w == 4 else "f64")
        if isinstance(old, B) and isinstance(v, I):
            return B(not_(eq(v.t, 0)))
        return v

    def result(self, ex, fn, v):
        return self.coerce(ex, v, fn.get("ret")) if v is not None and fn.get("ret") is not None else v

    def truth(self, ex, v):
        v = ex.deref(v)
        if isinstance(v, I):
            v = self.plain(ex, v)
        if isinstance(v, B):
            return v.t
        return super().truth(ex, v)

    def num_value(self, ex, t, v):
        if t in self.p.enums:
            return I(v, "i32")
        if t in ("bool", "float", "double"):
            return super().num_value(ex, t, v)
        return I(v, MACH[t])

    def num_bits(self, ex, v, t):
        if isinstance(v, B):
            return ite(v.t, 1, 0) if t == "bool" else -(1 << 70)
        if t in ("float", "double"):
            return self.fl(v, 4 if t == "float" else 8).t if isinstance(v, F) else -(1 << 70)
        if isinstance(v, I) and v.ty == ("i32" if t in self.p.enums else MACH[t]):
            return v.t
        return -(1 << 70)

    def fltlit(self, ex, v):
        return F(int.from_bytes(struct.pack("<d", float(v)), "little"), 8)

    def name(self, ex, n):
        if n in INTS or n in ("f32", "f64", "bool"):
            return Fn(n)
        return super().name(ex, n)

    def e_as(self, ex, e):
        return self.coerce(ex, ex.ev(e["x"]), e["t"])

    def e_arr(self, ex, e):
        return Ref(ex.new(L([("one", self.settle(ex, ex.ev(x))) for x in e["els"]])), ())

    def static(self, ex, e):
        v = super().static(ex, e)
        x = e["x"]
        if isinstance(v, I) and x["k"] == "var" and self.mod.types.get(x["n"], {}).get("kind") == "enum":
            return I(v.t, "i32")
        if x["k"] == "field" and e["n"] in ("encode", "decode", "byteLength") and x["n"] == "UTF8" and x["x"].get("n") == "String":
            return Fn("String.UTF8." + e["n"])
        if x["k"] == "var" and x["n"] in INTS and x["n"] not in ex.env and e["n"] in ("MAX_VALUE", "MIN_VALUE"):
            return I(RANGE[INTS[x["n"]]][e["n"] == "MAX_VALUE"], INTS[x["n"]])
        return v

    def field(self, ex, v, n):
        if isinstance(v, Buf) and n in ("byteLength", "length", "byteOffset") or isinstance(v, (L, A, By)) and n in ("length", "byteLength"):
            if isinstance(v, Buf) and n == "byteOffset":
                raise Unsupported("byteOffset")
            return I(v.n, "i32")
        if isinstance(v, (A, By)) and n == "buffer":
            return v
        if isinstance(v, St) and not any(f"{b}.get {n}" in self.mod.methods for b in self.bases(v.ty)):
            return None
        if isinstance(v, Null):
            raise Crash("null reference")
        if isinstance(v, S) and n == "length":
            r = super().field(ex, v, n)
            return I(r.t, "i32")
        return super().field(ex, v, n)

    def index(self, ex, x, i):
        v = ex.deref(x)
        if isinstance(v, (L, A, By)) and isinstance(i, I):
            n = ex.length(v)
            if not ex.branch(and_(le(0, i.t), lt(i.t, n))):
                raise Crash("index out of range")
            if isinstance(v, By) and v.els is None:
                BYTE = z3.Function("BYTE", z3.IntSort(), z3.IntSort(), z3.IntSort())
                ex.w.facts.setdefault("BYTE", lambda a: [a >= 0, a <= 255])
                return I(BYTE(zi(v.h), zi(i.t)), "u8")
            return ex.at(v, i.t)
        raise Unsupported(f"index of {x!r}")

    def oob(self, ex):
        raise Crash("index out of range")

    def store_special(self, ex, l, v):
        if l["k"] == "paren" or l["k"] in ("as", "nonnull"):
            return self.store_special(ex, l["x"], v)
        if l["k"] == "var":
            return False
        self.check_root(ex, l["x"])
        if l["k"] == "index":
            loc, path = ex.lvbase(l["x"])
            x = ex.load(loc, path)
            if isinstance(x, (L, A)) and not (isinstance(x, A) and x.tag == "u8"):
                i = ex.ev(l["i"])
                if isinstance(x, A) and not (known(x.n) and x.n == 0):
                    return self.set_in(ex, l, v)
                n = x.n
                if ex.branch(eq(i.t, n)):
                    x = x if isinstance(x, L) else L((), x.ty)
                    ex.store(loc, path, x.push(self.elem(ex, x, v)))
                    return True
                if ex.branch(and_(le(0, i.t), lt(i.t, n))):
                    return self.set_in(ex, l, v)
                raise Crash("store behind the end of a list")
        return self.set_in(ex, l, v)

    def elem(self, ex, x, v):
        v = self.settle(ex, v)
        return self.coerce(ex, v, x.ty[1]) if isinstance(x.ty, tuple) and x.ty[0] == "of" else v

    def set_in(self, ex, l, v):
        loc, path = ex.lv(l)
        old = None
        try:
            old = ex.load(loc, path)
        except Unsupported:
            pass
        v = self.settle(ex, v)
        if isinstance(old, (L, A)) and isinstance(v, L) and v.ty is None:
            v = L(v.segs, old.ty)
        ex.store(loc, path, self.retype(ex, v, old))
        return True

    # ---- operators
    def binop(self, ex, o, x, y, e):
        x, y = ex.deref(x), ex.deref(y)
        if o in ("==", "!=", "===", "!=="):
            if isinstance(x, Null) or isinstance(y, Null):
                t = isinstance(x, Null) and isinstance(y, Null)
                return B(t == (o[0] == "="))
            if isinstance(x, (I, B)) and isinstance(y, (I, B)):
                x, y = self.both(ex, *[self.plain(ex, q) if isinstance(q, I) else q for q in (x, y)])
            t = ex.equal(x, y)
            return B(t if o[0] == "=" else not_(t))
        if isinstance(x, B):
            x = I(ite(x.t, 1, 0), y.ty if isinstance(y, I) and y.ty in RANGE else "i32")
        if isinstance(y, B):
            y = I(ite(y.t, 1, 0), x.ty if isinstance(x, I) and x.ty in RANGE else "i32")
        if isinstance(x, I) and isinstance(y, I):
            if "ring" in (x.ty, y.ty) and o in ("+", "-", "*") and not "num" in (x.ty, y.ty) and all(q.ty not in BITS or BITS[q.ty] <= 32 for q in (x, y)):
                return ex.arith(o, self.coerce(ex, x, "usize"), self.coerce(ex, y, "usize"), "ring")
            x, y = self.plain(ex, x), self.plain(ex, y)
            if o in ("<<", ">>", ">>>"):
                if x.ty == "num" or not known(y.t):
                    raise Unsupported("shift")
                b = y.t % (BITS[x.ty] if x.ty in BITS else 32)
                return ex.arith(o, x, I(b, x.ty), x.ty)
            x, y = self.both(ex, x, y)
            if o in ("<", "<=", ">", ">="):
                return ex.compare(o, x, y)
            ty = y.ty if x.ty == "lit" else x.ty
            if ty == "num":
                return self.num53(ex, ex.arith(o, x, y, "num"))
            return ex.arith(o, x, y, ty)
        if o == "+" and (isinstance(x, (S, Un)) or isinstance(y, (S, Un))):
            return Un("text")
        raise Unsupported(f"operator {o} on {x!r} and {y!r}")

    def both(self, ex, x, y):
        """operands of one type"""
        if isinstance(x, B):
            x = I(ite(x.t, 1, 0), "u8")
        if isinstance(y, B):
            y = I(ite(y.t, 1, 0), "u8")
        if x.ty == y.ty:
            return x, y
        if x.ty == "num" or y.ty == "num":
            return I(x.t, "num"), I(y.t, "num")
        if x.ty == "lit":
            return I(x.t, y.ty) if not known(x.t) or RANGE[y.ty][0] <= x.t <= RANGE[y.ty][1] else (I(x.t, "lit")), y
        if y.ty == "lit":
            return x, I(y.t, x.ty) if not known(y.t) or RANGE[x.ty][0] <= y.t <= RANGE[x.ty][1] else I(y.t, "lit")
        bx, by = BITS[x.ty], BITS[y.ty]
        t = x.ty if bx > by else y.ty if by > bx else ("u" + x.ty[1:])
        return self.convert(ex, x, t), self.convert(ex, y, t)

    def equal(self, ex, a, b):
        if isinstance(a, Fn) and isinstance(b, Fn):
            return a.n == b.n
        return None

    # ---- construction
    def e_newx(self, ex, e):
        n = e["n"]
        if n in self.mod.types and self.mod.types[n]["kind"] == "struct":
            return self.create(ex, n, [ex.ev(a) for a in e["a"]])
        args = [ex.ev(a) for a in e["a"]]
        a = [ex.deref(x) for x in args]
        if n in ERRS:
            return Er(("own",), n)
        if n in ("Array", "StaticArray"):
            t = (e.get("ta") or [None])[0]
            if not a and n == "Array":
                return Ref(ex.new(L((), ("of", t))), ())
            if len(a) == 1 and isinstance(a[0], I):
                k = self.convert(ex, a[0], "i32") if a[0].ty != "lit" else a[0]
                if not ex.branch(and_(le(0, k.t), le(k.t, 1 << 28))):
                    raise Crash("length of an array")
                z = self.zero(ex, t)
                return Ref(ex.new(A(k.t, lambda i: z, (), ("of", t))), ())
        if n == "DataView" and a and isinstance(a[0], Buf) and a[0].kind == "ab" and len(a) == 1:
            return Buf(a[0].loc, a[0].base, a[0].n, "view")
        if n == "Uint8Array" and len(a) == 1 and isinstance(a[0], I):
            k = self.coerce(ex, a[0], "i32")
            if not ex.branch(and_(le(0, k.t), lt(k.t, 1 << 30))):
                raise Crash("length of an array")
            return Ref(ex.new(A(k.t, lambda i: I(0, "u8"), (), ("of", "u8"), "u8")), ())
        raise Unsupported("new " + n)

    def create(self, ex, n, args):
        r = super().create(ex, n, args)
        d = ex.load(r.loc, r.path)
        if self.target == ("default", n) or n not in self.p.structs and n not in self.p.messages:
            f = dict(d.f)
            for b in reversed(self.bases(n)):
                for x in self.mod.types[b]["fields"]:
                    v = f.get(x["n"])
                    if v is UNDEF:
                        f[x["n"]] = self.zero(ex, x["t"])
                    elif isinstance(v, L) and v.ty is None:
                        u = self.under(x["t"])
                        f[x["n"]] = L([("one", self.coerce(ex, s[1], u[1])) if s[0] == "one" else s for s in v.segs], ("of", u[1]) if isinstance(u, list) else None)
                    else:
                        f[x["n"]] = self.coerce(ex, v, x["t"])
            ex.store(r.loc, r.path, St(n, f))
        return r

    def inject_list(self, ex, v):
        if known(v.n) and v.n == 0:
            return L((), ("of", v.t if v.t in self.p.enums or self.p.kind(v.t) == "struct" else {"bool": "bool", "float": "f32", "double": "f64", "string": "string"}.get(v.t) or MACH[v.t]))
        return super().inject_list(ex, v)

    def list_method(self, ex, v, xnode, n, args):
        if n == "push":
            self.check_root(ex, xnode)
            loc, path = ex.lvbase(xnode)
            if isinstance(v, A):
                if not (known(v.n) and v.n == 0):
                    raise Unsupported("push onto an array")
                v = L((), v.ty)
            for a in args:
                v = v.push(self.elem(ex, v, a))
            ex.store(loc, path, v)
            return I(v.n, "i32")
        raise Unsupported("list method " + n)

    # ---- calls
    def glob_call(self, ex, n, args, e):
        a = [ex.deref(x) for x in args]
        if (n in INTS or n in ("f32", "f64", "bool")) and len(a) == 1:
            return self.coerce(ex, a[0], n)
        if n == "String.UTF8.encode" and isinstance(a[0], S) and (len(a) == 1 or isinstance(a[1], B) and a[1].t is False):
            s = a[0]
            return By(els=[I(b, "u8") for b in s.h]) if isinstance(s.h, bytes) else By(h=s.h, n=s.n)
        if n == "String.UTF8.byteLength" and isinstance(a[0], S) and (len(a) == 1 or isinstance(a[1], B) and a[1].t is False):
            return I(a[0].n, "i32")
        if n == "Uint8Array.wrap" and len(a) == 1 and isinstance(a[0], By):
            return a[0]
        if n == "String.UTF8.decode" and (len(a) == 1 or isinstance(a[1], B) and a[1].t is False):
            return self.decode(ex, a[0])
        if n in ERRS:
            return Er(("own",), n)
        if n in ("min", "max") and len(a) == 2 and all(isinstance(x, I) for x in a):
            x, y = self.both(ex, *a)
            c = lt(x.t, y.t) if n == "min" else lt(y.t, x.t)
            return I(ite(c, x.t, y.t), x.ty)
        raise Unsupported("call of " + n)

    def decode(self, ex, b):
        """the text of an array of bytes; bytes taken from the input one by one become a text of the input"""
        if isinstance(b, By):
            return self.text_of(ex, b)
        if not isinstance(b, A):
            raise Unsupported("text of " + repr(b))
        if known(b.n) and b.n <= 64:
            els = [ex.at(b, i) for i in range(b.n)]
            if all(isinstance(x, I) for x in els):
                return self.text_of(ex, By(els=els))
        if ex.proves(eq(b.n, 0)):
            return S(b"")
        if len(b.writes) == 1 and b.writes[0][0] == "rep" and len(b.writes[0][3]) == 1 and ex.proves(eq(b.writes[0][1], b.n)):
            _, K, j, ((g, x),) = b.writes[0]
            s = ex.heap.get("$in")
            if s is not None and s.ev and s.ev[-1][0] == "rep" and len(s.ev[-1][3]) == 1 and isinstance(x, I):
                _, K2, j2, ((g2, q),) = s.ev[-1]
                if ex.proves(eq(K2, K)) and len(q) == 1 and q[0][0] == "n" and q[0][1] == 1 and not known(q[0][2]):
                    k = z3.Int("k!decode")
                    ex.w.facts.setdefault("k!decode", lambda a: [a >= 0])
                    if same(subst(x.t, j, k), subst(q[0][2], j2, k)):
                        h = ex.fresh("h")
                        ex.heap["$in"] = s.with_(ev=s.ev[:-1] + (("s", h, b.n),))
                        return S(h, b.n, None)
        raise Unsupported("text of bytes from elsewhere")

    def u8_method(self, ex, v, n, args):
        raise Unsupported("Uint8Array." + n)

    def view_method(self, ex, v, n, args):
        k = n[3:]
        if n[:3] not in ("get", "set") or k not in DV:
            raise Unsupported("DataView." + n)
        w, ty = DV[k]
        at = self.coerce(ex, ex.deref(args[0]), "i32")
        o = add(v.base, at.t)
        if n[:3] == "get":
            if v.loc != "$in":
                raise Unsupported("read from the output")
            little = w == 1 or len(args) > 1 and ex.branch(ex.truth(args[1]))
            if not ex.branch(and_(le(0, at.t), le(add(o, w), ex.heap["$in"].end))):
                raise Crash("DataView access behind the end")
            self.at_cur(ex, "$in", o, "a read")
            if ty is None:
                t = self.rd_bits(ex, w)
                return F(t if little else self.swapped(ex, w, 0, (1 << (8 * w)) - 1), w)
            t = self.rd_num(ex, w, ty).t
            return I(t if little else self.swapped(ex, w, *RANGE[ty]), ty)
        if v.loc != "$out":
            raise Unsupported("write to the input")
        x = ex.deref(args[1])
        little = w == 1 or len(args) > 2 and ex.branch(ex.truth(args[2]))
        x = self.coerce(ex, x, ty or ("f32" if w == 4 else "f64"))
        if not isinstance(x, (F if ty is None else I)):
            raise Unsupported(f"write of {x!r}")
        if not ex.branch(and_(le(0, at.t), le(add(o, w), ex.heap["$out"].end))):
            raise Crash("DataView access behind the end")
        self.at_cur(ex, "$out", o, "a write")
        self.wr_num(ex, w, x.t) if little else self.wr_swapped(ex, w, x.t)
        return UNDEF

    # ---- contracts
    def after(self, ex, v, loc):
        x = ex.load(v.loc, v.path)
        ex.store(v.loc, v.path + ("currentOffset",), I(sub(ex.heap[loc].cur, x.f["data"].base), "u32"))

    def failing(self, ex, v):
        ex.store(v.loc, v.path + ("hasError",), B(ex.fresh_bool("err")))

    def refused(self, ex, ref):
        """an error is not forgotten"""
        x = ex.deref(ref)
        if isinstance(x, St) and isinstance(x.f.get("hasError"), B) and x.f["hasError"].t is not False:
            if ex.branch(x.f["hasError"].t):
                raise Unsupported("use of a reader after an error")

    def room_left(self, ex, v=None):
        s = ex.heap["$out"]
        return ex.branch(le(s.cur, s.end))

    def contract_method(self, ex, ty, n, v, args):
        mine = ty in self.p.structs or ty in self.p.messages
        wn = "writeBytesDA" if ty in self.p.messages else "writeBytes"
        if n == wn and mine and self.target != ("write", ty):
            self.refused(ex, args[0])
            r, loc = self.before(ex, args[0], "the write of a " + ty)
            if ty in self.p.messages and ex.branch(ex.truth(args[1])):
                self.wr_num(ex, 1, self.p.msg_ids[ty])
            self.write_contract(ex, ty, v)
            if not self.room_left(ex):
                ex.store(r.loc, r.path + ("hasError",), B(True))
                return B(False)
            self.after(ex, r, loc)
            return B(True)
        if n == "getSizeInBytes" and ty in self.p.messages and self.target != ("size", ty):
            return I(self.size_contract(ex, ty, v), "ring")
        return NotImplemented

    def contract(self, ex, n, args, e):
        t, _, m = n.rpartition(".")
        if m == ("fromBytesDA" if t in self.p.messages else "fromBytes") and (t in self.p.structs or t in self.p.messages) and self.target != ("read", t):
            self.refused(ex, args[0])
            r, loc = self.before(ex, args[0], "the read of a " + t)
            v = self.read_contract(ex, t)
            if v is None:
                self.failing(ex, r)
                return NULL
            self.after(ex, r, loc)
            return v if isinstance(v, Msg) else Ref(ex.new(v), ())
        if n == "ProcessRawBytesDA" and self.target[0] != "process":
            self.refused(ex, args[0])
            r, loc = self.before(ex, args[0], "the processing")
            v = self.process_contract(ex, args[1].t)
            self.after(ex, r, loc)
            self.failing(ex, r)
            return Ref(ex.new(v), ())
        return NotImplemented

    def unknown_of(self, ex, e):
        m = self.members(ex, e)
        if "_Unknown" not in m:
            raise Unsupported("no _Unknown in " + e)
        return m["_Unknown"]

    def enum_read(self, ex, e, t):
        return ite(or_(*[eq(t, v) for v in self.p.enums[e].numbers]), t, self.unknown_of(ex, e))

    def read_contract(self, ex, t):
        if t in self.p.messages:
            return super().read_contract(ex, t)
        if ex.choose(2):
            self.ghost(ex, "sub")
            return None
        s = ex.heap["$in"]
        ex.ctr += 1
        pv = codec.make(ex, self.p, t, False, f"c!{ex.ctr}", tuple(ex.idx), declared=False)
        n = codec.size(ex, self.p, pv)
        ex.assume(zi(add(s.cur, n)) <= zi(s.end))
        ex.heap["$in"] = s.with_(cur=add(s.cur, n), ev=s.ev + tuple(codec.toks(ex, self.p, pv)))
        self.reading = True
        try:
            return self.inject(ex, pv)
        finally:
            self.reading = False
    reading = False

    def inject(self, ex, v):
        if v.kind == "num" and self.reading and v.t in self.p.enums:
            return I(self.enum_read(ex, v.t, v.v), "i32")
        if v.kind == "list":
            rd = self.reading
            if known(v.n) and v.n == 0:
                return self.inject_list(ex, v)

            def el(i):
                old, self.reading = self.reading, rd
                try:
                    return self.inject(ex, v.fn(i))
                finally:
                    self.reading = old
            return A(v.n, el, (), None)
        return super().inject(ex, v)

    def process_contract(self, ex, mx):
        s = ex.heap["$in"]
        K = ex.fresh("pk", 0, (1 << 28) - 1)
        ex.assume(or_(lt(mx, 0), le(K, mx)))
        n = ex.fresh("pn", 0)
        ex.assume(zi(add(s.cur, n)) <= zi(s.end))
        ex.heap["$in"] = s.with_(cur=add(s.cur, n), ev=s.ev + (("proc", K, mx),))
        ex.ctr += 1
        j = z3.Int(f"j!p{ex.ctr}")
        d = z3.Function(f"ph!{ex.ctr}", z3.IntSort(), z3.IntSort())
        return L([("rep", K, j, ((True, Msg(None, d(j))),))])

    def msg_method(self, ex, m, n, args):
        if n == "getSizeInBytes":
            return I(self.msg_size(ex, m), "ring")
        if n == "writeBytesDA":
            self.refused(ex, args[0])
            r, loc = self.before(ex, args[0], "the write of a message")
            self.msg_write(ex, m, ex.branch(ex.truth(args[1])))
            if not self.room_left(ex):
                ex.store(r.loc, r.path + ("hasError",), B(True))
                return B(False)
            self.after(ex, r, loc)
            return B(True)
        if n == "getMessageType":
            return I(self.msg_tag(ex, m), "i32")
        raise Unsupported("message method " + n)

    # ---- entry points
    def access(self, ex, loc):
        s = ex.heap[loc]
        r = self.create(ex, "DataAccess", [Buf(loc, 0, s.end, "view")])
        ex.store(r.loc, ("currentOffset",), I(s.start, "u32"))
        ex.heap["$da"] = r
        return r

    def trapped(self, f):
        try:
            return f()
        except Thr:
            raise Crash("throws, which is a trap")

    def do_write(self, ex, t, v, tag):
        m = t in self.p.messages
        fn = self.mod.methods[t + (".writeBytesDA" if m else ".writeBytes")]
        args = [self.access(ex, "$out")] + ([B(tag)] if m else [])
        r = self.trapped(lambda: ex.call_fn(fn, args, self_=self.this(ex, v)))
        if not ex.branch(ex.truth(r)):
            return ("fail", r)
        return r

    def do_size(self, ex, t, v):
        r = self.trapped(lambda: ex.call_fn(self.mod.methods[t + ".getSizeInBytes"], [], self_=self.this(ex, v)))
        if not isinstance(r, I) or r.ty not in ("ring", "u32"):
            raise Unsupported("size")
        return self.plain(ex, r).t

    def do_packed_size(self, ex, lst):
        return self.plain(ex, self.trapped(lambda: ex.call_fn(self.mod.funcs["GetPackedSize"], [lst]))).t

    def do_read(self, ex, t):
        v = self.trapped(lambda: ex.call_fn(self.mod.funcs[t + (".fromBytesDA" if t in self.p.messages else ".fromBytes")], [self.access(ex, "$in")]))
        if isinstance(ex.deref(v), Null):
            return ("fail", v)
        return ("ok", v)

    def do_process(self, ex, mx):
        return ("ok", self.trapped(lambda: ex.call_fn(self.mod.funcs["ProcessRawBytesDA"], [self.access(ex, "$in"), I(mx, "num")])))

    def do_pack(self, ex, lst):
        ex.call_fn(self.mod.funcs["PackMessages"], [lst, self.view(ex, "$out")])

    def do_unpack(self, ex):
        return ("ok", ex.call_fn(self.mod.funcs["UnpackMessages"], [self.view(ex, "$in")]))

    def view(self, ex, loc):
        """a view whose start is where the stream is"""
        s = ex.heap[loc]
        return Buf(loc, s.start, sub(s.end, s.start), "view")

    def has(self, kind, t=None):
        M, Fs = self.mod.methods, self.mod.funcs
        m = t in self.p.messages
        return {"write": f"{t}.writeBytes" + "DA" * m in M, "size": f"{t}.getSizeInBytes" in M, "read": f"{t}.fromBytes" + "DA" * m in Fs, "default": t in self.mod.types,
                "id": f"{t}.getMessageType" in M, "process": "ProcessRawBytesDA" in Fs, "pack": "PackMessages" in Fs,
                "packsize": "GetPackedSize" in Fs, "unpack": "UnpackMessages" in Fs}[kind]
