"""C#."""
from .langbase import *
from .lang_ts import TS

UND = {"byte": "u8", "uint16": "u16", "int16": "i16", "uint32": "u32", "int32": "i32", "uint64": "u64", "int64": "i64"}
CSTY = dict(UND, bool="bool", float="f32", double="f64", string="str")
READ = {"ReadByte": (1, "u8"), "ReadSByte": (1, "i8"), "ReadUInt16": (2, "u16"), "ReadInt16": (2, "i16"), "ReadUInt32": (4, "u32"),
        "ReadInt32": (4, "i32"), "ReadUInt64": (8, "u64"), "ReadInt64": (8, "i64")}
SUPER = {"EndOfStreamException": "IOException", "IOException": "SystemException", "SystemException": "Exception", "ArgumentException": "SystemException",
         "ArgumentOutOfRangeException": "ArgumentException", "ArgumentNullException": "ArgumentException", "OverflowException": "ArithmeticException",
         "ArithmeticException": "SystemException", "DivideByZeroException": "ArithmeticException", "NullReferenceException": "SystemException",
         "IndexOutOfRangeException": "SystemException", "InvalidCastException": "SystemException", "OutOfMemoryException": "SystemException",
         "InvalidOperationException": "SystemException", "NotSupportedException": "SystemException", "FormatException": "SystemException"}
TOINT = {"ToByte": "u8", "ToSByte": "i8", "ToUInt16": "u16", "ToInt16": "i16", "ToUInt32": "u32", "ToInt32": "i32", "ToUInt64": "u64", "ToInt64": "i64"}
MAX32 = (1 << 31) - 1


class CS(Lang):
    name_ = "csharp"
    littype = "i32"
    maxpos = MAX32
    maxlen = MAX32

    settle = TS.settle
    check_root = TS.check_root
    store_special = TS.store_special
    bases = TS.bases
    create_ = TS.create
    untuple = TS.untuple
    this = TS.this

    # ---- errors
    def err(self, n, cause=("own",)):
        return Er(cause, n)

    def chain(self, n):
        out = []
        while n and n not in out:
            out.append(n)
            n = SUPER.get(n) or (self.mod.types.get(n) or {}).get("ext")
        return out

    def raise_(self, n, cause=("own",)):
        raise Thr(self.err(n, cause))

    def reported(self, ex, t, v):
        """a message that cannot be read is reported with the exception of the generated code"""
        if t not in self.p.messages or not isinstance(v, Er):
            return None
        return "DataReadErrorException" in self.chain(v.ty), f"is reported as DataReadErrorException (is {v.ty})"

    def s_trycs(self, ex, s):
        env, dep, fr, df = ex.env, ex.depth, len(ex.frames), ex.defers
        fin = s.get("fin")

        def finish():
            if fin is not None:
                e = ex.env
                ex.env = env
                ex.block(fin)
                ex.env = e
        try:
            try:
                ex.block(s["b"])
            except Thr as t:
                ex.env, ex.depth, ex.defers = env, dep, df
                del ex.frames[fr:]
                v = ex.deref(t.v)
                if not isinstance(v, Er):
                    raise Unsupported(f"exception {v!r}")
                for h in s["hs"]:
                    if h["t"] not in self.chain(v.ty):
                        continue
                    ex.bind("$exc", v)
                    if h["n"]:
                        ex.bind(h["n"], v)
                    if h["when"] is not None and not ex.branch(ex.truth(ex.ev(h["when"]))):
                        ex.env = env
                        continue
                    ex.block(h["b"])
                    ex.env = env
                    break
                else:
                    raise
        except (Thr, Ret, Brk, Cont):
            finish()
            ex.env = env
            raise
        finish()
        ex.env = env

    # ---- types and values
    def zero(self, ex, t):
        if isinstance(t, str):
            if t in RANGE:
                return I(0, t)
            if t == "char":
                return I(0, "u16")
            if t == "bool":
                return B(False)
            if t in ("f32", "f64"):
                return F(0, 4 if t == "f32" else 8)
            if t in self.mod.types and self.mod.types[t].get("val"):
                raise Unsupported("value type")
            return NULL
        if t[0] == "enum":
            return I(0, t[2])
        return NULL

    def e_dflt(self, ex, e):
        return self.zero(ex, e["t"])

    def truth(self, ex, v):
        raise Unsupported(f"condition {v!r}")

    def retype(self, ex, v, old):
        if isinstance(v, I) and isinstance(old, I) and v.ty != old.ty:
            if v.ty == "lit":
                return ex.fit(v.t, old.ty)
            raise Unsupported("number of another type")
        return v

    def fname(self, t, m):
        d = self.mod.types.get(t)
        if d is None:
            raise Unsupported("no declaration of " + t)
        fs = [f for f in d["fields"] if f["n"] == m] or [f for f in d["fields"] if norm(f["n"]) == norm(m)]
        if not fs:
            raise Unsupported(f"no member {m} in {t}")
        st = self.p.st(t)
        for n, mt, l in st.members:
            if n == m:
                w = self.cstype(mt)
                w = ["g", "List", w] if l else w
                if fs[0]["t"] != w:
                    raise Unsupported(f"{t}.{m} is declared as {fs[0]['t']}")
        return fs[0]["n"]

    def cstype(self, t):
        if t in self.p.enums:
            d = self.mod.types.get(t)
            if not d or d["kind"] != "enum" or d["base"] != self.enum_type(t):
                raise Unsupported("enum " + t)
            return ["enum", t, d["base"]]
        return CSTY.get(t, t)

    def enc(self, ex, v, t, is_list):
        if isinstance(ex.deref(v), Null):
            return [("n", 1, -(1 << 70))]       # null is not a value of the protocol
        return super().enc(ex, v, t, is_list)

    def e_fbits(self, ex, e):
        return F(int(e["v"]), e["w"])

    def e_arrlit(self, ex, e):
        els = [self.settle(ex, ex.ev(x)) for x in e["els"]]
        if e["t"] == "u8":
            return By(els=els)
        return Ref(ex.new(L([("one", x) for x in els])), ())

    def e_newarr(self, ex, e):
        n = ex.ev(e["n"])
        if not ex.branch(le(0, n.t)):
            self.raise_("OverflowException")
        return Ref(ex.new(A(n.t, lambda i, t=e["t"]: self.zero(ex, t), (), e["t"])), ())

    def e_coalesce(self, ex, e):
        x = ex.ev(e["x"])
        return ex.ev(e["y"]) if isinstance(x, Null) else x

    def e_throwx(self, ex, e):
        raise Thr(ex.ev(e["x"]))

    def e_text(self, ex, e):
        for a in e["a"]:
            ex.ev(a)
        return Un("text")

    def e_typ(self, ex, e):
        return Ty(e["t"])

    def e_sprop(self, ex, e):
        q = e["cls"] + "." + e["n"]
        if q in ("Encoding.UTF8", "String.Empty", "BitConverter.IsLittleEndian"):
            return {"Encoding.UTF8": Ty("UTF8"), "String.Empty": S(b""), "BitConverter.IsLittleEndian": B(True)}[q]
        raise Unsupported(q)

    def e_isinst(self, ex, e):
        v = ex.deref(ex.ev(e["x"]))
        t = e["t"]
        if isinstance(v, Null):
            r = False
        elif isinstance(v, St):
            r = t in self.bases(v.ty)
        elif isinstance(v, Msg) and v.h:
            r = t in ("Message", v.h)
        elif isinstance(v, Er):
            r = t in self.chain(v.ty)
        else:
            raise Unsupported("type test")
        return B(r != bool(e.get("neg")))

    def e_field(self, ex, e):
        return ex.getfield(ex.ev(e["x"]), e["n"])

    def field(self, ex, v, n):
        if isinstance(v, Null):
            self.raise_("NullReferenceException")
        if isinstance(v, Buf):
            s = ex.heap[v.loc]
            if v.kind in ("br", "bw") and n in ("BaseStream", "OutStream"):
                return Buf(v.loc, 0, s.end, "stream")
            if v.kind == "stream" and n in ("CanSeek", "CanRead", "CanWrite"):
                return B(True)
            if v.kind == "stream" and n == "Position":
                return I(s.cur, "i64")
            if v.kind == "stream" and n == "Length" and v.loc == "$in":
                return I(s.end, "i64")
        if isinstance(v, (L, A)) and n in ("Count", "Length"):
            return I(v.n, "i32")
        if isinstance(v, A) and n == "LongLength":
            return I(v.n, "i64")
        if isinstance(v, By) and n in ("Length", "LongLength", "Count"):
            return I(v.n, "i64" if n == "LongLength" else "i32")
        if isinstance(v, S) and n == "Length":
            if isinstance(v.h, bytes):
                return I(len(v.h.decode("utf-8").encode("utf-16-le")) // 2, "i32")
            if v.ulen is None:
                raise Unsupported("length of a text that was read")
            return I(v.ulen, "i32")
        if isinstance(v, Er):
            return Un("text")
        return None

    def index(self, ex, x, i):
        v = ex.deref(x)
        if isinstance(v, Null):
            self.raise_("NullReferenceException")
        if not isinstance(v, (L, A, By)) or not isinstance(i, I):
            raise Unsupported(f"index of {v!r}")
        self.oobv = v
        self.inrange(ex, v, i, ex.length(v))
        return ex.at(v, i.t)

    def oob(self, ex):
        self.raise_("ArgumentOutOfRangeException")

    # ---- operators
    def cast(self, ex, v, t, e):
        if isinstance(t, list) and t[0] == "enum":
            t = t[2]
        if t == "char":
            t = "u16"
        if isinstance(t, str) and t in RANGE:
            if isinstance(v, I):
                if v.ty == t:
                    return v
                if v.ty in RANGE and RANGE[t][0] <= RANGE[v.ty][0] and RANGE[v.ty][1] <= RANGE[t][1]:
                    return I(v.t, t)
                if e.get("chk"):
                    return self.checked(ex, v.t, t)
                return self.convert(ex, v, t)
            raise Unsupported(f"conversion of {v!r}")
        if t in ("f32", "f64"):
            w = 4 if t == "f32" else 8
            if isinstance(v, I) and known(v.t):
                return F(int.from_bytes(struct.pack("<f" if w == 4 else "<d", float(v.t)), "little"), w)
            if isinstance(v, F):
                return TS.fl(self, v, w)
            raise Unsupported("floating point conversion")
        if isinstance(v, (I, F, B)) and t not in ("obj", "bool"):
            raise Unsupported(f"conversion to {t}")
        if isinstance(t, list) and t[0] == "g" and t[1] in ("ReadOnlySpan", "Span", "Nullable", "Memory", "ReadOnlyMemory"):
            raise Unsupported(f"conversion to {t[1]}")
        x = ex.deref(v)
        if isinstance(x, St) and isinstance(t, str) and t in self.mod.types and t not in self.bases(x.ty):
            if e.get("try"):
                return NULL
            self.raise_("InvalidCastException")
        if isinstance(x, Msg) and t != "Message" and t != x.h:
            raise Unsupported("downcast")
        return v

    def checked(self, ex, t, ty):
        lo, hi = RANGE[ty]
        if not ex.branch(and_(le(lo, t), le(t, hi))):
            self.raise_("OverflowException")
        return I(t, ty)

    def binop(self, ex, o, x, y, e):
        x, y = ex.deref(x), ex.deref(y)
        if o in ("==", "!="):
            return ex.compare(o, x, y)
        if isinstance(x, I) and isinstance(y, I):
            if o in ("<", "<=", ">", ">="):
                return ex.compare(o, x, y)
            ty = y.ty if x.ty == "lit" else x.ty
            if o in ("<<", ">>", ">>>"):
                if not known(y.t):
                    raise Unsupported("shift")
                y = I(y.t & (BITS[ty] - 1), y.ty)
                if o == ">>>" and SIGNED[ty] and not ex.proves(zi(x.t) >= 0):
                    raise Unsupported("shift")
            if e.get("chk") and o in ("+", "-", "*"):
                return self.checked(ex, {"+": add, "-": sub, "*": mul}[o](x.t, y.t), ty)
            if o in ("/", "%") and known(y.t) and y.t == 0:
                self.raise_("DivideByZeroException")
            return ex.arith(o, x, y, ty)
        if isinstance(x, B) and isinstance(y, B) and o in ("&", "|", "^"):
            if o == "^":
                return B(not_(x.t == y.t) if known(x.t) and known(y.t) else z3.Xor(zb(x.t), zb(y.t)))
            return B(and_(x.t, y.t) if o == "&" else or_(x.t, y.t))
        if o == "+" and (isinstance(x, (S, Un)) or isinstance(y, (S, Un))):
            return Un("text")
        raise Unsupported(f"operator {o} on {x!r} and {y!r}")

    def equal(self, ex, a, b):
        if isinstance(a, Ty) and isinstance(b, Ty):
            return a.n == b.n
        return None

    # ---- construction
    def e_newx(self, ex, e):
        args = [ex.ev(a) for a in e["a"]]
        n = e["n"]
        if e.get("exc"):
            return Er(("own",), n)
        if e.get("src"):
            return self.create(ex, n, args, e.get("key"))
        t = e["t"]
        if isinstance(t, list) and t[:2] == ["g", "List"]:
            if not args:
                return Ref(ex.new(L((), t[2])), ())
            a = ex.deref(args[0])
            if isinstance(a, I):
                if not ex.branch(le(0, a.t)):
                    self.raise_("ArgumentOutOfRangeException")
                if not ex.proves(le(a.t, 1 << 16)):
                    raise Unsupported("reserved space")
                return Ref(ex.new(L((), t[2])), ())
            if isinstance(a, L):
                return Ref(ex.new(a), ())
        raise Unsupported("new " + n)

    def e_newi(self, ex, e):
        r = ex.ev(e["x"])
        if not isinstance(r, Ref):
            raise Unsupported("initializer")
        for n, x in e["f"]:
            v = ex.load(r.loc, r.path)
            if not isinstance(v, St) or n not in v.f:
                raise Unsupported("initializer")
            ex.store(r.loc, r.path + (n,), self.settle(ex, ex.ev(x)))
        for x in e["els"]:
            v = ex.load(r.loc, r.path)
            if not isinstance(v, L):
                raise Unsupported("initializer")
            y = self.settle(ex, ex.ev(x))
            ex.store(r.loc, r.path, ex.load(r.loc, r.path).push(y))
        return r

    def create(self, ex, n, args, key=None):
        if (n in self.p.structs or n in self.p.messages) and self.target != ("default", n) and not args:
            return Ref(ex.new(self.inject(ex, codec.default(ex, self.p, n))), ())
        f = {}
        for b in reversed(self.bases(n)):
            for d in self.mod.types[b]["fields"]:
                f[d["n"]] = self.settle(ex, ex.ev(d["x"])) if d.get("x") else self.zero(ex, d["t"])
        loc = ex.new(St(n, f))
        for b in reversed(self.bases(n)[1:]):
            for k in self.mod.methods:
                if k.startswith(b + ".constructor"):
                    raise Unsupported("constructor of a base")
        c = self.mod.methods.get(key or n + ".constructor")
        if c:
            ex.call_fn(c, args, self_=Ref(loc, ()))
        elif args:
            raise Unsupported("constructor")
        return Ref(loc, ())

    # ---- calls
    def e_setprop(self, ex, e):
        x = ex.ev(e["x"]) if e["x"] is not None else None
        if e["src"] and e["key"] in self.mod.methods:
            v = ex.ev(e["v"])
            ex.call_fn(self.mod.methods[e["key"]], [v], self_=x)
            return v
        v = ex.deref(x)
        if isinstance(v, (L,)) and e["n"] == "Capacity":
            n = ex.ev(e["v"])
            if not ex.branch(le(v.n, n.t)):
                self.raise_("ArgumentOutOfRangeException")
            if not ex.proves(le(n.t, 1 << 16)):
                raise Unsupported("reserved space")
            return n
        raise Unsupported("property " + e["n"])

    def pure_icall(self, ex, e):
        return False

    def e_icall(self, ex, e):
        n, cls = e["n"], e["cls"]
        if e["src"]:
            if e["x"] is None:
                args = [ex.ev(a) for a in e["a"]]
                r = self.contract(ex, e["key"], args, e)
                if r is not NotImplemented:
                    return r
                fn = self.mod.funcs.get(e["key"])
                if fn is None or any(p.get("ref") for p in fn["params"]):
                    raise Unsupported("call of " + e["key"])
                return ex.call_fn(fn, args)
            x = ex.ev(e["x"])
            args = [ex.ev(a) for a in e["a"]]
            v = ex.deref(x)
            if isinstance(v, Null):
                self.raise_("NullReferenceException")
            if isinstance(v, Msg):
                return self.msg_method(ex, v, n, args)
            if not isinstance(v, St):
                raise Unsupported(f"method {n} of {v!r}")
            r = self.contract_method(ex, v.ty, n, v, args)
            if r is not NotImplemented:
                return r
            tail = e["key"][len(cls):]
            for b in self.bases(v.ty) if e.get("virt") else [cls]:
                fn = self.mod.methods.get(b + tail)
                if fn:
                    return ex.call_fn(fn, args, self_=x)
            raise Unsupported(f"method {v.ty}.{n}")
        if e["x"] is None:
            return self.static_call(ex, cls, n, [ex.ev(a) for a in e["a"]], e)
        x = ex.ev(e["x"])
        v = ex.deref(x)
        args = [ex.ev(a) for a in e["a"]]
        if isinstance(v, Null):
            self.raise_("NullReferenceException")
        if isinstance(v, Buf):
            return self.io(ex, v, n, args, e)
        if isinstance(v, Ty) and v.n == "UTF8":
            return self.utf8(ex, n, args)
        if isinstance(v, (L, A)):
            return self.list_call(ex, v, e["x"], n, args)
        if isinstance(v, (Er, Un)) or n == "ToString" and isinstance(v, (I, S, F, B)):
            return Un("text")
        if n in ("CompareTo", "Equals") and isinstance(v, I):
            a = ex.deref(args[0])
            if n == "Equals" and isinstance(a, I) and a.ty == v.ty:
                return B(eq(a.t, v.t))
        raise Unsupported(f"{cls}.{n}")

    def static_call(self, ex, cls, n, args, e):
        a = [ex.deref(x) for x in args]
        if cls == "Enum" and n == "IsDefined":
            if e.get("ta"):
                t, v = e["ta"][0][1], a[0]
            else:
                t, v = a[0].n, a[1]
            d = self.mod.types.get(t)
            if not d or d["kind"] != "enum" or not isinstance(v, I):
                raise Unsupported("Enum.IsDefined")
            if d["base"] != v.ty:
                self.raise_("ArgumentException")
            return B(or_(*[eq(v.t, int(m[1])) for m in d["members"]]))
        if cls == "String" and n in ("Format", "Concat", "Join"):
            return Un("text")
        if cls == "String" and n == "IsNullOrEmpty":
            return B(True if isinstance(a[0], Null) else eq(a[0].n, 0))
        if cls == "Array" and n == "Empty":
            return Ref(ex.new(L((), e["ta"][0])), ())
        if cls == "Convert" and n in TOINT and isinstance(a[0], I):
            return self.checked(ex, a[0].t, TOINT[n])
        if cls == "Math" and n in ("Min", "Max") and all(isinstance(x, I) for x in a):
            c = lt(a[0].t, a[1].t) if n == "Min" else lt(a[1].t, a[0].t)
            return I(ite(c, a[0].t, a[1].t), a[0].ty)
        if cls == "String" and n in ("op_Equality", "Equals") and len(a) == 2:
            return B(ex.equal(a[0], a[1]))
        raise Unsupported(f"{cls}.{n}")

    def utf8(self, ex, n, args):
        a = [ex.deref(x) for x in args]
        if a and isinstance(a[0], Null):
            self.raise_("ArgumentNullException")
        if n == "GetBytes" and len(a) == 1 and isinstance(a[0], S):
            return By(els=[I(b, "u8") for b in a[0].h]) if isinstance(a[0].h, bytes) else By(h=a[0].h, n=a[0].n)
        if n == "GetByteCount" and len(a) == 1 and isinstance(a[0], S):
            return I(a[0].n, "i32")
        if n == "GetString" and len(a) == 1 and isinstance(a[0], By):
            return self.text_of(ex, a[0])
        raise Unsupported("Encoding." + n)

    def io(self, ex, v, n, args, e):
        a = [ex.deref(x) for x in args]
        if v.kind == "br":
            if n in READ and not a:
                w, ty = READ[n]
                if not self.have(ex, w):
                    self.raise_("EndOfStreamException", ("short",))
                return self.rd_num(ex, w, ty)
            if n == "ReadBoolean":
                if not self.have(ex, 1):
                    self.raise_("EndOfStreamException", ("short",))
                return B(not_(eq(self.rd_num(ex, 1, "u8").t, 0)))
            if n in ("ReadSingle", "ReadDouble"):
                w = 4 if n == "ReadSingle" else 8
                if not self.have(ex, w):
                    self.raise_("EndOfStreamException", ("short",))
                return F(self.rd_bits(ex, w), w)
            if n == "ReadBytes":
                if not ex.branch(le(0, a[0].t)):
                    self.raise_("ArgumentOutOfRangeException")
                if self.have(ex, a[0].t):
                    return self.rd_bytes(ex, a[0].t)
                if not ex.branch(le(a[0].t, 0x7FFFFFC7)):
                    self.raise_("OutOfMemoryException")
                s = ex.heap["$in"]
                left = sub(s.end, s.cur)
                ex.heap["$in"] = s.with_(cur=s.end, ev=s.ev + (("s", ex.fresh("h"), left),))
                return By(h=ex.fresh("h"), n=left)
        if v.kind == "bw":
            if n == "Write" and len(a) == 1:
                return self.write(ex, e["pt"][0], a[0])
            if n == "Flush":
                return NULL
        raise Unsupported(f"{v.kind}.{n}")

    def write(self, ex, t, v):
        if isinstance(v, Null):
            self.raise_("ArgumentNullException")
        if t == "bool":
            self.wr_num(ex, 1, ite(v.t, 1, 0))
        elif isinstance(t, str) and t in RANGE:
            self.wr_num(ex, BITS[t] // 8, v.t)
        elif t in ("f32", "f64"):
            self.wr_num(ex, v.w, v.t)
        elif t == ["arr", "u8"] and isinstance(v, By):
            self.wr_bytes(ex, v)
        elif t == "str" and isinstance(v, S):           # its length seven bits at a time, then the bytes
            if ex.branch(lt(v.n, 128)):
                self.wr_num(ex, 1, v.n)
            else:
                self.wr_num(ex, 1, add(128, modw(v.n, 7, False)))
                self.wr_num(ex, 1, ex.fresh("w7", 0, 255))
            self.wr_bytes(ex, v)
        else:
            raise Unsupported(f"Write({t})")
        return NULL

    def list_call(self, ex, v, xnode, n, args):
        if n == "Add":
            if not isinstance(v, L):
                raise Unsupported("Add to an array")
            self.check_root(ex, xnode)
            loc, path = ex.lvbase(xnode)
            x = self.settle(ex, args[0])
            ex.store(loc, path, ex.load(loc, path).push(x))
            return NULL
        if n == "ToArray":
            return Ref(ex.new(v), ())
        if n == "Clear" and isinstance(v, L):
            self.check_root(ex, xnode)
            loc, path = ex.lvbase(xnode)
            ex.store(loc, path, L((), v.ty))
            return NULL
        raise Unsupported("List." + n)

    def iterable(self, ex, s):
        v = ex.deref(ex.ev(s["x"]))
        if isinstance(v, Null):
            self.raise_("NullReferenceException")
        if isinstance(v, (L, A, By)):
            return v, ex.length(v), (lambda k: ex.at(v, k))
        raise Unsupported("iteration")

    # ---- contracts
    def contract_method(self, ex, ty, n, v, args):
        mine = ty in self.p.structs or ty in self.p.messages
        if n == "WriteBytes" and mine and self.target != ("write", ty):
            self.stream(ex, args[0], "$out")
            if ty in self.p.messages and ex.branch(ex.truth(args[1])):
                self.wr_num(ex, 1, self.p.msg_ids[ty])
            self.write_contract(ex, ty, v)
            return NULL
        if n == "GetSizeInBytes" and ty in self.p.messages and self.target != ("size", ty):
            return I(self.size_contract(ex, ty, v), "i32")
        return NotImplemented

    def stream(self, ex, r, loc):
        r = ex.deref(r)
        if not isinstance(r, Buf) or r.loc != loc:
            raise Unsupported(f"reader or writer {r!r}")

    def contract(self, ex, key, args, e):
        n = key or ""
        if n.endswith(".FromBytes") and len(args) == 1:
            t = n[:-10]
            if (t in self.p.structs or t in self.p.messages) and self.target != ("read", t):
                self.stream(ex, args[0], "$in")
                v = self.read_contract(ex, t)
                if v is None:
                    if t in self.p.messages or ex.choose(2):
                        self.raise_("DataReadErrorException", ("sub",))
                    self.raise_("EndOfStreamException", ("sub",))
                return v if isinstance(v, Msg) else Ref(ex.new(v), ())
        if n == "Message.ProcessRawBytes" and self.target[0] != "process":
            self.stream(ex, args[0], "$in")
            v = self.process_contract(ex, args[1].t)
            if v is None:
                self.raise_("DataReadErrorException" if ex.choose(2) else "UnknownMessageTypeException", ("sub",))
            return Ref(ex.new(v), ())
        return NotImplemented

    def msg_method(self, ex, m, n, args):
        if n == "GetSizeInBytes":
            return I(self.msg_size(ex, m), "i32")
        if n == "WriteBytes":
            self.stream(ex, args[0], "$out")
            self.msg_write(ex, m, ex.branch(ex.truth(args[1])))
            return NULL
        if n == "GetMessageType":
            return I(self.msg_tag(ex, m), self.mod.types["MessageType"]["base"])
        raise Unsupported("message method " + n)

    # ---- entry points
    def access(self, ex, loc):
        return Buf(loc, 0, ex.heap[loc].end, "br" if loc == "$in" else "bw")

    def fail_if_null(self, v):
        return ("fail", v) if isinstance(v, Null) else ("ok", v)

    def do_write(self, ex, t, v, tag):
        args = [self.access(ex, "$out")] + ([B(tag)] if t in self.p.messages else [])
        ex.call_fn(self.mod.methods[t + ".WriteBytes"], args, self_=self.this(ex, v))

    def do_size(self, ex, t, v):
        return ex.call_fn(self.mod.methods[t + ".GetSizeInBytes"], [], self_=self.this(ex, v)).t

    def do_read(self, ex, t):
        return self.fail_if_null(ex.call_fn(self.mod.funcs[t + ".FromBytes"], [self.access(ex, "$in")]))

    def do_default(self, ex, t):
        return self.create(ex, t, [])

    def do_id(self, ex, t):
        v = self.inject(ex, codec.make(ex, self.p, t, False, "m"))
        return ex.call_fn(self.mod.methods[t + ".GetMessageType"], [], self_=self.this(ex, v)).t

    def do_process(self, ex, mx):
        return self.fail_if_null(ex.call_fn(self.mod.funcs["Message.ProcessRawBytes"], [self.access(ex, "$in"), I(mx, "i32")]))

    def do_packed_size(self, ex, lst):
        return ex.call_fn(self.mod.funcs["Message.GetPackedSize"], [lst]).t

    def do_pack(self, ex, lst):
        ex.call_fn(self.mod.funcs["Message.PackMessages"], [lst, self.access(ex, "$out")])

    def do_unpack(self, ex):
        return self.fail_if_null(ex.call_fn(self.mod.funcs["Message.UnpackMessages"], [self.access(ex, "$in")]))

    def has(self, kind, t=None):
        M, Fs = self.mod.methods, self.mod.funcs
        return {"write": f"{t}.WriteBytes" in M, "size": f"{t}.GetSizeInBytes" in M, "read": f"{t}.FromBytes" in Fs, "default": t in self.mod.types,
                "id": f"{t}.GetMessageType" in M, "process": "Message.ProcessRawBytes" in Fs, "pack": "Message.PackMessages" in Fs,
                "packsize": "Message.GetPackedSize" in Fs, "unpack": "Message.UnpackMessages" in Fs}[kind]
