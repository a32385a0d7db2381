"""Go."""
from .langbase import *

BASIC = {"byte": "u8", "uint8": "u8", "int8": "i8", "uint16": "u16", "int16": "i16", "uint32": "u32", "int32": "i32",
         "uint64": "u64", "int64": "i64", "int": "i64", "uint": "u64", "rune": "i32", "uintptr": "u64"}
IN, OUT = Fn("$in"), Fn("$out")


class Go(Lang):
    name_ = "go"
    eof_by_failed_read = True

    def under(self, t):
        seen = 0
        while isinstance(t, str) and t in self.mod.types and self.mod.types[t]["kind"] == "alias" and seen < 20:
            t = self.mod.types[t]["t"]
            seen += 1
        return t

    def zero(self, ex, t):
        t0, t = t, self.under(t)
        if isinstance(t, str):
            if t in BASIC:
                return I(0, BASIC[t])
            if t == "bool":
                return B(False)
            if t == "string":
                return S(b"")
            if t in ("float32", "float64"):
                return F(0, 4 if t == "float32" else 8)
            d = self.mod.types.get(t)
            if d and d["kind"] == "struct":
                return St(t, {f["n"]: self.zero(ex, f["t"]) for f in d["fields"]})
            return NULL
        if t[0] in ("ptr", "map"):
            return NULL
        if t[0] == "slice":
            return L((), t[1])
        if t[0] == "array":
            n = ex.ev(t[2])
            return A(n.t, lambda i, q=t[1]: self.zero(ex, q), (), t[1])
        raise Unsupported(f"type {t}")

    def coerce(self, ex, v, t):
        if t is None:
            if isinstance(v, I) and v.ty == "lit":
                return I(v.t, "i64")
            return v
        u = self.under(t)
        if isinstance(v, I) and v.ty == "lit" and isinstance(u, str):
            if u in BASIC:
                return ex.fit(v.t, BASIC[u])
            if u in ("float32", "float64"):
                return self.lit_float(v.t, 4 if u == "float32" else 8)
        if isinstance(v, F) and isinstance(u, str) and u == "float32" and v.w == 8 and known(v.t):
            return F(self.to_f32(v.t), 4)
        if isinstance(v, Null) and isinstance(u, list) and u[0] == "slice":
            return L((), u[1])
        return v

    def lit_float(self, n, w):
        if not known(n):
            raise Unsupported("floating point conversion")
        return F(int.from_bytes(struct.pack("<f" if w == 4 else "<d", float(n)), "little"), w)

    def to_f32(self, bits):
        return int.from_bytes(struct.pack("<f", struct.unpack("<d", bits.to_bytes(8, "little"))[0]), "little")

    def retype(self, ex, v, old):
        if isinstance(old, L) and v is NULL:
            return L((), old.ty)
        if isinstance(old, F) and isinstance(v, I) and v.ty == "lit":
            return self.lit_float(v.t, old.w)
        if isinstance(old, F) and isinstance(v, F) and v.w != old.w:
            return F(self.to_f32(v.t), 4) if known(v.t) else v
        return super().retype(ex, v, old)

    def cast(self, ex, v, t, e):
        u = self.under(t)
        if isinstance(u, str) and u in BASIC:
            if isinstance(v, I):
                return self.convert(ex, v, BASIC[u])
            raise Unsupported(f"conversion of {v!r}")
        if u == "string":
            v = ex.deref(v)
            if isinstance(v, S):
                return v
            if isinstance(v, By):
                return self.text_of(ex, v)
            if isinstance(v, (A, L)):
                b = self.as_bytes(ex, v)
                return self.text_of(ex, b)
        if isinstance(u, list) and u[0] == "slice" and isinstance(v, S):
            if isinstance(v.h, bytes):
                return By(els=[I(b, "u8") for b in v.h])
            return By(h=v.h, n=v.n)
        if u == "bool" and isinstance(v, B):
            return v
        if isinstance(u, str) and u.startswith("float") and isinstance(v, I) and v.ty == "lit":
            return self.lit_float(v.t, 4 if u == "float32" else 8)
        if isinstance(v, St) or isinstance(v, F):
            return v
        raise Unsupported(f"conversion to {t}")

    def as_bytes(self, ex, v):
        if isinstance(v, By):
            return v
        n = v.n
        if known(n) and n <= 64:
            return By(els=[ex.at(v, i) for i in range(n)])
        if ex.proves(eq(n, 0)):
            return By(els=[])
        raise Unsupported("bytes of an array")

    def name(self, ex, n):
        if n in BASIC or n in ("string", "bool", "float32", "float64", "error"):
            return Ty(n)
        if n in ("len", "append", "make", "new", "panic", "copy", "min", "max", "cap"):
            return Fn(n)
        if n in ("binary", "io", "fmt", "errors", "math", "bytes"):
            return Ty("pkg:" + n)
        if n == "iota":
            return I(self.iota, "lit")
        return None

    def const(self, ex, c):
        self.iota = c.get("iota", 0)
        if "x" not in c:
            return self.zero(ex, c["t"])
        v = ex.ev(c["x"])
        return self.coerce(ex, v, c["t"]) if c.get("t") else v

    def static(self, ex, e):
        x = e["x"]
        if x["k"] == "var" and x["n"] not in ex.env and x["n"] in ("binary", "io", "fmt", "errors", "math", "bytes"):
            q = x["n"] + "." + e["n"]
            if q == "io.EOF":
                return Er(("EOF",), "io.EOF")
            if q == "io.ErrUnexpectedEOF":
                return Er(("EOF",), "io.ErrUnexpectedEOF")
            if q in ("io.SeekCurrent", "io.SeekStart", "io.SeekEnd"):
                return I({"io.SeekStart": 0, "io.SeekCurrent": 1, "io.SeekEnd": 2}[q], "i64")
            if q in ("binary.LittleEndian", "binary.BigEndian"):
                return Ty(q)
            if q.startswith("math.Max") or q.startswith("math.Min"):
                k = q[8:].lower()
                if k in BASIC:
                    return I(RANGE[BASIC[k]][1 if q[5:8] == "Max" else 0], "lit")
            return Fn(q)
        return None

    def err_equal(self, ex, a, b):
        if isinstance(a, Null) or isinstance(b, Null):
            return False
        if isinstance(a, Er) and isinstance(b, Er):
            if a.ty in ("io.EOF", "io.ErrUnexpectedEOF") or b.ty in ("io.EOF", "io.ErrUnexpectedEOF"):
                return a.ty == b.ty
        return None

    def equal(self, ex, a, b):
        return None

    def is_error(self, ex, v):
        return False

    # ---- reading and writing
    def short_error(self, ex):
        s = ex.heap["$in"]
        if ex.branch(eq(s.cur, s.end)):
            return Er(("short",), "io.EOF")
        return Er(("short",), "io.ErrUnexpectedEOF")

    def read_into(self, ex, ref):
        v = ex.load(ref.loc, ref.path)
        if isinstance(v, Ref):
            return self.read_into(ex, v)
        if isinstance(v, I):
            w = BITS[v.ty] // 8
            if not self.have(ex, w):
                return self.short_error(ex)
            ex.store(ref.loc, ref.path, self.rd_num(ex, w, v.ty))
            return NULL
        if isinstance(v, B):
            if not self.have(ex, 1):
                return self.short_error(ex)
            t = self.rd_num(ex, 1, "u8").t
            ex.store(ref.loc, ref.path, B(not_(eq(t, 0))))
            return NULL
        if isinstance(v, F):
            if not self.have(ex, v.w):
                return self.short_error(ex)
            ex.store(ref.loc, ref.path, F(self.rd_bits(ex, v.w), v.w))
            return NULL
        if isinstance(v, (A, By)) and (isinstance(v, By) or self.under(v.ty) in ("byte", "uint8")):
            n = v.n
            if known(n) and n == 0:
                return NULL
            if not self.have(ex, n):
                return self.short_error(ex)
            ex.store(ref.loc, ref.path, self.rd_bytes(ex, n))
            return NULL
        if isinstance(v, L) and not v.segs:
            return NULL
        raise Unsupported(f"binary.Read into {v!r}")

    def write_val(self, ex, v):
        v = ex.deref(v)
        if isinstance(v, I):
            if v.ty == "lit":
                raise Unsupported("write of an untyped number")
            self.wr_num(ex, BITS[v.ty] // 8, v.t)
        elif isinstance(v, B):
            self.wr_num(ex, 1, ite(v.t, 1, 0))
        elif isinstance(v, F):
            self.wr_num(ex, v.w, v.t)
        elif isinstance(v, (By, S)):
            self.wr_bytes(ex, v)
        elif isinstance(v, (A, L)):
            n = v.n
            if known(n):
                for i in range(n):
                    self.write_val(ex, ex.at(v, i))
            else:
                ex.summarise(("bulk", ex.ctr), lambda k: self.write_val(ex, ex.at(v, k)), count=n)
        elif isinstance(v, St):
            for f in self.mod.types[v.ty]["fields"]:
                self.write_val(ex, v.f[f["n"]])
        else:
            raise Unsupported(f"binary.Write of {v!r}")

    def special_call(self, ex, e):
        f = e["f"]
        # conversions
        if f["k"] == "paren":
            f = f["x"]
        if f["k"] == "typ":
            return self.cast(ex, ex.ev(e["a"][0]), f["t"], e)
        if f["k"] == "var" and f["n"] in ("make", "new") and f["n"] not in ex.env:
            t = e["a"][0]
            ty = t["t"] if t["k"] == "typ" else t["n"]
            if f["n"] == "new":
                return Ref(ex.new(self.zero(ex, ty)), ())
            u = self.under(ty)
            if u[0] == "slice":
                n = ex.ev(e["a"][1])
                if n.ty in RANGE and SIGNED[n.ty] and ex.branch(lt(n.t, 0)):
                    raise Crash("make with a negative length")
                if known(n.t) and n.t == 0:
                    return L((), u[1])
                return A(n.t, lambda i, q=u[1]: self.zero(ex, q), (), u[1])
            raise Unsupported("make")
        return NotImplemented

    def pure_call(self, ex, e):
        return e["f"]["k"] == "var" and e["f"]["n"] == "len" and all(ex.pure(a) for a in e["a"])

    def builtin(self, ex, f, args, e):
        n = f.n
        if n == "len":
            v = ex.deref(args[0])
            if v is NULL:
                return I(0, "i64")
            return I(ex.length(v), "i64")
        if n in ("min", "max") and len(args) == 2:
            x, y = self.unify(ex, args[0], args[1], "<")
            c = lt(x.t, y.t) if n == "min" else lt(y.t, x.t)
            return I(ite(c, x.t, y.t), y.ty if x.ty == "lit" else x.ty)
        if n == "append":
            v = args[0]
            if v is NULL:
                v = L((), None)
            if isinstance(v, A) and known(v.n) and v.n == 0:
                v = L((), v.ty)
            if not isinstance(v, L) or e.get("spread"):
                raise Unsupported("append")
            for x in args[1:]:
                v = v.push(x)
            return v
        if n == "panic":
            raise Crash("panic")
        if n == "binary.Read":
            if args[0] is not IN and getattr(args[0], "n", None) != "$in":
                raise Unsupported("reader")
            self.little(args[1])
            if not isinstance(args[2], Ref):
                raise Unsupported("binary.Read target")
            return self.read_into(ex, args[2])
        if n == "binary.Write":
            if getattr(args[0], "n", None) != "$out":
                raise Unsupported("writer")
            self.little(args[1])
            self.write_val(ex, args[2])
            return NULL
        if n == "io.LimitReader":
            if getattr(args[0], "n", None) != "$in" or not isinstance(args[1], I):
                raise Unsupported("reader")
            return St("$limited", {"n": args[1]})
        if n == "io.ReadAll":
            if not isinstance(args[0], St) or args[0].ty != "$limited":
                raise Unsupported("reader")
            m = args[0].f["n"].t
            if ex.branch(lt(m, 0)):
                return (By(els=[]), NULL)
            if self.have(ex, m):
                return (self.rd_bytes(ex, m), NULL)
            s = ex.heap["$in"]
            r = By(h=ex.fresh("h"), n=sub(s.end, s.cur))
            ex.heap["$in"] = s.with_(cur=s.end, ev=s.ev + (("s", r.h, r.n),))
            return (r, NULL)
        if n == "io.WriteString":
            if getattr(args[0], "n", None) != "$out":
                raise Unsupported("writer")
            self.wr_bytes(ex, args[1])
            return (I(0, "i64"), NULL)
        if n in ("fmt.Errorf", "errors.New"):
            inner = [a for a in args[1:] if isinstance(a, Er)]
            return Er(inner[0].cause if inner else ("own",), "wrapped")
        if n in ("fmt.Sprintf",):
            return Un("text")
        return NotImplemented

    def little(self, o):
        if not isinstance(o, Ty) or o.n != "binary.LittleEndian":
            raise Unsupported("byte order")

    def e_is(self, ex, e):
        x = ex.ev(e["x"])
        if isinstance(x, Fn) and x.n in ("$in", "$out") and e["t"] in ("io.Seeker", "io.ReadSeeker", "io.WriteSeeker"):
            b = ex.fresh_bool("seek")
            return (x, B(b))
        raise Unsupported("type assertion")

    def e_new(self, ex, e):
        u = self.under(e["t"])
        if isinstance(u, list) and u[0] in ("slice", "array"):
            return L([("one", self.coerce(ex, ex.ev(x), u[1])) for x in e["els"]], u[1])
        v = self.zero(ex, u)
        if not isinstance(v, St) or e["els"]:
            raise Unsupported("literal")
        ft = {f["n"]: f["t"] for f in self.mod.types[u]["fields"]}
        for n, x in e["f"]:
            v = v.set(n, self.coerce(ex, ex.ev(x), ft[n]))
        return v

    def e_slice(self, ex, e):
        v = ex.deref(ex.ev(e["x"]))
        lo = ex.ev(e["lo"]).t if e.get("lo") else 0
        hi = ex.ev(e["hi"]).t if e.get("hi") else ex.length(v)
        if isinstance(v, By) and v.els is not None and known(lo) and known(hi) and 0 <= lo <= hi <= len(v.els):
            return By(els=v.els[lo:hi])
        if lo == 0 and (hi is ex.length(v) or same(hi, ex.length(v))):
            return v
        raise Unsupported("slice")

    def iterable(self, ex, s):
        v = ex.deref(ex.ev(s["x"]))
        if isinstance(v, I):
            n = v.t
            s["idxt"] = "i64" if v.ty == "lit" else v.ty
            return v, n, (lambda k: I(k, s["idxt"]))
        s["idxt"] = "i64"
        if v is NULL:
            return v, 0, None
        return v, ex.length(v), (lambda k: ex.at(v, k))

    def unify(self, ex, x, y, o):
        if isinstance(x, F) and isinstance(y, I) and y.ty == "lit":
            y = self.lit_float(y.t, x.w)
        return x, y

    def method(self, ex, x, xnode, n, args, e):
        v = ex.deref(x)
        if isinstance(v, Fn) and v.n in ("$in", "$out"):
            if n == "Seek":
                if known(args[0].t) and args[0].t == 0 and known(args[1].t) and args[1].t == 1:
                    return (I(ex.heap[v.n].cur, "i64"), NULL)
                raise Unsupported("Seek")
            if n == "Write" and v.n == "$out":
                self.write_val(ex, args[0])
                return (I(0, "i64"), NULL)
            raise Unsupported("stream method " + n)
        if isinstance(v, Msg):
            return self.msg_method(ex, v, n, args)
        if isinstance(v, Er) and n == "Error":
            return Un("text")
        ty = v.ty if isinstance(v, St) else None
        if ty is None:
            raise Unsupported(f"method {n} of {v!r}")
        r = self.contract_method(ex, ty, n, v, args)
        if r is not NotImplemented:
            return r
        fn = self.mod.methods.get(f"{ty}.{n}")
        if fn is None:
            raise Unsupported(f"method {ty}.{n}")
        self_ = v
        if fn.get("recvptr"):
            self_ = x if isinstance(x, Ref) else ex.e_addr({"x": xnode})
        return ex.call_fn(fn, args, self_=self_)

    def result(self, ex, fn, v):
        if v is None:
            return None
        rs = fn.get("results", [])
        if len(rs) == 1:
            return self.coerce(ex, v, rs[0])
        if isinstance(v, tuple) and len(v) == len(rs):
            return tuple(self.coerce(ex, a, t) for a, t in zip(v, rs))
        return v

    # ---- contracts
    def contract_method(self, ex, ty, n, v, args):
        if n == "WriteBytes" and (ty in self.p.structs or ty in self.p.messages) and self.target != ("write", ty):
            tag = ty in self.p.messages and ex.branch(ex.truth(args[1]))
            if tag:
                self.wr_num(ex, 1, self.p.msg_ids[ty])
            self.write_contract(ex, ty, v)
            return None
        if n == "GetSizeInBytes" and ty in self.p.messages and self.target != ("size", ty):
            return I(self.size_contract(ex, ty, v), "i64")
        return NotImplemented

    def contract(self, ex, n, args, e):
        if n.endswith("FromBytes"):
            t = n[:-9]
            if t in self.p.structs and self.target != ("read", t):
                v = self.read_contract(ex, t)
                if v is None:
                    return Er(("sub",), "wrapped")
                ex.store(args[1].loc, args[1].path, v)
                return NULL
            if t in self.p.messages and self.target != ("read", t):
                v = self.read_contract(ex, t)
                if v is None:
                    return (NULL, Er(("sub",), "wrapped"))
                return (v if isinstance(v, Msg) else Ref(ex.new(v), ()), NULL)
        if n == "ProcessRawBytes" and self.target[0] != "process":
            v = self.process_contract(ex, args[1].t)
            if v is None:
                return (NULL, Er(("sub",), "wrapped"))
            return (v, NULL)
        if n.startswith("New") and n.endswith("Default"):
            t = n[3:-7]
            if (t in self.p.structs or t in self.p.messages) and self.target != ("default", t):
                return self.inject(ex, codec.default(ex, self.p, t))
        return NotImplemented

    def msg_method(self, ex, m, n, args):
        if n == "GetSizeInBytes":
            return I(self.msg_size(ex, m), "i64")
        if n == "WriteBytes":
            self.msg_write(ex, m, ex.branch(ex.truth(args[1])))
            return None
        if n == "GetMessageType":
            return I(self.msg_tag(ex, m), "u8")
        raise Unsupported("message method " + n)

    # ---- entry points
    def do_write(self, ex, t, v, tag):
        fn = self.mod.methods[t + ".WriteBytes"]
        args = [OUT] + ([B(tag)] if t in self.p.messages else [])
        ex.call_fn(fn, args, self_=v)

    def do_size(self, ex, t, v):
        r = ex.call_fn(self.mod.methods[t + ".GetSizeInBytes"], [], self_=v)
        return r.t

    def do_read(self, ex, t):
        fn = self.mod.funcs[t + "FromBytes"]
        if t in self.p.messages:
            v, err = ex.call_fn(fn, [IN])
            if err is not NULL:
                return ("fail", err)
            return ("ok", v)
        loc = ex.new(self.zero(ex, t))
        err = ex.call_fn(fn, [IN, Ref(loc, ())])
        if err is not NULL:
            return ("fail", err)
        return ("ok", ex.load(loc))

    def do_default(self, ex, t):
        return ex.call_fn(self.mod.funcs[f"New{t}Default"], [])

    def do_id(self, ex, t):
        v = self.inject(ex, codec.make(ex, self.p, t, False, "m"))
        r = ex.call_fn(self.mod.methods[t + ".GetMessageType"], [], self_=v)
        return r.t

    def do_process(self, ex, mx):
        v, err = ex.call_fn(self.mod.funcs["ProcessRawBytes"], [IN, I(mx, "i64")])
        return ("fail", err) if err is not NULL else ("ok", v)

    def do_packed_size(self, ex, lst):
        return ex.call_fn(self.mod.funcs["GetPackedSize"], [lst]).t

    def do_pack(self, ex, lst):
        ex.call_fn(self.mod.funcs["PackMessages"], [lst, OUT])

    def do_unpack(self, ex):
        v, err = ex.call_fn(self.mod.funcs["UnpackMessages"], [IN])
        return ("fail", err) if err is not NULL else ("ok", v)

    def has(self, kind, t=None):
        names = {"write": (self.mod.methods, f"{t}.WriteBytes"), "size": (self.mod.methods, f"{t}.GetSizeInBytes"), "read": (self.mod.funcs, f"{t}FromBytes"),
                 "default": (self.mod.funcs, f"New{t}Default"), "id": (self.mod.methods, f"{t}.GetMessageType"), "process": (self.mod.funcs, "ProcessRawBytes"),
                 "pack": (self.mod.funcs, "PackMessages"), "packsize": (self.mod.funcs, "GetPackedSize"), "unpack": (self.mod.funcs, "UnpackMessages")}
        d, n = names[kind]
        return n in d
