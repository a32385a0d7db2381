"""What a target language means: hooks of the interpreter, with the parts that are common."""
import struct
import z3
from .vals import *
from .ex import *
from . import codec
from spec.proto import SIZES, NUM, RANGES

MACH = {"byte": "u8", "uint16": "u16", "int16": "i16", "uint32": "u32", "int32": "i32", "uint64": "u64", "int64": "i64"}


def norm(n):
    return n.replace("_", "").lower()


class Lang:
    name_ = "?"
    littype = "lit"
    rhs_first = True
    structs_by_ref = False
    maxpos = 1 << 62
    maxcount = (1 << 31) - 1
    eof_by_failed_read = False
    bounded_out = False
    enum_read = None                # set: what reading makes of an enum number; else undeclared ones are refused
    stops = False                   # processing ends, without an error, where it cannot go on

    def position(self, ex, stream):
        """where the generated code says it is"""
        return ex.heap[stream].cur

    def trap_props(self, kind):
        return {"write": ["C01"], "read": ["C04"], "size": ["C03"], "default": ["C09"], "process": ["C06"], "pack": ["C07"], "packsize": ["C07"], "unpack": ["C08"], "id": ["C10"], "dispatch": ["C01", "C03"]}[kind]

    def as_msg(self, ex, v):
        return ex.deref(v)
    lists_by_ref = False

    def __init__(self, proto):
        self.p = proto
        self.target = None            # the function under proof: never by contract
        self.enumreps = {}

    # ---- hooks with defaults
    def after_iter(self, ex, start):
        pass

    def enter(self, ex, fn):
        pass

    def result(self, ex, fn, v):
        return v

    def is_error(self, ex, v):
        return False

    def reported(self, ex, t, err):
        """None, or (is the failure reported as documented, how)"""
        return None

    def truth(self, ex, v):
        raise Unsupported(f"condition {v!r}")

    def coerce(self, ex, v, t):
        return v

    def retype(self, ex, v, old):
        if isinstance(v, I) and isinstance(old, I) and v.ty == "lit" and old.ty != "lit":
            return ex.fit(v.t, old.ty)
        return v

    def rvalue(self, ex, v):
        return v

    def zero(self, ex, t):
        raise Unsupported(f"default of {t}")

    def field(self, ex, v, n):
        return None

    def static(self, ex, e):
        return None

    def name(self, ex, n):
        return None

    def const(self, ex, c):
        v = ex.ev(c["x"])
        return self.coerce(ex, v, c.get("t"))

    def index(self, ex, x, i):
        v = ex.deref(x)
        self.inrange(ex, v, i, ex.length(v))
        return ex.at(v, i.t)

    def inrange(self, ex, arr, i, n):
        if not ex.branch(and_(le(0, i.t), lt(i.t, n))):
            self.oob(ex)

    def oob(self, ex):
        raise Crash("index out of range")

    def mkref(self, ex, loc, path):
        return Ref(loc, path)

    def deref(self, ex, v):
        return v

    def store_special(self, ex, l, v):
        return False

    def special_call(self, ex, e):
        return NotImplemented

    def pure_call(self, ex, e):
        return False

    def pure_node(self, ex, e):
        """None: decided by the kind of node"""
        return None

    def err_equal(self, ex, a, b):
        return None

    def equal(self, ex, a, b):
        return None

    def untuple(self, ex, v, n):
        if isinstance(v, tuple) and len(v) == n:
            return list(v)
        raise Unsupported("multiple values")

    def strlit(self, ex, b):
        return S(b)

    def fltlit(self, ex, v):
        return F(int.from_bytes(struct.pack("<d", float(v)), "little"), 8)

    def iterable(self, ex, s):
        x = ex.ev(s["x"])
        base = x
        v = ex.deref(x)
        n = ex.length(v)
        return v, n, (lambda k: ex.at(v, k))

    def binop(self, ex, o, x, y, e):
        x, y = self.rvalue(ex, x), self.rvalue(ex, y)
        if o in ("==", "!=", "===", "!==", "<", "<=", ">", ">="):
            x, y = self.unify(ex, x, y, o)
            return ex.compare(o, x, y)
        if isinstance(x, I) and isinstance(y, I):
            if o in ("<<", ">>", ">>>"):
                return ex.arith(o, x, y, x.ty)
            x, y = self.unify(ex, x, y, o)
            return ex.arith(o, x, y, y.ty if x.ty == "lit" else x.ty)
        r = self.other_binop(ex, o, x, y)
        if r is None:
            raise Unsupported(f"operator {o} on {x!r} and {y!r}")
        return r

    def other_binop(self, ex, o, x, y):
        return None

    def unify(self, ex, x, y, o):
        return x, y

    def overflow(self, ex, t, ty, op):
        return I(modw(t, BITS[ty], SIGNED[ty]), ty)

    def shl(self, ex, a, b, ty):
        t = mul(a, 1 << b)
        if ty in FREE:
            return I(t, ty)
        lo, hi = RANGE[ty]
        if known(t) and lo <= t <= hi or not known(t) and ex.proves(and_(zi(t) >= lo, zi(t) <= hi)):
            return I(t, ty)
        return I(modw(t, BITS[ty], SIGNED[ty]), ty)

    def convert(self, ex, v, ty):
        """explicit conversion between integer types, dropping high bits"""
        lo, hi = RANGE[ty]
        if known(v.t):
            return I(modw(v.t, BITS[ty], SIGNED[ty]), ty)
        if v.ty == ty or ex.branch(and_(zi(v.t) >= lo, zi(v.t) <= hi)):
            return I(v.t, ty)
        return I(modw(v.t, BITS[ty], SIGNED[ty]), ty)

    # ---- functions
    def apply(self, ex, f, args, e):
        if isinstance(f, Fn):
            if f.n == "lambda":
                node, env = f.extra
                return ex.call_fn(node["fn"], args, bound=env)
            r = self.contract(ex, f.n, args, e)
            if r is not NotImplemented:
                return r
            if f.n in ex.mod.funcs:
                return ex.call_fn(ex.mod.funcs[f.n], args, self_=f.self_)
        if isinstance(f, Ty):
            return self.construct(ex, f, args, e)
        r = self.builtin(ex, f, args, e)
        if r is NotImplemented:
            raise Unsupported(f"call of {f!r}")
        return r

    def contract(self, ex, n, args, e):
        return NotImplemented

    def construct(self, ex, t, args, e):
        if len(args) == 1:
            return self.cast(ex, args[0], t.n, e)
        raise Unsupported(f"construction of {t}")

    def builtin(self, ex, f, args, e):
        return NotImplemented

    def method(self, ex, x, xnode, n, args, e):
        raise Unsupported(f"method {n} of {x!r}")

    # ---- streams
    def ghost(self, ex, cause):
        ex.heap["$bad"] = ex.heap.get("$bad", ()) + (cause,)

    def have(self, ex, n):
        s = ex.heap["$in"]
        if ex.branch(le(add(s.cur, n), s.end)):
            return True
        self.ghost(ex, "short")
        return False

    def rd_num(self, ex, w, ty):
        s = ex.heap["$in"]
        lo, hi = RANGE[ty]
        t = ex.fresh("r", lo, hi)
        ex.heap["$in"] = s.with_(cur=add(s.cur, w), ev=s.ev + (("n", w, t),))
        return I(t, ty)

    def rd_bits(self, ex, w):
        s = ex.heap["$in"]
        t = ex.fresh("r", 0, (1 << (8 * w)) - 1)
        ex.heap["$in"] = s.with_(cur=add(s.cur, w), ev=s.ev + (("n", w, t),))
        return t

    def rd_bytes(self, ex, n):
        """n bytes that are there"""
        s = ex.heap["$in"]
        if known(n):
            els = []
            for _ in range(n):
                els.append(I(ex.fresh("b", 0, 255), "u8"))
            ex.heap["$in"] = s.with_(cur=add(s.cur, n), ev=s.ev + tuple(("n", 1, x.t) for x in els))
            return By(els=els)
        h = ex.fresh("h")
        ex.heap["$in"] = s.with_(cur=add(s.cur, n), ev=s.ev + (("s", h, n),))
        return By(h=h, n=n)

    def wr(self, ex, tok, n):
        s = ex.heap["$out"]
        ex.heap["$out"] = s.with_(cur=add(s.cur, n), ev=s.ev + (tok,))

    def wr_num(self, ex, w, t):
        self.wr(ex, ("n", w, t), w)

    def wr_bytes(self, ex, v):
        if isinstance(v, S):
            self.wr(ex, ("s", v.h, v.n), v.n)
        elif v.els is not None:
            for x in v.els:
                self.wr(ex, ("n", 1, x.t), 1)
        else:
            self.wr(ex, ("s", v.h, v.n), v.n)

    def text_of(self, ex, by):
        """the text with these bytes (taken to be valid UTF-8)"""
        if by.els is not None:
            if all(known(x.t) for x in by.els):
                return S(bytes(x.t for x in by.els))
            return By(els=by.els)
        return S(by.h, by.n, None)

    # ---- protocol values in this language
    def num_value(self, ex, t, v):
        """a number of protocol type t with value (or bits) v"""
        if t == "bool":
            return B(v == 1 if not known(v) else bool(v))
        if t == "float":
            return F(v, 4)
        if t == "double":
            return F(v, 8)
        if t in self.p.enums:
            return I(v, self.enum_type(t))
        return I(v, MACH[t])

    def enum_type(self, t):
        return MACH[self.p.enums[t].encoding]

    def inject(self, ex, v):
        if v.kind == "num":
            return self.num_value(ex, v.t, v.v)
        if v.kind == "str":
            return S(v.h, v.n, v.u)
        if v.kind == "struct":
            return self.inject_struct(ex, v)
        return self.inject_list(ex, v)

    def inject_list(self, ex, v):
        return A(v.n, lambda i: self.inject(ex, v.fn(i)), (), None)

    def inject_struct(self, ex, v):
        return St(v.t, {self.fname(v.t, m): self.inject(ex, x) for m, x in v.m.items()})

    def fname(self, t, m):
        """name of member m in the target's declaration of t"""
        d = self.mod.types.get(t)
        if d is None:
            raise Unsupported("no declaration of " + t)
        for f in d["fields"]:
            if norm(f["n"]) == norm(m):
                return f["n"]
        raise Unsupported(f"no member {m} in {t}")

    def enc(self, ex, v, t, is_list):
        """tokens of the documented layout for a value of this language"""
        v = ex.deref(v)
        p = self.p
        if is_list:
            return self.enc_list(ex, v, t)
        k = p.kind(t)
        if k in ("num", "enum"):
            return [("n", codec.width(p, t), self.num_bits(ex, v, t))]
        if k == "string":
            return self.enc_str(ex, v)
        out = []
        if not isinstance(v, St):
            raise Unsupported(f"{v!r} for {t}")
        for m, mt, l in p.st(t).members:
            out += self.enc_member(ex, v, t, m, mt, l)
        return out

    def enc_member(self, ex, v, t, m, mt, l):
        return self.enc(ex, v.f[self.fname(t, m)], mt, l)

    def enc_str(self, ex, v):
        if isinstance(v, (S, By)):
            w = SIZES[self.p.sst]
            if isinstance(v, By) and v.els is not None:
                return [("n", w, v.n)] + [("n", 1, x.t) for x in v.els]
            return [("n", w, v.n), ("s", v.h, v.n)]
        raise Unsupported(f"{v!r} for a string")

    def num_bits(self, ex, v, t):
        if isinstance(v, B):
            return ite(v.t, 1, 0)
        if isinstance(v, (I, F)):
            return v.t
        raise Unsupported(f"{v!r} for {t}")

    def enc_list(self, ex, v, t):
        w = SIZES[self.p.lst]
        if isinstance(v, L):
            out = [("n", w, v.n)]
            for s in v.segs:
                if s[0] == "one":
                    out += self.enc(ex, s[1], t, False)
                elif s[0] == "rep":
                    out.append(("rep", s[1], s[2], tuple((g, tuple(self.enc(ex, x, t, False))) for g, x in s[3])))
                else:
                    raise Unsupported("list")
            return out
        if isinstance(v, A):
            out = [("n", w, v.n)]
            return out + self.enc_array(ex, v, v.n, t)
        if isinstance(v, Null):
            return [("n", w, 0)]
        raise Unsupported(f"{v!r} for a list")

    def enc_array(self, ex, v, n, t):
        """the first n elements of an array that is written from its start"""
        if known(n) and n == 0 or ex.proves(eq(n, 0)):
            return []
        if v.tag == "input":
            pass
        if len(v.writes) == 1 and v.writes[0][0] == "rep":
            _, K, j, alts = v.writes[0]
            if not ex.proves(eq(K, n)):
                raise Unsupported("array filled in part")
            return [("rep", K, j, tuple((g, tuple(self.enc(ex, x, t, False))) for g, x in alts))]
        if not v.writes:
            ex.ctr += 1
            j = z3.Int(f"j!e{ex.ctr}")
            ex.w.facts.setdefault(str(j), lambda a: [a >= 0])
            return [("rep", n, j, ((True, tuple(self.enc(ex, v.dflt(j), t, False))),))]
        raise Unsupported("array written piecewise")

    # ---- contracts of the functions of other types
    def write_contract(self, ex, t, v):
        ts = self.enc(ex, v, t, False)
        s = ex.heap["$out"]
        ex.heap["$out"] = s.with_(cur=add(s.cur, codec.toklen(ex, ts)), ev=s.ev + tuple(codec.normal(ts)))

    def size_contract(self, ex, t, v):
        return codec.toklen(ex, self.enc(ex, v, t, False))

    def read_contract(self, ex, t):
        """a value of type t read from the input, or None; the callee's own proof is the ground for this"""
        if ex.choose(2):
            self.ghost(ex, "sub")
            return None
        s = ex.heap["$in"]
        if t in self.p.messages:
            h = ex.fresh("mh")
            n = self.msg_size(ex, Msg(t, h))
            ex.assume(zi(add(s.cur, n)) <= zi(s.end))
            ex.heap["$in"] = s.with_(cur=add(s.cur, n), ev=s.ev + (("msg", t, h, n),))
            return Msg(t, h)
        ex.ctr += 1
        pv = codec.make(ex, self.p, t, False, f"c!{ex.ctr}", tuple(ex.idx))
        n = codec.size(ex, self.p, pv)
        ex.assume(zi(add(s.cur, n)) <= zi(s.end))
        ex.heap["$in"] = s.with_(cur=add(s.cur, n), ev=s.ev + tuple(codec.toks(ex, self.p, pv)))
        return self.inject(ex, pv)

    def msg_size(self, ex, m):
        d = z3.Function("MSIZE", z3.IntSort(), z3.IntSort())
        ex.w.facts.setdefault("MSIZE", lambda a: [a >= 0, a <= codec.MAXLEN])
        return d(zi(m.k))

    def msg_tag(self, ex, m):
        if m.h is not None:
            return self.p.msg_ids[m.h]
        d = z3.Function("MTAG", z3.IntSort(), z3.IntSort())
        n = len(self.p.messages)
        ex.w.facts.setdefault("MTAG", lambda a: [a >= 1, a <= n])
        return d(zi(m.k))

    def is_kind(self, ex, h, k):
        """is message k of type h?"""
        return eq(self.msg_tag(ex, Msg(None, k)), self.p.msg_ids[h])

    def msg_write(self, ex, m, tag):
        if tag:
            self.wr_num(ex, 1, self.msg_tag(ex, m))
        n = self.msg_size(ex, m)
        self.wr(ex, ("msg", m.h, m.k, n), n)

    def process_contract(self, ex, mx):
        """list of messages, or None"""
        if ex.choose(2):
            self.ghost(ex, "sub")
            return None
        s = ex.heap["$in"]
        K = ex.fresh("pk", 0, (1 << 31) - 1)
        ex.assume(or_(lt(mx, 0), le(K, mx)))
        n = ex.fresh("pn", 0)
        ex.assume(zi(add(s.cur, n)) <= zi(s.end))
        ex.heap["$in"] = s.with_(cur=add(s.cur, n), ev=s.ev + (("proc", K, mx),))
        ex.ctr += 1
        j = z3.Int(f"j!p{ex.ctr}")
        d = z3.Function(f"ph!{ex.ctr}", z3.IntSort(), z3.IntSort())
        return L([("rep", K, j, ((True, self.msg_elem(ex, Msg(None, d(j)))),))])

    def msg_elem(self, ex, m):
        """a message as an element of a list"""
        return m

    def msg_list(self, ex, n):
        d = z3.Function("MH", z3.IntSort(), z3.IntSort())
        return A(n, lambda i: self.msg_elem(ex, Msg(None, d(zi(i)))), (), None)


class BufLang(Lang):
    """languages whose generated code keeps an offset into a buffer of its own; the ghost cursor says where it has to be"""
    bounded_out = True

    def at_cur(self, ex, loc, o, what):
        s = ex.heap[loc]
        c = eq(o, s.cur)
        if c is True or ex.proves(c):
            return
        ex.oblige(f"{what} happens at the position reached so far", c, props=self.pos_props())

    def pos_props(self):
        k = self.target[0]
        return {"write": ["C01", "C18"], "read": ["C02", "C18"], "process": ["C06"], "unpack": ["C07", "C08"], "pack": ["C07"]}.get(k, ["C18"])

    def in_room(self, ex, o, n):
        """n bytes of the input from o on are there"""
        s = ex.heap["$in"]
        if ex.branch(and_(le(0, o), le(add(o, n), s.end))):
            return True
        self.ghost(ex, "short")
        return False

    def out_room(self, ex, o, n):
        s = ex.heap["$out"]
        return ex.branch(and_(le(0, o), le(add(o, n), s.end)))

    def swapped(self, ex, w, lo, hi):
        """w bytes read in the other byte order: some value"""
        return ex.fresh("sw", lo, hi)

    def wr_swapped(self, ex, w, t):
        for i in reversed(range(w)):
            self.wr_num(ex, 1, (zi(t) / (1 << (8 * i))) % 256 if not known(t) else (t >> (8 * i)) & 255)
