"""Rust: the compiler's typed tree (front/rust), evaluated with the checks of a debug build (overflow and out of range panic)."""
from .langbase import *

PRIM = {"byte": "u8", "bool": "bool", "uint16": "u16", "int16": "i16", "uint32": "u32", "int32": "i32", "uint64": "u64", "int64": "i64",
        "float": "f32", "double": "f64", "string": "String"}


class It:
    """an iterator: n items, get(k) gives the k-th (and may have effects)"""
    def __init__(self, n, get, src=None):
        self.n, self.get, self.src = n, get, src


class Clo:
    """a closure: its node and the variables it sees"""
    def __init__(self, node, env):
        self.node, self.env = node, env


def ok(v):
    return En("Result", "Ok", (v,))


def err(v):
    return En("Result", "Err", (v,))


def some(v):
    return En("Option", "Some", (v,))


NONE = En("Option", "None")
UNIT = ()


def tyname(t):
    return t if isinstance(t, str) else t[1] if t[0] == "adt" else t[0]


def lower(d):
    """functions and types by name, parameters as variables"""
    if "error" in d:
        return d
    funcs, byid = {}, {}
    for f in d["fns"]:
        ps, pre = [], []
        for i, p in enumerate(f["params"]):
            q = p["p"]
            if q and q["p"] == "bind" and not q["ref"] and not q["sub"]:
                ps.append({"n": q["n"], "t": p["t"]})
            else:
                ps.append({"n": f"$p{i}", "t": p["t"]})
                if q:
                    pre.append({"k": "rlet", "p": q, "x": {"k": "var", "n": f"$p{i}"}, "else": None, "t": p["t"]})
        g = dict(id=f["id"], n=f["n"], params=ps, body=pre + [{"k": "return", "x": f["b"]}], ret=f["ret"], generic=f["generic"], const=f["const"])
        if f.get("self") is not None:
            g["owner"] = tyname(f["self"])
        elif f.get("dtr"):
            g["owner"] = f["dtr"]
        key = g["owner"] + "." + f["n"] if "owner" in g else f["n"]
        g["key"] = key
        byid[f["id"]] = g
        if key in funcs:
            g["key"] = key = key + "@" + json_key(f.get("tr"), f.get("targs"))
        funcs[key] = g
    types = {}
    for t in d["types"]:
        if t["enum"]:
            types[t["n"]] = {"kind": "enum", "rep": t["rep"], "vs": t["vs"], "fields": [], "plain": all(not v[2] for v in t["vs"])}
        else:
            types[t["n"]] = {"kind": "struct", "fields": [{"n": n, "t": x} for n, x in t["vs"][0][2]]}
    return {"funcs": funcs, "byid": byid, "types": types, "methods": {}, "consts": {}}


def json_key(a, b):
    import json
    return json.dumps([a, b])


class RS(BufLang):
    name_ = "rust"
    littype = "i32"
    maxcount = (1 << 32) - 1
    bounded_out = False
    dispatch = True
    rhs_first = True

    # ---- arithmetic
    def overflow(self, ex, t, ty, op):
        lo, hi = RANGE[ty]
        if known(t):
            raise Crash(f"arithmetic overflow in {op or 'a computation'}")
        if ex.branch(and_(le(lo, t), le(t, hi))):
            return I(t, ty)
        raise Crash(f"arithmetic overflow in {op or 'a computation'}")

    def retype(self, ex, v, old):
        return v

    def binop(self, ex, o, x, y, e):
        x, y = ex.deref(x), ex.deref(y)
        if o in ("==", "!=", "<", "<=", ">", ">="):
            if isinstance(x, F) or isinstance(y, F):
                raise Unsupported("comparison of floating point numbers")
            return ex.compare(o, self.bytes_of(ex, x), self.bytes_of(ex, y))
        if isinstance(x, I) and isinstance(y, I):
            if o in ("<<", ">>"):
                if not known(y.t):
                    raise Unsupported("shift")
                if not 0 <= y.t < BITS[x.ty]:
                    raise Crash("shift by too much")
                return ex.arith(o, x, y, x.ty)
            return ex.arith(o, x, y, x.ty)
        if isinstance(x, B) and isinstance(y, B) and o in ("&", "|", "^"):
            if o == "^":
                return B(not_(x.t == y.t) if known(x.t) and known(y.t) else z3.Xor(zb(x.t), zb(y.t)))
            return B(and_(x.t, y.t) if o == "&" else or_(x.t, y.t))
        raise Unsupported(f"operator {o} on {x!r} and {y!r}")

    def cast(self, ex, v, t, e):
        v = ex.deref(v)
        if isinstance(t, str) and t in RANGE:
            if isinstance(v, B):
                return I(ite(v.t, 1, 0), t)
            if isinstance(v, I):
                return I(v.t, t) if v.ty == t else self.convert(ex, v, t)
        if isinstance(v, F) and t in ("f32", "f64") and v.w == (4 if t == "f32" else 8):
            return v
        raise Unsupported(f"conversion to {t}")

    def pure_node(self, ex, e):
        if "$pure" not in e:
            e["$pure"] = False
            e["$pure"] = self.is_pure(ex, e)
        return e["$pure"]

    def is_pure(self, ex, e):
        k = e["k"]
        if k in ("var", "int", "bool", "str"):
            return True
        if k == "bin":
            return e["o"] in ("==", "!=", "<", "<=", ">", ">=", "&&", "||") and not e.get("lets") and self.pure_node(ex, e["x"]) and self.pure_node(ex, e["y"])
        if k == "un":
            return e["o"] == "!" and self.pure_node(ex, e["x"])
        if k == "rblock":
            x = self.unblock(e)
            return x is not None and x["k"] != "rblock" and self.pure_node(ex, x)
        if k in ("field", "deref", "cast", "paren") or k == "addr" and not e["mut"]:
            return self.pure_node(ex, e["x"])
        if k == "rcall":
            f = e["f"]
            if not all(self.pure_node(ex, a) for a in e["a"]):
                return False
            if "id" in f:
                fn = self.mod.byid.get(f["id"])
                b = fn and fn["body"]
                return bool(b) and len(b) == 1 and b[0]["k"] == "return" and not self.is_contract(fn) and self.pure_node(ex, b[0]["x"])
            return f.get("crate") in ("core", "alloc", "std") and f.get("tr") is None and f["n"] in ("len", "is_empty", "as_slice", "size_of")
        return False

    def is_contract(self, fn):
        return fn["n"] in ("write_bytes", "get_size_in_bytes", "from_bytes", "default", "process_raw_bytes")

    # ---- values
    def e_strb(self, ex, e):
        return S(bytes(e["v"]))

    def e_bytes(self, ex, e):
        return By(els=[I(b, "u8") for b in e["v"]])

    def e_fbits(self, ex, e):
        return F(int(e["v"]), e["w"])

    def e_tuple(self, ex, e):
        return tuple(ex.ev(x) for x in e["els"])

    def e_arrlit(self, ex, e):
        els = [ex.ev(x) for x in e["els"]]
        return By(els=els) if e["t"][1] == "u8" else L([("one", x) for x in els])

    def e_repeat(self, ex, e):
        v = ex.ev(e["x"])
        if e["c"] is None or e["c"] > 64:
            raise Unsupported("array")
        return By(els=[v] * e["c"]) if isinstance(v, I) and v.ty == "u8" else L([("one", v)] * e["c"])

    def e_unsize(self, ex, e):
        return ex.ev(e["x"])

    def e_unsup(self, ex, e):
        raise Unsupported(e["why"])

    def e_adt(self, ex, e):
        f = {n: ex.ev(x) for n, x in e["f"]}
        if e.get("base"):
            b = ex.deref(ex.ev(e["base"]))
            if not isinstance(b, St):
                raise Unsupported("struct update")
            f = dict(b.f, **f)
        if not e["enum"]:
            return St(e["n"], f)
        if e["plain"]:
            return I(int(e["d"]), e["rep"])
        if any(not n.isdigit() for n in f):
            raise Unsupported("variant with named fields")
        return En(e["n"], e["v"], [f[str(i)] for i in range(len(f))])

    def e_rconst(self, ex, e):
        return ex.call_fn(self.mod.byid[e["id"]], [])

    def e_closure(self, ex, e):
        env = dict(ex.env)
        for v in e["vals"]:
            if v in env:
                env[v] = ex.new(ex.load(env[v]))
        return Clo(e, env)

    def e_fnval(self, ex, e):
        return Fn("$fn", extra=e["f"])

    def e_var(self, ex, e):
        if e["n"] not in ex.env:
            raise Unsupported("variable " + e["n"])
        return ex.load(ex.env[e["n"]])

    def e_addr(self, ex, e):
        x = e["x"]
        while x["k"] == "paren":
            x = x["x"]
        if x["k"] in ("var", "field", "index", "deref"):
            loc, path = ex.lv(x)
            v = ex.load(loc, path)
            if not e["mut"] and (isinstance(v, (S, By, Buf)) or loc.startswith("$ro")):
                return v
            return Ref(loc, path)
        v = ex.ev(x)
        return Ref(ex.new(v), ())

    def lv_deref(self, ex, e):
        v = ex.ev(e["x"])
        if isinstance(v, Ref):
            return v.loc, v.path
        return self.frozen(ex, v), ()

    def frozen(self, ex, v):
        """a place that only holds a copy"""
        loc = "$ro" + ex.new(UNIT)
        ex.heap[loc] = v
        return loc

    def lv_tfield(self, ex, e):
        return self.frozen(ex, ex.ev(e)), ()

    def lv_index(self, ex, e):
        loc, path = ex.lvbase(e["x"])
        v = ex.load(loc, path)
        if isinstance(v, (Buf, By, S)) or isinstance(v, St):
            return self.frozen(ex, self.index(ex, v, ex.ev(e["i"]))), ()
        return None

    def deref(self, ex, v):
        return v

    def e_tfield(self, ex, e):
        v = ex.deref(ex.ev(e["x"]))
        if isinstance(v, tuple):
            return v[e["n"]]
        if isinstance(v, St):
            return v.f[str(e["n"])]
        raise Unsupported("tuple field")

    def field(self, ex, v, n):
        return None

    def e_asg(self, ex, e):
        l = e["l"]
        if e["o"] == "=" and l["k"] == "var" and l["n"] not in ex.env:      # let x; ... x = v
            ex.bind(l["n"], ex.ev(e["r"]))
            return UNIT
        v = ex.ev(e["r"])
        loc, path = ex.lv(l)
        if loc.startswith("$ro"):
            raise Unsupported("assignment through a copy")
        if e["o"] != "=":
            v = self.binop(ex, e["o"][:-1], ex.load(loc, path), v, e)
        ex.store(loc, path, v)
        return UNIT

    # ---- control
    def e_rblock(self, ex, e):
        env = ex.env
        ex.env = dict(env) if False else env
        try:
            for s in e["ss"]:
                if s["k"] == "expr":
                    ex.ev(s["x"])
                else:
                    self.s_rlet(ex, s)
            v = ex.ev(e["x"]) if e["x"] is not None else UNIT
        except Brk as b:
            if e.get("label") is None or b.label != e["label"]:
                raise
            v = ex.heap.pop(f"$brk{b.label}", UNIT)
        ex.env = env
        return v

    def s_rlet(self, ex, s):
        if s["x"] is None:
            if s["p"]["p"] != "bind":
                raise Unsupported("declaration")
            ex.bind(s["p"]["n"], Un("not assigned yet"))
            return
        if s["p"]["p"] == "bind" and not s["p"]["ref"] and not s["p"]["sub"]:
            ex.bind(s["p"]["n"], ex.ev(s["x"]))
            return
        loc, path = self.place(ex, s["x"])
        binds = []
        c = self.pmatch(ex, s["p"], loc, path, binds)
        if s["else"] is None or ex.branch(c):
            self.bind_all(ex, binds)
        else:
            ex.ev(s["else"])
            raise Unsupported("else of a let that goes on")

    def place(self, ex, x):
        if x["k"] in ("var", "field", "index", "deref"):
            return ex.lv(x)
        return self.frozen(ex, ex.ev(x)), ()

    def bind_all(self, ex, binds):
        for n, v in binds:
            ex.bind(n, v)

    def pmatch(self, ex, p, loc, path, binds):
        """condition under which the place matches the pattern; the bindings it makes are appended"""
        k = p["p"]
        if k == "wild":
            return True
        if k == "bind":
            v = ex.load(loc, path)
            if p["ref"]:
                v = Ref(loc, path) if not (isinstance(v, (S, By, Buf)) and not p["mut"]) else v
                if p["mut"] and loc.startswith("$ro"):
                    raise Unsupported("mutable reference to a copy")
            binds.append((p["n"], v))
            return True if not p["sub"] else self.pmatch(ex, p["sub"], loc, path, binds)
        v = ex.load(loc, path)
        if k == "deref":
            if isinstance(v, Ref):
                return self.pmatch(ex, p["sub"], v.loc, v.path, binds)
            return self.pmatch(ex, p["sub"], loc, path, binds)
        v = ex.deref(v)
        if k == "const":
            x = ex.ev(p["x"])
            if isinstance(v, Un) or isinstance(v, F):
                raise Unsupported("pattern")
            return ex.equal(self.bytes_of(ex, v), x)
        if k == "range":
            if not isinstance(v, I):
                raise Unsupported("pattern")
            c = []
            if p["lo"] is not None:
                c.append(le(ex.ev(p["lo"]).t, v.t))
            if p["hi"] is not None:
                h = ex.ev(p["hi"]).t
                c.append(le(v.t, h) if p["incl"] else lt(v.t, h))
            return and_(*c)
        if k == "variant":
            if p["plain"]:
                if not isinstance(v, I):
                    raise Unsupported("pattern")
                return eq(v.t, int(p["d"]))
            if isinstance(v, Msg) and p["e"] == "Message" and p["v"] in self.p.msg_ids:
                c = eq(self.msg_tag(ex, v), self.p.msg_ids[p["v"]])
                for i, q in p["f"]:
                    self.pmatch(ex, q, self.frozen(ex, Msg(p["v"], v.k)), (), binds)
                return c
            if not isinstance(v, En):
                raise Unsupported(f"pattern on {v!r}")
            if v.v != p["v"]:
                return False
            return and_(*[self.pmatch(ex, q, self.frozen(ex, v.p[i]), (), binds) for i, q in p["f"]])
        if k == "leaf":
            cs = []
            for i, q in p["f"]:
                if isinstance(v, tuple):
                    cs.append(self.pmatch(ex, q, self.frozen(ex, v[int(i)]), (), binds))
                elif isinstance(v, St):
                    cs.append(self.pmatch(ex, q, loc, tuple(path) + (str(i),), binds))
                else:
                    raise Unsupported("pattern")
            return and_(*cs)
        if k == "or":
            b = []
            c = or_(*[self.pmatch(ex, q, loc, path, b) for q in p["ps"]])
            if b:
                raise Unsupported("alternatives that bind")
            return c
        if k == "slice":
            v = self.bytes_of(ex, v)
            n = ex.length(v)
            ps = p["pre"] + p["suf"]
            if p["mid"] is not None or not known(n):
                raise Unsupported("pattern")
            if n != len(ps):
                return False
            return and_(*[self.pmatch(ex, q, self.frozen(ex, ex.at(v, i)), (), binds) for i, q in enumerate(ps)])
        raise Unsupported("pattern")

    def unblock(self, e):
        while e is not None and e["k"] == "rblock" and not e["ss"] and e["x"] is not None and e.get("label") is None:
            e = e["x"]
        return e

    def cond(self, ex, c):
        """does the condition hold; what it binds is bound"""
        if c["k"] == "ifletc":
            loc, path = self.place(ex, c["x"])
            binds = []
            if not ex.branch(self.pmatch(ex, c["p"], loc, path, binds)):
                return False
            self.bind_all(ex, binds)
            return True
        if c["k"] == "bin" and c["o"] == "&&" and c.get("lets"):
            return self.cond(ex, c["x"]) and self.cond(ex, c["y"])
        return ex.branch(ex.truth(ex.ev(c)))

    def truth(self, ex, v):
        v = ex.deref(v)
        if isinstance(v, B):
            return v.t
        raise Unsupported(f"condition {v!r}")

    def e_rif(self, ex, e):
        x, y = self.unblock(e["x"]), self.unblock(e["y"])
        if y is not None and e["c"]["k"] != "ifletc" and not e["c"].get("lets") and ex.pure(x) and ex.pure(y):
            return ex.e_cond({"c": e["c"], "x": x, "y": y})
        env = ex.env
        if self.cond(ex, e["c"]):
            v = ex.ev(e["x"])
        else:
            ex.env = env
            v = ex.ev(e["y"]) if e["y"] is not None else UNIT
        ex.env = env
        return v

    def simple(self, e):
        """notes whether the match is on constants or variants alone"""
        if "$sw" not in e:
            cs, dflt, simple = [], None, True
            for i, a in enumerate(e["arms"]):
                p = a["p"]
                while p["p"] == "deref":
                    p = p["sub"]
                ps = p["ps"] if p["p"] == "or" else [p]
                if a["g"] is not None:
                    simple = False
                elif len(ps) == 1 and p["p"] in ("wild", "bind") and not p.get("sub"):
                    if i != len(e["arms"]) - 1:
                        simple = False
                    dflt = i
                elif all(q["p"] == "const" and q["x"]["k"] == "int" for q in ps):
                    cs.append({"v": [q["x"] for q in ps], "i": i})
                elif all(q["p"] == "variant" and (q["plain"] or q["e"] == "Message") for q in ps):
                    cs.append({"v": [{"k": "int", "v": q["d"] if q["plain"] else str(self.p.msg_ids.get(q["v"], -1)), "t": "i64"} for q in ps], "i": i})
                else:
                    simple = False
            e["$sw"] = ({"cases": cs}, dflt) if simple and cs else None

    def switch(self, ex, e, loc, path):
        """a match on constants or variants alone: one decision; None if it is not one"""
        if e["$sw"] is None:
            return None
        v = ex.deref(ex.load(loc, path))
        if isinstance(v, Msg):
            v = I(self.msg_tag(ex, v), "u8")
        if not isinstance(v, I):
            return None
        i = ex.fork_switch(e["$sw"][0], v)
        if i is None:
            return None
        if i < 0:
            if e["$sw"][1] is None:
                raise Infeasible()
            return e["$sw"][1]
        return e["$sw"][0]["cases"][i]["i"]

    def is_const(self, e):
        e = self.unblock(e)
        return e is not None and (e["k"] in ("int", "bool") or e["k"] == "adt" and not e.get("base") and all(self.is_const(x) for _, x in e["f"])
                                  or e["k"] == "rcall" and "ctor" in e["f"] and all(self.is_const(a) for a in e["a"]))

    def table(self, ex, e, loc, path):
        """a match that gives constants: the arms of one shape are one decision, (value,) or None"""
        if e.get("$sw") is None:
            return None
        sw, dflt = e["$sw"]
        if "$tab" not in e:
            e["$tab"] = None
            arms = [(c, e["arms"][c["i"]]) for c in sw["cases"]]
            if len(arms) > 1 and all(self.is_const(a["x"]) for _, a in arms):
                groups = {}
                for c, a in arms:
                    v = ex.ev(self.unblock(a["x"]))
                    leaf = v.p[0] if isinstance(v, En) and len(v.p) == 1 else v
                    key = (v.ty, v.v if isinstance(v, En) else None, leaf.ty) if isinstance(leaf, I) and known(leaf.t) else None
                    if key is None or isinstance(v, En) and len(v.p) > 1:
                        groups = None
                        break
                    groups.setdefault(key, (v, []))[1].extend((int(x["v"]), leaf.t) for x in c["v"])
                if groups is not None:
                    flat = [x for _, ps in groups.values() for x, _ in ps]
                    e["$tab"] = list(groups.values()) if len(set(flat)) == len(flat) else None
        tab = e["$tab"]
        if tab is None:
            return None
        x = ex.deref(ex.load(loc, path))
        if not isinstance(x, I) or known(x.t):
            return None
        conds = [self.among(x.t, [a for a, _ in ps]) for _, ps in tab]
        for (v, ps), c in zip(tab, conds):
            if not ex.branch(c):
                continue
            leaf = v.p[0] if isinstance(v, En) else v
            t = x.t
            if any(a != b for a, b in ps):
                t = ps[-1][1]
                for a, b in ps[-2::-1]:
                    t = ite(eq(x.t, a), b, t)
            r = I(t, leaf.ty)
            return (En(v.ty, v.v, (r,)) if isinstance(v, En) else r,)
        if dflt is None:
            raise Infeasible()
        a = e["arms"][dflt]
        env = ex.env
        binds = []
        self.pmatch(ex, a["p"], loc, path, binds)
        self.bind_all(ex, binds)
        v = ex.ev(a["x"])
        ex.env = env
        return (v,)

    def among(self, t, ns):
        """t is one of the numbers"""
        out, ns = [], sorted(ns)
        while ns:
            n = 1
            while n < len(ns) and ns[n] == ns[0] + n:
                n += 1
            out.append(and_(le(ns[0], t), le(t, ns[0] + n - 1)) if n > 2 else or_(*[eq(t, x) for x in ns[:n]]))
            ns = ns[n:]
        return or_(*out)

    def e_rmatch(self, ex, e):
        loc, path = self.place(ex, e["x"])
        env = ex.env
        self.simple(e)
        r = self.table(ex, e, loc, path)
        if r is not None:
            return r[0]
        i = self.switch(ex, e, loc, path)
        for j, a in enumerate(e["arms"]):
            if i is not None and i != j:
                continue
            binds = []
            c = self.pmatch(ex, a["p"], loc, path, binds)
            if i is None and not ex.branch(c):
                continue
            self.bind_all(ex, binds)
            if a["g"] is not None and not self.cond(ex, a["g"]):
                ex.env = env
                continue
            v = ex.ev(a["x"])
            ex.env = env
            return v
        raise Infeasible()

    def e_try(self, ex, e):
        v = ex.deref(ex.ev(e["x"]))
        if not isinstance(v, En):
            raise Unsupported(f"? on {v!r}")
        if v.v in ("Ok", "Some"):
            return v.p[0]
        if v.v == "None":
            raise Ret(NONE)
        t, rt = e["t"], e["rt"]
        if t[0] != "adt" or rt[0] != "adt" or rt[1] != "Result" or t[2][1] != rt[2][1]:
            raise Unsupported("conversion of an error")
        raise Ret(err(v.p[0]))

    def e_rreturn(self, ex, e):
        raise Ret(ex.ev(e["x"]) if e["x"] is not None else UNIT)

    def e_rbreak(self, ex, e):
        if e["x"] is not None:
            ex.heap[f"$brk{e['label']}"] = ex.ev(e["x"])
        raise Brk(e["label"])

    def e_rcontinue(self, ex, e):
        raise Cont(e["label"])

    def e_rwhile(self, ex, e):
        s = e.setdefault("$s", {"k": "while", "c": e["c"], "b": [{"k": "expr", "x": e["b"]}], "label": e["label"]})
        ex.s_while(s)
        return UNIT

    def e_rloop(self, ex, e):
        s = e.setdefault("$s", {"k": "while", "c": None, "b": [{"k": "expr", "x": e["b"]}], "label": e["label"]})
        ex.s_while(s)
        return ex.heap.pop(f"$brk{e['label']}", UNIT)

    def e_rfor(self, ex, e):
        it = self.iter_of(ex, ex.ev(e["x"]), e["xt"])
        label = e["label"]

        def one(k):
            env = ex.env
            v = it.get(k)
            if e["p"]["p"] == "bind" and not e["p"]["sub"] and not e["p"]["ref"]:
                ex.bind(e["p"]["n"], v)
            elif e["p"]["p"] != "wild":
                binds = []
                self.pmatch(ex, e["p"], self.frozen(ex, v), (), binds)
                self.bind_all(ex, binds)
            try:
                ex.ev(e["b"])
            except Cont as c:
                if c.label is not None and c.label != label:
                    raise
            ex.env = env
        env = ex.env
        self.rounds(ex, (id(e), 0), one, it.n, label)
        ex.env = env
        return UNIT

    def rounds(self, ex, key, one, n, label=None):
        try:
            if known(n) and n <= 70:
                for i in range(n):
                    one(i)
            else:
                ex.summarise(key, one, count=n, label=label)
        except Brk as b:
            if b.label is not None and b.label != label:
                raise

    # ---- iterators
    def iter_of(self, ex, v, t):
        """what IntoIterator::into_iter(v) goes through"""
        if isinstance(v, It):
            return v
        byref = isinstance(t, list) and t[0] == "ref"
        if byref and t[1]:
            raise Unsupported("iteration by mutable references")
        loc = v
        v = ex.deref(v)
        if isinstance(v, It):
            raise Unsupported("iterator by reference")
        if isinstance(v, St) and v.ty in ("Range", "RangeInclusive"):
            a, b = v.f["start"], v.f["end"]
            hi = add(b.t, 1) if v.ty == "RangeInclusive" else b.t
            if not ex.branch(le(a.t, hi)):
                return It(0, None)
            return It(sub(hi, a.t), lambda k: I(add(a.t, k), a.ty))
        if isinstance(v, St) and v.ty in ("$le", "$be"):
            v = self.split(ex, v)
        if isinstance(v, Buf):
            return It(v.n, lambda k: self.byte_at(ex, v, k))
        if isinstance(v, (L, A, By)):
            n = ex.length(v)
            if byref:
                return It(n, lambda k: Ref(ex.new(ex.at(v, k)), ()), src=v)
            return It(n, lambda k: ex.at(v, k), src=v)
        raise Unsupported(f"iteration of {v!r}")

    def split(self, ex, v):
        """a number as its bytes"""
        w, x = v.f["w"].t, v.f["x"]
        t = x.t
        els = [I((t >> (8 * i)) & 255 if known(t) else (zi(t) / (1 << (8 * i))) % 256, "u8") for i in range(w)]
        return By(els=els if v.ty == "$le" else els[::-1])

    def iterator_call(self, ex, n, it, a, e):
        key = (id(e), "it")
        if n == "map":
            f = a[0]
            return It(it.n, lambda k: self.apply_fn(ex, f, [it.get(k)]))
        if n in ("copied", "cloned"):
            return It(it.n, lambda k: ex.deref(it.get(k)), it.src)
        if n == "enumerate":
            return It(it.n, lambda k: (I(k, "usize"), it.get(k)))
        if n in ("into_iter", "by_ref", "iter"):
            return it
        if n == "take" and isinstance(a[0], I):
            m = a[0].t
            return It(m if ex.branch(le(m, it.n)) else it.n, it.get)
        if n == "len" or n == "count" and it.src is not None:
            return I(it.n, "usize")
        if n in ("sum", "fold", "for_each", "try_for_each", "try_fold"):
            t = e["t"]
            if n == "sum":
                if not (isinstance(t, str) and t in RANGE):
                    raise Unsupported("sum")
                acc = ex.new(I(0, t))
                one = lambda k: ex.store(acc, (), self.binop(ex, "+", ex.load(acc), it.get(k), e))
            elif n == "fold":
                acc = ex.new(a[0])
                one = lambda k: ex.store(acc, (), self.apply_fn(ex, a[1], [ex.load(acc), it.get(k)]))
            elif n == "for_each":
                acc = ex.new(UNIT)
                one = lambda k: self.apply_fn(ex, a[0], [it.get(k)])
            else:
                raise Unsupported("iterator method " + n)
            self.rounds(ex, key, one, it.n, "$it")
            return ex.load(acc)
        if n == "collect":
            t = e["t"]
            vec = ex.new(L())
            if tyname(t) == "Vec":
                self.rounds(ex, key, lambda k: ex.store(vec, (), ex.load(vec).push(it.get(k))), it.n, "$it")
                return ex.load(vec)
            if tyname(t) == "Result" and tyname(t[2][0]) == "Vec":
                res = ex.new(NONE)

                def one(k):
                    r = ex.deref(it.get(k))
                    if not isinstance(r, En):
                        raise Unsupported("collect")
                    if r.v == "Err":
                        ex.heap[res] = r
                        raise Brk("$it")
                    ex.store(vec, (), ex.load(vec).push(r.p[0]))
                self.rounds(ex, key, one, it.n, "$it")
                r = ex.load(res)
                return r if r.v == "Err" else ok(ex.load(vec))
        raise Unsupported("iterator method " + n)

    def apply_fn(self, ex, f, args):
        f = ex.deref(f)
        if isinstance(f, Clo):
            ps, pre = [], []
            nd = f.node
            if "$fn" not in nd:
                for i, p in enumerate(nd["params"]):
                    q = p["p"]
                    if q and q["p"] == "bind" and not q["ref"] and not q["sub"]:
                        ps.append({"n": q["n"]})
                    else:
                        ps.append({"n": f"$c{i}"})
                        if q and q["p"] != "wild":
                            pre.append({"k": "rlet", "p": q, "x": {"k": "var", "n": f"$c{i}"}, "else": None})
                nd["$fn"] = {"n": "closure", "params": ps, "body": pre + [{"k": "return", "x": nd["b"]}]}
            return ex.call_fn(nd["$fn"], args, bound=f.env)
        if isinstance(f, Fn) and f.n == "$fn":
            return self.invoke(ex, f.extra, args, {"k": "rcall", "t": None, "at": [None] * len(args)})
        raise Unsupported(f"call of {f!r}")

    # ---- the input
    def at_cur(self, ex, loc, o, what):
        s = ex.heap[loc]
        c = lt(o, s.cur)
        if c is True or c is not False and ex.proves(c):
            raise Unsupported("reads something again")
        super().at_cur(ex, loc, o, what)

    def byte_at(self, ex, b, i):
        o = add(b.base, i)
        self.at_cur(ex, b.loc, o, "reading a byte")
        if not self.in_room(ex, o, 1):
            raise Crash("reads past the end of the buffer")
        return self.rd_num(ex, 1, "u8")

    def consume(self, ex, b):
        """the bytes of a view of the input"""
        self.at_cur(ex, b.loc, b.base, "reading")
        if not self.in_room(ex, b.base, b.n):
            raise Crash("reads past the end of the buffer")
        return self.rd_bytes(ex, b.n)

    def bytes_of(self, ex, v):
        if isinstance(v, Buf) and v.loc == "$in":
            return self.consume(ex, v)
        if isinstance(v, St) and v.ty in ("$le", "$be"):
            return self.split(ex, v)
        if isinstance(v, L) and all(s[0] == "one" and isinstance(s[1], I) and s[1].ty == "u8" for s in v.segs):
            return By(els=[s[1] for s in v.segs])
        return v

    def index(self, ex, x, i):
        v = ex.deref(x)
        i = ex.deref(i)
        if isinstance(i, St) and i.ty in ("Range", "RangeFrom", "RangeTo", "RangeFull", "RangeInclusive", "RangeToInclusive"):
            return self.sliced(ex, v, i)
        if not isinstance(i, I):
            raise Unsupported("index")
        if isinstance(v, St) and v.ty in ("$le", "$be"):
            v = self.split(ex, v)
        n = ex.length(v)
        if not ex.branch(and_(le(0, i.t), lt(i.t, n))):
            raise Crash("index out of range")
        if isinstance(v, Buf):
            if v.loc != "$in":
                raise Unsupported("reads the output")
            return self.byte_at(ex, v, i.t)
        return ex.at(v, i.t)

    def sliced(self, ex, v, r):
        v = self.split(ex, v) if isinstance(v, St) and v.ty in ("$le", "$be") else v
        n = ex.length(v)
        lo = r.f["start"].t if "start" in r.f else 0
        hi = r.f["end"].t if "end" in r.f else n
        if "Inclusive" in r.ty:
            hi = add(hi, 1)
        if not ex.branch(and_(le(lo, hi), le(hi, n))):
            raise Crash("range out of the slice")
        if isinstance(v, Buf) and v.loc == "$in":
            return Buf(v.loc, add(v.base, lo), sub(hi, lo), v.kind)
        if isinstance(v, By) and v.els is not None and known(lo) and known(hi):
            return By(els=v.els[lo:hi])
        if lo == 0 and same(hi, n):
            return v
        raise Unsupported("slice")

    # ---- the output
    def put(self, ex, v, e):
        """appends bytes to the output"""
        if isinstance(v, It):
            if v.src is None:
                self.rounds(ex, (id(e), "put"), lambda k: self.put_byte(ex, v.get(k)), v.n, "$it")
                return
            v = v.src
        v = ex.deref(v)
        if isinstance(v, Buf):
            v = self.bytes_of(ex, v)
        if isinstance(v, St) and v.ty == "$le":
            self.wr_num(ex, v.f["w"].t, v.f["x"].t)
        elif isinstance(v, St) and v.ty == "$be":
            self.wr_swapped(ex, v.f["w"].t, v.f["x"].t)
        elif isinstance(v, (By, S)):
            self.wr_bytes(ex, v)
        elif isinstance(v, (L, A)):
            self.rounds(ex, (id(e), "put"), lambda k: self.put_byte(ex, ex.at(v, k)), v.n, "$it")
        elif isinstance(v, En) and v.ty == "Option":
            for x in v.p:
                self.put_byte(ex, x)
        else:
            raise Unsupported(f"bytes {v!r}")

    def put_byte(self, ex, x):
        x = ex.deref(x)
        if not isinstance(x, I) or x.ty != "u8":
            raise Unsupported(f"byte {x!r}")
        self.wr_num(ex, 1, x.t)

    # ---- calls
    def e_dcall(self, ex, e):
        f = ex.ev(e["fx"])
        return self.apply_fn(ex, f, [ex.ev(a) for a in e["a"]])

    def e_rcall(self, ex, e):
        return self.invoke(ex, e["f"], [ex.ev(a) for a in e["a"]], e)

    def invoke(self, ex, f, args, e):
        if "ctor" in f:
            t = f.get("t")
            if not t or not f.get("enum"):
                raise Unsupported("constructor")
            return En(t[1], f["n"] if f["n"] != "{constructor#0}" else f["ctor"], args)
        if f.get("derived"):
            r = self.derived(ex, f, args)
            if r is not NotImplemented:
                return r
        if "id" in f:
            fn = self.mod.byid.get(f["id"])
            if fn is None:
                raise Unsupported("call of " + f["n"])
            r = self.by_contract(ex, fn, args)
            if r is not NotImplemented:
                return r
            return ex.call_fn(fn, args)
        if f.get("open") and "tr" in f and f["crate"] == "m":       # inside generic code: by what the receiver is
            v = ex.deref(args[0]) if args else None
            own = v.ty if isinstance(v, (St, En)) else v.h or "Message" if isinstance(v, Msg) else None
            fn = self.mod.funcs.get(f"{own}.{f['n']}")
            if fn is not None:
                r = self.by_contract(ex, fn, args)
                return r if r is not NotImplemented else ex.call_fn(fn, args)
            raise Unsupported("generic call")
        if f["crate"] not in ("core", "alloc", "std"):
            raise Unsupported("call of " + f["n"])
        return self.std(ex, f, args, e)

    def derived(self, ex, f, args):
        n, tr = f["n"], f.get("tr")
        if tr == "Clone" and n == "clone":
            return ex.deref(args[0])
        if tr == "PartialEq" and n in ("eq", "ne"):
            t = ex.equal(ex.deref(args[0]), ex.deref(args[1]))
            return B(t if n == "eq" else not_(t))
        return NotImplemented

    def equal(self, ex, a, b):
        if isinstance(a, En) and isinstance(b, En):
            if a.v != b.v:
                return False
            return and_(*[ex.equal(ex.deref(x), ex.deref(y)) for x, y in zip(a.p, b.p)])
        if isinstance(a, tuple) and isinstance(b, tuple):
            return and_(*[ex.equal(x, y) for x, y in zip(a, b)])
        return None

    def opaque(self, f, why=""):
        raise Unsupported(f"{f.get('tr') or tyname(f.get('self', ''))}::{f['n']}{why}")

    def zero(self, ex, t):
        if isinstance(t, str):
            if t in RANGE:
                return I(0, t)
            if t == "bool":
                return B(False)
            if t in ("f32", "f64"):
                return F(0, 4 if t == "f32" else 8)
            if t in ("String", "str"):
                return S(b"")
        elif t[0] == "adt":
            if t[1] == "Vec" and not t[3]:
                return L()
            if t[1] == "Option" and not t[3]:
                return NONE
            fn = self.mod.funcs.get(t[1] + ".default")
            if t[3] and fn is not None:
                r = self.by_contract(ex, fn, [])
                return r if r is not NotImplemented else ex.call_fn(fn, [])
        elif t[0] == "tuple":
            return tuple(self.zero(ex, x) for x in t[1])
        raise Unsupported(f"default of {t}")

    def std(self, ex, f, args, e):
        n, tr, st = f["n"], f.get("tr"), f.get("self")
        d = [ex.deref(a) if not isinstance(a, (It, Clo)) else a for a in args]
        a0 = d[0] if d else None
        if tr is not None:
            if tr == "Default" and n == "default":
                return self.zero(ex, st)
            if tr == "Clone" and n == "clone" or tr == "ToOwned" or tr == "ToString" and isinstance(a0, S):
                if isinstance(a0, (It, Clo, Un)):
                    self.opaque(f)
                return self.bytes_of(ex, a0) if isinstance(a0, Buf) else a0
            if tr in ("Deref", "AsRef", "Borrow", "DerefMut", "AsMut", "BorrowMut"):
                return args[0]
            if tr in ("Index",):
                return self.hold(ex, self.index(ex, a0, d[1]))
            if tr == "IndexMut" and isinstance(args[0], Ref) and isinstance(d[1], I) and isinstance(a0, (L, A)):
                self.inrange(ex, a0, d[1], a0.n)
                return Ref(args[0].loc, tuple(args[0].path) + (("ix", d[1].t),))
            if tr == "IntoIterator":
                return self.iter_of(ex, args[0], e["at"][0])
            if tr in ("Iterator", "ExactSizeIterator", "DoubleEndedIterator"):
                if n in ("next", "by_ref", "nth", "next_back"):
                    self.opaque(f)
                return self.iterator_call(ex, n, self.iter_of(ex, args[0], e["at"][0]), d[1:], e)
            if tr == "Extend" and n == "extend":
                return self.append(ex, args[0], args[1], e["at"][1], e)
            if tr == "Write" and n == "write_all" and isinstance(a0, Buf) and a0.loc == "$out":
                self.put(ex, args[1], e)
                return ok(UNIT)
            if tr == "PartialEq" and n in ("eq", "ne"):
                x, y = self.bytes_of(ex, a0), self.bytes_of(ex, d[1])
                t = ex.equal(x, y)
                return B(t if n == "eq" else not_(t))
            if tr == "PartialOrd" and n in ("lt", "le", "gt", "ge"):
                return ex.compare({"lt": "<", "le": "<=", "gt": ">", "ge": ">="}[n], a0, d[1])
            if tr == "Ord" and n in ("min", "max") and isinstance(a0, I):
                c = lt(a0.t, d[1].t) if n == "min" else lt(d[1].t, a0.t)
                return I(ite(c, a0.t, d[1].t), a0.ty)
            if tr in ("From", "TryFrom"):
                return self.from_(ex, st, tr, args[0], e, f)
            if tr in ("Fn", "FnMut", "FnOnce"):
                return self.apply_fn(ex, a0, list(d[1]))
            self.opaque(f)
        if st is None:
            if n == "size_of" and isinstance(f["targs"][0], str) and f["targs"][0] in list(RANGE) + ["f32", "f64", "bool"]:
                t = f["targs"][0]
                return I(1 if t == "bool" else BITS[t] // 8 if t in RANGE else int(t[1:]) // 8, "usize")
            if n == "drop":
                return UNIT
            if n in ("min", "max") and isinstance(a0, I):
                c = lt(a0.t, d[1].t) if n == "min" else lt(d[1].t, a0.t)
                return I(ite(c, a0.t, d[1].t), a0.ty)
            if n in ("take", "replace") and isinstance(args[0], Ref):
                v = a0
                ex.store(args[0].loc, args[0].path, d[1] if n == "replace" else self.zero(ex, f["targs"][0]))
                return v
            if n in ("from_utf8",) and d:
                return self.utf8(ex, a0)
            if n in ("panic", "panic_fmt", "begin_panic", "unreachable_display"):
                raise Crash("panic")
            self.opaque(f)
        k = tyname(st)
        if k in RANGE:
            return self.int_method(ex, k, n, d, f)
        if k in ("f32", "f64"):
            w = 4 if k == "f32" else 8
            if n in ("to_le_bytes", "to_be_bytes", "to_ne_bytes"):
                return St("$be" if n == "to_be_bytes" else "$le", {"w": I(w), "x": a0})
            if n in ("from_le_bytes", "from_ne_bytes"):
                return F(self.number(ex, a0, w, None), w)
            if n == "from_be_bytes":
                self.number(ex, a0, w, None)
                return F(ex.fresh("sw", 0, (1 << (8 * w)) - 1), w)
            if n == "to_bits":
                return I(a0.t, "u32" if w == 4 else "u64")
            if n == "from_bits":
                return F(a0.t, w)
            self.opaque(f)
        if k in ("Result", "Option"):
            return self.variant_method(ex, k, n, d, args, f)
        if k in ("Vec", "slice", "arr", "[u8]"):
            return self.vec_method(ex, n, args, d, e, f, st)
        if k in ("String", "str"):
            if n in ("new", "with_capacity"):
                return S(b"")
            if n == "len":
                return I(ex.length(a0), "usize")
            if n == "is_empty":
                return B(eq(ex.length(a0), 0))
            if n in ("as_str", "to_string", "to_owned"):
                return a0
            if n in ("as_bytes", "into_bytes"):
                return By(els=[I(b, "u8") for b in a0.h]) if isinstance(a0, S) and isinstance(a0.h, bytes) else By(h=a0.h, n=a0.n) if isinstance(a0, S) else a0
            if n == "bytes":
                v = By(els=[I(b, "u8") for b in a0.h]) if isinstance(a0.h, bytes) else By(h=a0.h, n=a0.n)
                return It(v.n, lambda k: ex.at(v, k), src=v)
            if n == "chars" and isinstance(a0, S):
                m = len(a0.h.decode()) if isinstance(a0.h, bytes) else self.chars(ex, a0)
                return It(m, None, src=a0)
            if n == "from_utf8":
                return self.utf8(ex, a0)
            if n == "from_utf8_unchecked":
                return self.text_of(ex, self.bytes_of(ex, a0))
        if k == "RangeInclusive" and n == "new":
            return St("RangeInclusive", {"start": d[0], "end": d[1]})
        self.opaque(f)

    def chars(self, ex, v):
        """number of code points of a text: any number its bytes can make"""
        f = z3.Function("CHARS", z3.IntSort(), z3.IntSort())(zi(v.h))
        ex.pc += [f >= 0, f <= zi(v.n), 4 * f >= zi(v.n)]
        return f

    def hold(self, ex, v):
        """a shared reference to v"""
        return v if isinstance(v, (S, By, Buf)) else Ref(ex.new(v), ())

    def utf8(self, ex, v):
        v = self.bytes_of(ex, v)
        if not isinstance(v, By):
            raise Unsupported(f"text of {v!r}")
        if ex.choose(2):
            self.ghost(ex, "utf8")
            return err(Un("Utf8Error"))
        return ok(self.text_of(ex, v))

    def from_(self, ex, st, tr, v, e, f):
        wrap = ok if tr == "TryFrom" else (lambda x: x)
        x = ex.deref(v)
        k = tyname(st)
        if isinstance(st, str) and st in RANGE and isinstance(x, (I, B)):
            if isinstance(x, B):
                return wrap(I(ite(x.t, 1, 0), st))
            lo, hi = RANGE[st]
            if tr == "From" or ex.branch(and_(le(lo, x.t), le(x.t, hi))):
                return wrap(I(x.t, st))
            return err(Un("TryFromIntError"))
        if k in ("arr",) and isinstance(x, (Buf, By, L, A)):
            if not ex.branch(eq(ex.length(x), st[2])):
                return err(Un("TryFromSliceError"))
            return wrap(x if isinstance(x, Buf) else x)
        if k == "ref" and tyname(st[2]) == "arr" and isinstance(x, (Buf, By, L, A)):
            if not ex.branch(eq(ex.length(x), st[2][2])):
                return err(Un("TryFromSliceError"))
            return wrap(x)
        if k in ("String", "str") and isinstance(x, S):
            return wrap(x)
        if k == "Vec" and isinstance(x, (By, Buf, L, A)):
            return wrap(self.bytes_of(ex, x) if isinstance(x, Buf) else x)
        if f.get("targs") and f["targs"][0] == st:
            return wrap(v)
        self.opaque(f)

    def number(self, ex, v, w, ty):
        """the number in w bytes, low end first"""
        if isinstance(v, Buf) and v.loc == "$in":
            if not ex.proves(eq(v.n, w)):
                raise Unsupported("number of another length")
            self.at_cur(ex, v.loc, v.base, "reading a number")
            if not self.in_room(ex, v.base, w):
                raise Crash("reads past the end of the buffer")
            return self.rd_num(ex, w, ty).t if ty else self.rd_bits(ex, w)
        if isinstance(v, St) and v.ty == "$le" and v.f["w"].t == w:
            x = v.f["x"]
            if isinstance(x, I) and ty:
                return modw(x.t, 8 * w, SIGNED[ty]) if x.ty != ty else x.t
            if isinstance(x, F) and not ty:
                return x.t
        v = self.bytes_of(ex, v)
        if isinstance(v, By) and v.els is not None and len(v.els) == w:
            t = add(*[mul(1 << (8 * i), x.t) for i, x in enumerate(v.els)])
            return modw(t, 8 * w, SIGNED[ty]) if ty and SIGNED[ty] else t
        raise Unsupported(f"number of {v!r}")

    def int_method(self, ex, ty, n, d, f):
        a0 = d[0]
        w = BITS[ty] // 8
        if n in ("to_le_bytes", "to_be_bytes", "to_ne_bytes"):
            return St("$be" if n == "to_be_bytes" else "$le", {"w": I(w), "x": a0})
        if n in ("from_le_bytes", "from_ne_bytes"):
            return I(self.number(ex, a0, w, ty), ty)
        if n == "from_be_bytes":
            if w > 1:
                self.number(ex, a0, w, ty)
                return I(ex.fresh("sw", *RANGE[ty]), ty)
            return I(self.number(ex, a0, w, ty), ty)
        if n in ("to_le", "from_le"):
            return a0
        if n in ("min_value", "max_value"):
            return I(RANGE[ty][0 if n[1] == "i" else 1], ty)
        m = n.split("_")
        op = {"add": add, "sub": sub, "mul": mul}.get(m[-1])
        if op and len(m) == 2 and m[0] in ("wrapping", "checked", "saturating", "overflowing"):
            t = op(a0.t, d[1].t)
            lo, hi = RANGE[ty]
            fits = and_(le(lo, t), le(t, hi))
            if m[0] == "wrapping":
                return I(t if ex.proves(fits) else modw(t, BITS[ty], SIGNED[ty]), ty)
            if m[0] == "checked":
                return some(I(t, ty)) if ex.branch(fits) else NONE
            if m[0] == "saturating":
                if ex.branch(fits):
                    return I(t, ty)
                return I(lo if ex.branch(lt(t, lo)) else hi, ty)
        if n == "abs" and ex.branch(le(0, a0.t)):
            return a0
        if n in ("is_negative", "is_positive"):
            return B(lt(a0.t, 0) if n == "is_negative" else lt(0, a0.t))
        if n == "unsigned_abs":
            return I(a0.t if ex.branch(le(0, a0.t)) else sub(0, a0.t), "u" + ty[1:])
        self.opaque(f)

    def variant_method(self, ex, k, n, d, args, f):
        v = d[0]
        if not isinstance(v, En):
            self.opaque(f)
        good = v.v in ("Ok", "Some")
        x = v.p[0] if v.p else None
        if n in ("is_ok", "is_some"):
            return B(good)
        if n in ("is_err", "is_none"):
            return B(not good)
        if n in ("unwrap", "expect"):
            if good:
                return x
            raise Crash(f"{n} of {v.v}")
        if n == "unwrap_or":
            return x if good else args[1]
        if n == "unwrap_or_default" and not good:
            return self.zero(ex, f["self"][2][0])
        if n in ("unwrap_or_else", "unwrap_or_default"):
            return x if good else self.apply_fn(ex, d[1], [x] if k == "Result" else [])
        if n == "ok" and k == "Result":
            return some(x) if good else NONE
        if n == "err" and k == "Result":
            return NONE if good else some(x)
        if n == "ok_or":
            return ok(x) if good else err(args[1])
        if n == "ok_or_else":
            return ok(x) if good else err(self.apply_fn(ex, d[1], []))
        if n == "map":
            return En(v.ty, v.v, (self.apply_fn(ex, d[1], [x]),)) if good else v
        if n == "map_err":
            return v if good else err(self.apply_fn(ex, d[1], [x]))
        if n == "and_then":
            return self.apply_fn(ex, d[1], [x]) if good else v
        if n in ("as_ref", "copied", "cloned", "as_deref"):
            return v
        self.opaque(f)

    def vec_method(self, ex, n, args, d, e, f, st):
        if n in ("new",):
            return L()
        if n == "with_capacity":
            if not ex.proves(le(d[0].t, 1 << 16)):
                raise Unsupported("reserved space")
            return L()
        v = d[0]
        r = args[0]
        if n in ("len", "is_empty"):
            m = self.out_len(ex, v) if isinstance(v, Buf) and v.loc == "$out" else I(8 if False else ex.length(self.split(ex, v) if isinstance(v, St) else v), "usize").t
            return I(m, "usize") if n == "len" else B(eq(m, 0))
        if n in ("push", "extend_from_slice", "append"):
            if n == "push":
                return self.push(ex, r, args[1])
            if n == "append":
                self.opaque(f)
            return self.append(ex, r, args[1], ["ref", False, st], e)
        if n in ("iter",):
            return self.iter_of(ex, v if not isinstance(v, (L, A)) else r, ["ref", False, st])
        if n in ("as_slice", "as_mut_slice", "as_ref", "into_boxed_slice"):
            return args[0]
        if n in ("to_vec", "into_vec"):
            return self.bytes_of(ex, v) if isinstance(v, Buf) else v
        if n == "reserve":
            if not ex.proves(le(d[1].t, 1 << 40)):
                raise Unsupported("reserved space")
            return UNIT
        if n == "get":
            i = d[1]
            if isinstance(i, I):
                if isinstance(v, Buf) and v.loc != "$in":
                    self.opaque(f)
                if not ex.branch(lt(i.t, ex.length(v))):
                    return NONE
                return some(self.hold(ex, self.index(ex, v, i)))
            if isinstance(i, St):
                m = ex.length(v)
                lo = i.f["start"].t if "start" in i.f else 0
                hi = i.f["end"].t if "end" in i.f else m
                if "Inclusive" in i.ty or not ex.branch(and_(le(lo, hi), le(hi, m))):
                    if "Inclusive" in i.ty:
                        self.opaque(f)
                    return NONE
                return some(self.sliced(ex, v, i))
        if n == "first":
            return some(self.hold(ex, self.index(ex, v, I(0, "usize")))) if ex.branch(lt(0, ex.length(v))) else NONE
        if n == "split_at" and isinstance(v, Buf):
            m = d[1].t
            if not ex.branch(le(m, v.n)):
                raise Crash("split outside the slice")
            return (Buf(v.loc, v.base, m, v.kind), Buf(v.loc, add(v.base, m), sub(v.n, m), v.kind))
        if n == "clear" and isinstance(v, L):
            ex.store(r.loc, r.path, L())
            return UNIT
        self.opaque(f)

    def out_len(self, ex, v):
        return ex.heap["$out"].cur

    def push(self, ex, r, x):
        v = ex.deref(r)
        if isinstance(v, Buf) and v.loc == "$out":
            self.put_byte(ex, x)
            return UNIT
        v = self.own(ex, r, v)
        ex.store(r.loc, r.path, v.push(x))
        return UNIT

    def own(self, ex, r, v):
        if not isinstance(r, Ref) or r.loc.startswith("$ro"):
            raise Unsupported("push to a copy")
        if isinstance(v, By) and v.els is not None:
            v = L([("one", x) for x in v.els])
        if isinstance(v, A) and known(v.n) and v.n == 0:
            v = L()
        if not isinstance(v, L):
            raise Unsupported(f"push to {v!r}")
        return v

    def append(self, ex, r, x, t, e):
        v = ex.deref(r)
        if isinstance(v, Buf) and v.loc == "$out":
            self.put(ex, x, e)
            return UNIT
        it = self.iter_of(ex, x, t if isinstance(x, It) or not (isinstance(t, list) and t[0] == "ref") else t)
        self.own(ex, r, v)
        self.rounds(ex, (id(e), "app"), lambda k: ex.store(r.loc, r.path, self.own(ex, r, ex.load(r.loc, r.path)).push(ex.deref(it.get(k)))), it.n, "$it")
        return UNIT

    # ---- contracts
    def by_contract(self, ex, fn, args):
        t, n = fn.get("owner"), fn["n"]
        v = ex.deref(args[0]) if args and not isinstance(args[0], (It, Clo)) else None
        mine = t in self.p.structs or t in self.p.messages
        if n == "write_bytes" and (isinstance(v, Msg) or mine and self.target != ("write", t)):
            tag = (t in self.p.messages or t == "Message")
            if isinstance(v, Msg):
                if t == "Message" and self.target[0] == "dispatch":
                    return NotImplemented
                if not (t == "Message" or v.h == t):
                    raise Unsupported("message of another type")
                self.outp(ex, args[1])
                self.msg_write(ex, v, ex.branch(ex.truth(args[2])))
                return UNIT
            self.outp(ex, args[1])
            if tag and ex.branch(ex.truth(args[2])):
                self.wr_num(ex, 1, self.p.msg_ids[t])
            self.write_contract(ex, t, v)
            return UNIT
        if n == "get_size_in_bytes":
            if isinstance(v, Msg):
                if t == "Message" and self.target[0] == "dispatch":
                    return NotImplemented
                return I(self.msg_size(ex, v), "usize")
            if t in self.p.messages and self.target != ("size", t):
                return I(self.size_contract(ex, t, v), "usize")
        if n == "from_bytes" and mine and self.target != ("read", t):
            self.inp(ex, args[0])
            r = self.read_contract(ex, t)
            if r is None:
                return err(self.some_error(ex))
            self.moved(ex, args[0])
            return ok(r)
        if n == "default" and mine and self.target != ("default", t):
            return self.inject(ex, codec.default(ex, self.p, t))
        if fn["key"] == "process_raw_bytes" and self.target[0] != "process":
            self.inp(ex, args[0])
            r = self.process_contract(ex, ex.deref(args[1]).t)
            if r is None:
                return err(self.some_error(ex))
            self.moved(ex, args[0])
            return ok(r)
        return NotImplemented

    def errors(self):
        for t, d in self.mod.types.items():
            if d["kind"] == "enum" and d["plain"] and any(v[0] == "EndOfMessageList" for v in d["vs"]):
                return t, {v[0]: int(v[1]) for v in d["vs"]}, d["rep"]
        raise Unsupported("no error type")

    def some_error(self, ex):
        """what a reader fails with: never what ends a list"""
        t, ds, rep = self.errors()
        x = ex.fresh("er", min(ds.values()), max(ds.values()))
        ex.pc.append(zb(not_(eq(x, ds["EndOfMessageList"]))))
        return I(x, rep)

    def reported(self, ex, t, v):
        v = ex.deref(v)
        return (not_(eq(v.t, self.errors()[1]["EndOfMessageList"])) if isinstance(v, I) else False), "is not reported as the end of a list"

    def outp(self, ex, r):
        v = ex.deref(r)
        if not isinstance(v, Buf) or v.loc != "$out":
            raise Unsupported(f"writer {v!r}")

    def inp(self, ex, r):
        v = ex.deref(r)
        if not isinstance(v, St) or not isinstance(v.f.get("current_position"), I):
            raise Unsupported(f"reader {v!r}")
        self.at_cur(ex, "$in", v.f["current_position"].t, "reading a member")

    def moved(self, ex, r):
        while isinstance(ex.load(r.loc, r.path), Ref):
            r = ex.load(r.loc, r.path)
        v = ex.load(r.loc, r.path)
        ex.store(r.loc, r.path, v.set("current_position", I(ex.heap["$in"].cur, "usize")))

    def as_msg(self, ex, v):
        v = ex.deref(v)
        if isinstance(v, En) and v.ty == "Message" and len(v.p) == 1:
            m = ex.deref(v.p[0])
            if isinstance(m, Msg) and m.h == v.v:
                return m
        return v

    # ---- protocol values
    def declared(self, t, is_list):
        if t in self.p.enums:
            d = self.mod.types.get(t)
            if not d or d["kind"] != "enum" or not d["plain"] or d["rep"] != self.enum_type(t):
                raise Unsupported("enum " + t)
            if sorted(int(v[1]) for v in d["vs"]) != sorted(self.p.enums[t].numbers):
                raise Unsupported("numbers of enum " + t)
            r = ["adt", t, [], True, d["rep"]]
        elif t in PRIM:
            r = PRIM[t]
        else:
            r = ["adt", t, [], True, None]
        return r if not is_list else "Vec"

    def fname(self, t, m):
        n = super().fname(t, m)
        f = [x for x in self.mod.types[t]["fields"] if x["n"] == n][0]
        for a, mt, l in self.p.st(t).members:
            if a == m:
                w = self.declared(mt, l)
                got = f["t"]
                if l:
                    if not (isinstance(got, list) and got[:2] == ["adt", "Vec"] and got[2][0] == self.declared(mt, False)):
                        raise Unsupported(f"{t}.{m} is declared as {got}")
                elif got != w:
                    raise Unsupported(f"{t}.{m} is declared as {got}")
        return n

    # ---- entry points
    def reader(self, ex):
        s = ex.heap["$in"]
        r = ex.deref(ex.call_fn(self.mod.funcs["BufferReader.new"], [Buf("$in", 0, s.end, "slice")]))
        if not isinstance(r, St):
            raise Unsupported("reader")
        self.rloc = ex.new(r.set("current_position", I(s.cur, "usize")))
        return Ref(self.rloc, ())

    def position(self, ex, stream):
        if stream == "$out":
            return ex.heap[stream].cur
        return ex.load(self.rloc).f["current_position"].t

    def writer(self, ex):
        return Ref(ex.new(Buf("$out", 0, ex.heap["$out"].end, "vec")), ())

    def result_of(self, ex, v):
        v = ex.deref(v)
        if isinstance(v, En) and v.v == "Ok":
            return ("ok", v.p[0])
        if isinstance(v, En) and v.v == "Err":
            return ("fail", v.p[0])
        raise Unsupported(f"result {v!r}")

    def do_write(self, ex, t, v, tag):
        args = [Ref(ex.new(v), ()), self.writer(ex)] + ([B(tag)] if t in self.p.messages else [])
        ex.call_fn(self.mod.funcs[t + ".write_bytes"], args)

    def do_size(self, ex, t, v):
        return ex.call_fn(self.mod.funcs[t + ".get_size_in_bytes"], [Ref(ex.new(v), ())]).t

    def do_read(self, ex, t):
        return self.result_of(ex, ex.call_fn(self.mod.funcs[t + ".from_bytes"], [self.reader(ex)]))

    def do_default(self, ex, t):
        return ex.call_fn(self.mod.funcs[t + ".default"], [])

    def do_id(self, ex, t):
        v = self.inject(ex, codec.make(ex, self.p, t, False, "m"))
        r = ex.call_fn(self.mod.funcs[t + ".get_message_type"], [Ref(ex.new(v), ())])
        for n, d, _ in self.mod.types["MessageType"]["vs"]:
            if known(r.t) and int(d) == r.t:
                return self.p.msg_ids.get(n, -1)
        return -1

    def do_process(self, ex, mx):
        return self.result_of(ex, ex.call_fn(self.mod.funcs["process_raw_bytes"], [self.reader(ex), I(mx, "i32")]))

    def do_packed_size(self, ex, lst):
        return ex.call_fn(self.mod.funcs["get_packed_size"], [Ref(ex.new(lst), ())]).t

    def do_pack(self, ex, lst):
        ex.call_fn(self.mod.funcs["pack_messages"], [Ref(ex.new(lst), ()), self.writer(ex)])

    def do_unpack(self, ex):
        return self.result_of(ex, ex.call_fn(self.mod.funcs["unpack_messages"], [self.reader(ex)]))

    def do_dispatch_size(self, ex, m):
        return ex.call_fn(self.mod.funcs["Message.get_size_in_bytes"], [Ref(ex.new(m), ())]).t

    def do_dispatch_write(self, ex, m, tag):
        ex.call_fn(self.mod.funcs["Message.write_bytes"], [Ref(ex.new(m), ()), self.writer(ex), B(tag)])

    def has(self, kind, t=None):
        F = self.mod.funcs
        return {"write": f"{t}.write_bytes" in F, "size": f"{t}.get_size_in_bytes" in F, "read": f"{t}.from_bytes" in F, "default": f"{t}.default" in F,
                "id": f"{t}.get_message_type" in F, "process": "process_raw_bytes" in F, "pack": "pack_messages" in F, "packsize": "get_packed_size" in F,
                "unpack": "unpack_messages" in F, "dispatch": "Message.write_bytes" in F}[kind]
