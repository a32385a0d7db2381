"""A countermodel of a failed obligation as an input for the compiled code."""
import z3
from .vals import *
from . import codec
from spec import codec as ref
from spec.proto import SIZES, RANGES, NUM


class No(Exception):
    pass


def text(h, n, u):
    """n bytes of UTF-8 with u UTF-16 units"""
    e = n - u
    if u <= 0 and n > 0 or e < 0:
        e = 0
    c = bytes([97 + h % 26])
    if e == 0:
        return c * n
    three, two = e // 2, e % 2
    one = n - 3 * three - 2 * two
    if one < 0:
        return c * n
    return ("€" * three + "é" * two).encode() + c * one


class Model:
    def __init__(self, ex, m):
        self.ex, self.m = ex, m

    def num(self, t):
        if known(t):
            return int(t)
        v = self.m.eval(zi(t), model_completion=True)
        if not z3.is_int_value(v):
            raise No("value of " + str(t)[:80])
        return v.as_long()

    def truth(self, g):
        if isinstance(g, bool):
            return g
        return z3.is_true(self.m.eval(g, model_completion=True))

    def value(self, p, v):
        """protocol value of a symbolic one"""
        if v.kind == "num":
            x = self.num(v.v)
            if v.t in p.enums:
                e = p.enums[v.t]
                return x if x in e.numbers else e.numbers[0]
            lo, hi = (0, 1) if v.t == "bool" else RANGES[v.t] if v.t in NUM else (0, (1 << 8 * SIZES[v.t]) - 1)
            return x if lo <= x <= hi else 0
        if v.kind == "str":
            n = min(max(self.num(v.n), 0), RANGES[p.sst][1])
            if n > 1 << 20:
                raise No("too long")
            return text(self.num(v.h), n, self.num(v.u))
        if v.kind == "list":
            n = min(max(self.num(v.n), 0), RANGES[p.lst][1])
            if n > 1 << 17:
                raise No("too long")
            return [self.value(p, v.fn(i)) for i in range(n)]
        return {k: self.value(p, x) for k, x in v.m.items()}

    def bytes(self, ts, out):
        for t in codec.normal(ts):
            if len(out) > 1 << 20:
                raise No("too long")
            if t[0] == "n":
                out += (self.num(t[2]) % (1 << (8 * t[1]))).to_bytes(t[1], "little")
            elif t[0] == "s":
                out += bytes([97 + self.num(t[1]) % 26]) * self.num(t[2])
            elif t[0] == "rep":
                _, K, j, alts = t
                k = self.num(K)
                if k > 1 << 16:
                    raise No("too long")
                for i in range(k):
                    for g, q in alts:
                        if len(alts) == 1 or self.truth(subst(g, j, i)):
                            self.bytes(subst(q, j, i), out)
                            break
                    else:
                        raise No("no alternative")
            else:
                raise No(t[0])
        return out


def lengths(ex, es):
    """terms that say how long something is"""
    out = {}
    for e in es:
        if not z3.is_expr(e):
            continue
        for a in ex.w.apps(e):
            n = a.decl().name()
            if n.endswith((".len", ".n")):
                out[a.get_id()] = a
    return list(out.values())


def models(ex, pc, cond, more):
    neg = [] if isinstance(cond, bool) else [z3.Not(cond)]
    ls = lengths(ex, list(pc) + neg + [m for m in more if z3.is_expr(m)]) + [zi(m) for m in more if not known(m)]
    seen = 0
    for cap in (4, 300, 70000):
        m = ex.w.model_of(list(pc), neg + [a <= cap for a in ls])
        if m is not None:
            yield Model(ex, m)
            seen += 1
            if seen == 2:
                return


def toks(p, n, v):
    return " ".join(ref.toks(p, n, v))


def holder(p, t):
    """messages that hold the type, with the way there"""
    for m, d in p.messages.items():
        st = [((), m)]
        seen = set()
        while st:
            path, x = st.pop()
            if x == t:
                return m, path
            if x in seen:
                continue
            seen.add(x)
            for n, mt, l in p.st(x).members:
                if mt in p.structs:
                    st.append((path + ((n, l),), mt))
    return None


def embed(p, t, v):
    """(message, value) that holds the value v of type t"""
    if t in p.messages:
        return t, v
    h = holder(p, t)
    if not h:
        raise No("nothing holds " + t)
    m, path = h
    val = ref.default(p, m)
    cur = val
    for i, (n, l) in enumerate(path):
        if i == len(path) - 1:
            cur[n] = [v] if l else v
        elif l:
            at = m
            for n2, _ in path[:i + 1]:
                at = next(mt for n3, mt, _ in p.st(at).members if n3 == n2)
            cur[n] = [ref.default(p, at)]
            cur = cur[n][0]
        else:
            cur = cur[n]
    return m, val


def embed_bytes(p, t, b):
    """encoding of a message that ends inside the given bytes of a value of type t"""
    if t in p.messages:
        return t, b
    mark = embed(p, t, {"$": 0})
    m, val = mark
    out = bytearray()

    class Stop(Exception):
        pass

    def go(t, v, l):
        nonlocal out
        if isinstance(v, dict) and "$" in v:
            out += b
            return
        if l:
            out += ref.num_bytes(p.lst, len(v))
            for x in v:
                go(t, x, False)
        elif p.kind(t) in ("struct", "message"):
            for n, mt, ml in p.st(t).members:
                go(mt, v[n], ml)
        else:
            out += ref.enc(p, t, v)
    go(m, val, False)
    return m, bytes(out)


def cases(job, o):
    """[(command, expected answer, what)] of a failed obligation"""
    meta = o.get("meta")
    if not meta:
        raise No("no input")
    p, ex, t = job.lang.proto, job.ex, job.t
    out = []
    if meta[0] in ("write", "size"):
        for m in models(ex, o["pc"], o["cond"], ()):
            n, v = embed(p, t, m.value(p, meta[1]))
            tag = meta[0] == "write" and meta[2]
            b = ref.enc_msg(p, n, v, tag)
            out.append((f"W {n} {int(tag)} 0 {toks(p, n, v)}", ("w", len(b) - int(tag), len(b), b.hex(), "size" if meta[0] == "size" else "bytes"), f"{meta[0]} {n}"))
            if meta[0] == "write":
                out.append((f"W {n} {int(tag)} 3 {toks(p, n, v)}", ("w", len(b) - int(tag), 3 + len(b), (b"\xaa" * 3 + b).hex(), "bytes"), f"write {n} at 3"))
    elif meta[0] == "read":
        _, ev, cur, end = meta
        for m in models(ex, o["pc"], o["cond"], [sub(end, cur)] + [x[1] for x in ev if x[0] == "rep"] + [x[2] for x in ev if x[0] == "s"]):
            b = bytes(m.bytes(ev, bytearray()))
            rest = max(m.num(sub(end, cur)), 0)
            n, b = embed_bytes(p, t, b)
            b += bytes(min(rest, 64))
            try:
                v, pos = ref.dec(p, n, b, 0)
            except ref.Bad:
                out.append((f"R {n} 0 s{b.hex()}", ("trunc" if "reported as" in o["label"] else "rej",), f"read {n}"))
            else:
                c = ref.enc(p, n, v)     # bool bytes as a writer writes them
                out.append((f"R {n} 0 s{(c + b[pos:]).hex()}", ("r", len(c), ref.toks(p, n, v)), f"read {n}"))
                pre = b"\x11\x22\x33"
                out.append((f"R {n} 3 s{(pre + c + b[pos:]).hex()}", ("r", len(c), ref.toks(p, n, v)), f"read {n} at 3"))
    else:
        raise No("no input")
    return out
