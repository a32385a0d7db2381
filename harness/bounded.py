"""Concrete inputs for each property: commands for the drivers and what the reference codec expects."""
import re
import random
from spec import codec
from spec.proto import RANGES, NUM, SIZES

F32 = [0, 0x80000000, 0x3f800000, 0x7f7fffff, 0x7f800000, 0xff800000, 1, 0x00800000, 0x40490fdb, 0x7fc00000, 0x12345678]
F64 = [0, 1 << 63, 0x3ff0000000000000, 0x7fefffffffffffff, 0x7ff0000000000000, 1, 0x400921fb54442d18, 0x7ff8000000000000, 0x0123456789abcdef]
STR = [b"", b"a", "\u00e9".encode(), "\u6f22\u5b57".encode(), "\U0001f600x".encode(), b"hello world", b"z" * 17, "\u20ac\u00df".encode() * 3, b"q\x00r", b"\xef\xbb\xbfbom", b"end\x00\x00", b"\x00", b"\x00s",
       b" blank \r\n\t", "e\u0301\ufffd\u2028".encode(), b"%s{0}\\n\"$'`", b"\x7f\x1f", "\U0010ffff\ud7ff\ue000".encode()]


class Gen:
    def __init__(self, p, seed):
        self.p, self.r = p, random.Random(seed)

    def num(self, t, mode):
        r = self.r
        if t == "bool":
            return {"min": 0, "max": 1}.get(mode, r.randrange(2))
        if t == "float":
            return {"min": 0x80000000, "max": 0x7f7fffff}.get(mode, r.choice(F32) if r.random() < .5 else (r.getrandbits(32) & 0xff7fffff))
        if t == "double":
            return {"min": 1 << 63, "max": 0x7fefffffffffffff}.get(mode, r.choice(F64) if r.random() < .5 else (r.getrandbits(64) & ~(1 << 62)))
        lo, hi = RANGES[t]
        if mode == "min":
            return lo
        if mode == "max":
            return hi
        x = r.random()
        if x < .25:
            return r.choice([lo, hi, lo + 1, hi - 1, 0, 1, min(hi, 127), min(hi, 128), min(hi, 255)])
        return r.randint(lo, hi) if x < .8 else r.randint(max(lo, -300), min(hi, 300))

    def val(self, t, mode="rnd", is_list=False, depth=0, n=None):
        p, r = self.p, self.r
        if is_list:
            if n is None:
                n = 0 if mode == "min" else (2 if mode == "max" else r.choice([0, 1, 2, 3] if depth < 2 else [0, 1, 2]))
            n = min(n, RANGES[p.lst][1])
            return [self.val(t, mode, depth=depth + 1) for _ in range(n)]
        k = p.kind(t)
        if k == "num":
            return self.num(t, mode)
        if k == "string":
            s = b"" if mode == "min" else (r.choice(STR[1:]) if mode == "max" else r.choice(STR))
            return s
        if k == "enum":
            v = p.enums[t].numbers
            return min(v) if mode == "min" else max(v) if mode == "max" else r.choice(v)
        return {m: self.val(mt, mode, l, depth + (1 if l else 0)) for m, mt, l in p.st(t).members}


def values(p, name, seed, n):
    g = Gen(p, f"{seed}/{name}")
    yield codec.default(p, name)
    yield g.val(name, "max")
    yield g.val(name, "min")
    for _ in range(n):
        yield g.val(name)


def big_values(p, name, seed):
    """long strings and lists: to the limit of 8-bit prefixes, beyond 8 bit and 15 bit for wider ones"""
    g = Gen(p, f"{seed}/{name}/big")
    lim = lambda t: [x for x in (127, 128, 255, 256, 300) if x <= RANGES[t][1]] + ([32767] if RANGES[t][1] >= 32767 else []) + ([65535] if RANGES[t][1] >= 65535 else []) + ([65536] if RANGES[t][1] > 65536 else [])
    for m, t, l in p.st(name).members:
        base = codec.default(p, name)
        k = p.kind(t)
        if k == "string" and not l:
            for x in lim(p.sst):
                yield {**base, m: b"x" * x}
            for x in lim(p.sst)[:4]:
                yield {**base, m: ("\u00e9" * (x // 2)).encode() + b"y" * (x % 2)}
        elif l and k in ("num", "enum", "string"):
            for x in lim(p.lst):
                if x > 400 and (k != "num" or SIZES[t] > 2):
                    continue
                yield {**base, m: g.val(t, "rnd", True, n=x)}
            if k == "string":
                for x in lim(p.sst)[:5]:
                    yield {**base, m: [b"w" * x, b""]}
        elif l and k == "struct":
            for x in lim(p.lst)[:3]:
                yield {**base, m: [g.val(t, "rnd", depth=1) for _ in range(x)]}
        elif k == "struct":
            for m2, t2, l2 in p.st(t).members:
                if p.kind(t2) == "string" and not l2:
                    for x in lim(p.sst)[:3]:
                        yield {**base, m: {**base[m], m2: b"x" * x}}
                if l2:
                    for x in lim(p.lst)[:3]:
                        yield {**base, m: {**base[m], m2: g.val(t2, "rnd", True, depth=1, n=x)}}


def enum_positions(p, t, v, is_list=False, path=()):
    """paths to every enum number in a value"""
    if is_list:
        for i, x in enumerate(v):
            yield from enum_positions(p, t, x, False, path + (i,))
        return
    k = p.kind(t)
    if k == "enum":
        yield path, t
    elif k == "struct":
        for m, mt, l in p.st(t).members:
            yield from enum_positions(p, mt, v[m], l, path + (m,))


def setpath(v, path, x):
    if not path:
        return x
    if isinstance(v, list):
        return [setpath(e, path[1:], x) if i == path[0] else e for i, e in enumerate(v)]
    return {k: (setpath(e, path[1:], x) if k == path[0] else e) for k, e in v.items()}


def bad_numbers(e):
    lo, hi = RANGES[e.encoding]
    c = {lo, hi, 0, -1, 1, 255, 256, 127, 128, 32767, -32768, lo + 1, hi - 1}
    for n in e.numbers[:40] + e.numbers[-3:]:
        c |= {n - 1, n + 1, n + 256, n - 256, n & 0xff, n & 0xffff}
    return sorted(x for x in c if lo <= x <= hi and x not in e.numbers)


class Case:
    __slots__ = ("cmd", "want", "what")

    def __init__(self, cmd, want, what):
        self.cmd, self.want, self.what = cmd, want, what


def T(p, n, v):
    return " ".join(codec.toks(p, n, v))


def hx(b):
    return "s" + b.hex()


def ok(s):
    return ("eq", s)


ERR = ("err",)


def w_case(p, n, v, tag, off, part="all"):
    b = codec.enc_msg(p, n, v, tag)
    body = len(b) - (1 if tag else 0)
    return Case(f"W {n} {int(tag)} {off} {T(p, n, v)}", ("w", body, off + len(b), (b"\xaa" * off + b).hex(), part), f"write {n} tag={int(tag)} at {off}")


def r_case(p, n, v, pre=b"", post=b""):
    b = codec.enc(p, n, v)
    return Case(f"R {n} {len(pre)} {hx(pre + b + post)}", ("r", len(b), codec.toks(p, n, v)), f"read {n} at {len(pre)}, {len(post)} bytes follow")


def msg_list(p, seed, k):
    g = Gen(p, seed)
    names = list(p.messages)
    out = []
    for _ in range(k):
        n = g.r.choice(names)
        out.append((n, g.val(n)))
    return out


def list_want(p, pos, ms):
    t = []
    for n, v in ms:
        t += [n] + codec.toks(p, n, v)
    return ("l", pos, len(ms), t)


PROPS = {}


def prop(f):
    PROPS[f.__name__] = f
    return f


@prop
def C01(p, seed, deep):
    for n in p.messages:
        for i, v in enumerate(values(p, n, seed, 12 if deep else 4)):
            yield w_case(p, n, v, i % 2 == 1, 0, "bytes")
            if i == 1:
                yield w_case(p, n, v, False, 0, "bytes")


@prop
def C02(p, seed, deep):
    for n in p.messages:
        for i, v in enumerate(values(p, n, seed, 12 if deep else 4)):
            yield r_case(p, n, v, b"", b"" if i % 2 else b"\x07\xff\x00\x81")


@prop
def C03(p, seed, deep):
    for n in p.messages:
        for i, v in enumerate(values(p, n, seed, 16 if deep else 6)):
            yield w_case(p, n, v, False, 0, "size")


@prop
def C04(p, seed, deep):
    for n in p.messages:
        vs = list(values(p, n, seed, 4 if deep else 1))
        for v in vs[1:]:
            b = codec.enc(p, n, v)
            cuts = range(len(b)) if len(b) < (400 if deep else 120) else sorted(set(list(range(60)) + random.Random(f"{seed}{n}").sample(range(len(b)), 60) + [len(b) - 1]))
            for c in cuts:
                yield Case(f"R {n} 0 {hx(b[:c])}", ("trunc",), f"read {n} from the first {c} of {len(b)} bytes")
        yield from bad_lengths(p, n, seed, 12 if deep else 5)


def bad_lengths(p, n, seed, most):
    """encodings in which one length or count claims more than is there, or is negative"""
    g = Gen(p, f"{seed}/{n}/hl")
    v = g.val(n, "max")
    b = codec.enc(p, n, v)
    ls, _ = codec.lengths(p, n, v)
    if len(ls) > most:
        ls = ls[:1] + g.r.sample(ls[1:], most - 1)
    for at, t, x in ls:
        lo, hi = RANGES[t]
        for y in sorted({lo if lo < 0 else hi, -1 if lo < 0 else hi // 2 + 1, hi, hi // 2, min(hi, len(b) * 4 + 9)}):
            bb = b[:at] + codec.num_bytes(t, y) + b[at + SIZES[t]:]
            try:
                codec.dec(p, n, bb, 0)
            except codec.Bad:
                yield Case(f"R {n} 0 {hx(bb)}", ("trunc",), f"read {n} with the length at {at} set to {y}")


@prop
def C05(p, seed, deep):
    for n in p.messages:
        g = Gen(p, f"{seed}/{n}/e")
        v = g.val(n, "max")
        pos = list(enum_positions(p, n, v))
        for path, t in pos[: 60 if deep else 24]:
            e = p.enums[t]
            bad = bad_numbers(e)
            if not deep and len(bad) > 8:
                bad = sorted(set(g.r.sample(bad, 6) + [bad[0], bad[-1]] + [x for x in bad if min(e.numbers) < x < max(e.numbers)][:2] + [max(e.numbers) + 1] * (max(e.numbers) + 1 in bad)))
            for x in bad:
                yield Case(f"R {n} 0 {hx(codec.enc(p, n, setpath(v, path, x)))}", ("rej",), f"read {n} with {x} as {t} at {'.'.join(map(str, path))}")
            good = e.numbers if len(e.numbers) <= 12 else e.numbers[:3] + e.numbers[-3:]
            for x in good:
                yield r_case(p, n, setpath(v, path, x))


@prop
def C06(p, seed, deep):
    if not p.messages:
        return
    nm = len(p.messages)
    for k in range(6 if deep else 3):
        ms = msg_list(p, f"{seed}/s{k}", k + 1)
        s = b"".join(codec.enc_msg(p, n, v, True) for n, v in ms)
        ends = [len(b"".join(codec.enc_msg(p, n, v, True) for n, v in ms[:i])) for i in range(len(ms) + 1)]
        for mx in [-1, 0, 1, len(ms) - 1, len(ms), len(ms) + 1, -5]:
            m = len(ms) if mx < 0 else min(mx, len(ms))
            yield Case(f"S 0 {mx} {hx(s)}", list_want(p, ends[m], ms[:m]), f"stream of {len(ms)}, max {mx}")
        yield Case(f"S 0 -1 {hx(s + bytes([0]) + s)}", list_want(p, len(s) + 1, ms), "stream, zero tag, more messages")
        yield Case(f"S 2 -1 {hx(b'ZZ' + s)}", list_want(p, len(s) + 2, ms), "stream starting at 2")
        for bad in {nm + 1, 255, 254, 128} - set(range(1, nm + 1)):
            if bad > 255:
                continue
            yield Case(f"S 0 -1 {hx(s + bytes([bad]))}", ("rej",), f"stream ending in unknown tag {bad}")
            yield Case(f"S 0 -1 {hx(bytes([bad]) + s)}", ("rej",), f"stream starting with unknown tag {bad}")
            yield Case(f"S 0 {len(ms)} {hx(s + bytes([bad]))}", list_want(p, len(s), ms), f"unknown tag {bad} after the maximum")
        last = len(codec.enc(p, *ms[-1]))
        if last:
            yield Case(f"S 0 -1 {hx(s[:-1])}", ("rej",), "stream with truncated last message")
    yield Case("S 0 -1 s", list_want(p, 0, []), "empty stream")
    yield Case("S 0 -1 s00", list_want(p, 1, []), "only a zero tag")
    for i, n in enumerate(p.messages):
        v = Gen(p, f"{seed}/{n}/one").val(n)
        b = codec.enc_msg(p, n, v, True)
        yield Case(f"S 0 -1 {hx(b)}", list_want(p, len(b), [(n, v)]), f"stream of one {n}")


@prop
def C07(p, seed, deep):
    if not p.messages:
        return
    for k in range(8 if deep else 5):
        ms = msg_list(p, f"{seed}/p{k}", k * (k + 1) // 2)
        b = codec.pack(p, ms)
        yield Case(f"P 0 {len(ms)} " + " ".join(n + " " + T(p, n, v) for n, v in ms), ("w", len(b), len(b), b.hex(), "all"), f"pack {len(ms)} messages")
        want = list_want(p, len(b) - 1 if ms else None, ms)
        yield Case(f"U 0 {hx(b)}", ("l", None, want[2], want[3]), f"unpack {len(ms)} messages")


@prop
def C08(p, seed, deep):
    if not p.messages:
        return
    ms = msg_list(p, f"{seed}/q", 3)
    b = codec.pack(p, ms)
    for c in range(len(b) - 1) if len(b) < 300 or deep else list(range(60)) + random.Random(f"{seed}c8").sample(range(60, len(b) - 1), 40):
        yield Case(f"U 0 {hx(b[:c])}", ("rej",), f"unpack the first {c} of {len(b)} bytes")
    for i in range(4):
        for x in (0, 0x20, 1):
            bb = bytearray(b)
            bb[i] ^= x or 0xff
            yield Case(f"U 0 {hx(bytes(bb))}", ("rej",), f"marker byte {i} changed")
    for cnt in (4, 5, 259, 0x10000003, 0x80000003, 0xffffffff, 0x7fffffff, 0x80000000):
        yield Case(f"U 0 {hx(b[:4] + cnt.to_bytes(4, 'little') + b[8:])}", ("rej",), f"count {cnt} but 3 messages")
    yield Case(f"U 0 {hx(b'BSCI' + (1).to_bytes(4, 'little') + bytes([0]))}", ("rej",), "count 1, no messages")
    yield Case(f"U 0 {hx(b'BSCI' + (2).to_bytes(4, 'little') + b[8:8 + len(codec.enc_msg(p, *ms[0], True))] + bytes([0]) + b[8:])}", ("rej",), "zero tag before the count is reached")
    tail = len(p.messages) + 1
    if tail < 256:
        yield Case(f"U 0 {hx(b[:-1][:4] + (4).to_bytes(4, 'little') + b[8:-1] + bytes([tail]))}", ("rej",), "unknown tag inside the count")
    for k in (0, 1, 2):
        m2 = msg_list(p, f"{seed}/g{k}", k)
        yield Case(f"U 0 {hx(codec.pack(p, m2))}", ("l", None, k, list_want(p, 0, m2)[3]), f"well-formed container of {k}")
    yield Case(f"U 0 {hx(b'BSCI' + bytes(4))}", ("l", None, 0, []), "count 0, no terminator")


@prop
def C09(p, seed, deep):
    for i, n in enumerate(p.messages):
        v = codec.default(p, n)
        yield Case(f"D {n}", ("d", i + 1, codec.toks(p, n, v), codec.enc(p, n, v)), f"fresh {n}")


@prop
def C10(p, seed, deep):
    for i, n in enumerate(p.messages):
        v = Gen(p, f"{seed}/{n}/id").val(n)
        yield w_case(p, n, v, True, 0, "tag")
        yield Case(f"D {n}", ("did", i + 1), f"type of {n}")
        b = codec.enc_msg(p, n, v, True)
        yield Case(f"S 0 -1 {hx(b)}", list_want(p, len(b), [(n, v)]), f"dispatch of {n}")


@prop
def C18(p, seed, deep):
    r = random.Random(f"{seed}/c18")
    for n in p.messages:
        for i, v in enumerate(values(p, n, seed, 6 if deep else 3)):
            off = r.choice([1, 2, 3, 5, 8, 13])
            yield w_case(p, n, v, i % 2 == 0, off)
            yield r_case(p, n, v, bytes(r.randrange(256) for _ in range(off)), bytes(r.randrange(256) for _ in range(r.choice([0, 1, 7]))))
    if p.messages:
        ms = msg_list(p, f"{seed}/o", 3)
        b = codec.pack(p, ms)
        yield Case(f"P 5 {len(ms)} " + " ".join(n + " " + T(p, n, v) for n, v in ms), ("w", len(b), 5 + len(b), (b"\xaa" * 5 + b).hex(), "all"), "pack at 5")
        yield Case(f"U 6 {hx(b'BSCIxx' + b)}", ("l", None, 3, list_want(p, 0, ms)[3]), "unpack at 6")
        s = b"".join(codec.enc_msg(p, n, v, True) for n, v in ms)
        yield Case(f"S 3 -1 {hx(bytes([255, 0, 1]) + s)}", list_want(p, 3 + len(s), ms), "stream at 3")


@prop
def C19(p, seed, deep):
    total = 0
    for n in p.messages:
        for v in big_values(p, n, seed):
            b = codec.enc(p, n, v)
            if len(b) > 300000 or (not deep and len(b) > 70000):
                continue
            if len(b) > 3000:
                total += len(b)
                if not deep and total > 300000:
                    continue
            yield w_case(p, n, v, False, 0)
            yield r_case(p, n, v)
        for i, v in enumerate(values(p, n, seed + 7, 2)):
            yield w_case(p, n, v, False, 0)
            yield r_case(p, n, v)


@prop
def C14(p, seed, deep):
    yield Case("E", ("nums", [str(n) for e in p.enums.values() for n in e.numbers]), "enum constants")


@prop
def C11(p, seed, deep):
    """C only: everything above, watched by ASan/UBSan and the tracking allocator"""
    for n in p.messages:
        vs = list(values(p, n, seed, 3 if deep else 1))
        for v in vs:
            yield w_case(p, n, v, True, 0)
            yield r_case(p, n, v)
            b = codec.enc(p, n, v)
            for c in range(0, min(len(b), 200), 1 if deep else 3):
                yield Case(f"R {n} 0 {hx(b[:c])}", ("mem",), f"read and destroy {n} from {c} of {len(b)} bytes")
                yield Case(f"X {c} {n} {T(p, n, v)}", ("mem",), f"write {n} into {c} of {len(b)} bytes")
            for k in range(0, 12 if deep else 6):
                yield Case(f"F {k} R {n} 0 {hx(b)}", ("mem",), f"read {n}, allocation {k} fails")
        g = Gen(p, f"{seed}/{n}/m")
        v = g.val(n, "max")
        for path, t in list(enum_positions(p, n, v))[:6]:
            for x in bad_numbers(p.enums[t])[:2]:
                yield Case(f"R {n} 0 {hx(codec.enc(p, n, setpath(v, path, x)))}", ("mem",), f"read and destroy {n} with bad enum")
        yield Case(f"D {n}", ("mem",), f"create and destroy {n}")
        b = codec.enc(p, n, v)
        for k in range(40 if deep else 10):
            bb = bytearray(b)
            for _ in range(g.r.choice([1, 2, 3])):
                if bb:
                    bb[g.r.randrange(len(bb))] = g.r.choice([0, 1, 127, 128, 255, g.r.randrange(256)])
            yield Case(f"R {n} 0 {hx(bytes(bb))}", ("mem",), f"read and destroy {n} from damaged bytes")
            yield Case(f"S 0 -1 {hx(bytes([p.msg_ids[n]]) + bytes(bb))}", ("mem",), "stream of damaged bytes")
    if not p.messages:
        return
    ms = msg_list(p, f"{seed}/mm", 12)
    b = codec.pack(p, ms)
    for c in range(0, len(b), 1 if deep else 4):
        yield Case(f"U 0 {hx(b[:c])}", ("mem",), f"unpack {c} bytes of a container")
        yield Case(f"S 0 -1 {hx(b[8:8 + c])}", ("mem",), f"stream of {c} bytes")
    for k in range(10):
        yield Case(f"F {k} U 0 {hx(b)}", ("mem",), f"unpack, allocation {k} fails")
        yield Case(f"F {k} S 0 -1 {hx(b[8:])}", ("mem",), f"stream, allocation {k} fails")
    for c in range(9):
        yield Case(f"U 0 {hx(b'BSCIxyzxyz'[:c])}", ("mem",), f"unpack {c} bytes")
    for cnt in (0, 1, 255, 0x7fffffff, 0x80000000, 0xffffffff):
        yield Case(f"U 0 {hx(b[:4] + cnt.to_bytes(4, 'little') + b[8:])}", ("mem",), f"unpack with count {cnt}")
    yield Case(f"P 0 {len(ms)} " + " ".join(n + " " + T(p, n, v) for n, v in ms), ("mem",), "pack")
    yield Case("P 0 0", ("mem",), "pack nothing")


def adapt(lang, p, c):
    """the case as the language's documented behaviour has it: AssemblyScript has no recoverable errors, so processing ends with the messages so far
    and an undeclared enum number reads as some undeclared number"""
    if lang != "assemblyscript" or c.want[0] not in ("rej", "trunc"):
        return c
    f = c.cmd.split()
    if f[0] == "R":
        buf, pos = bytes.fromhex(f[3][1:]), int(f[2])
        try:
            v, end = codec.dec(p, f[1], buf, pos, lax=True)
        except codec.Bad:
            return c
        return Case(c.cmd, ("r", end - pos, codec.toks(p, f[1], v)), c.what)
    if f[0] == "S":
        out = codec.stream_prefix(p, bytes.fromhex(f[3][1:]), int(f[1]), int(f[2]))
        return Case(c.cmd, list_want(p, None, out), c.what)
    return c


def alike(got, want):
    return got == want or len(got) == len(want) and all(g == w or w[:1] == "!" and re.fullmatch("-?[0-9]+", g) and g not in w[1:].split(",") for g, w in zip(got, want))


def judge(lang, want, got):
    """None if the answer is right, else what is wrong"""
    if got.startswith("UNKNOWN"):       # the interpreter has no meaning for it
        return None
    died = got.startswith(("CRASH", "PANIC")) or " PANIC" in got
    f = got.split()
    kind = want[0]
    if kind == "mem":
        if died:
            return got
        for w in ("BADFREE", "LEAK"):
            if w in f:
                return got[-200:]
        return None
    if died:
        return got
    f = [x for x in f]
    for w in ("BADFREE", "LEAK"):    # memory discipline is C11's business
        if w in f:
            f = f[:f.index(w)]
    if kind in ("rej", "trunc"):
        if f[:1] == ["ERR"]:
            if lang == "csharp" and kind == "trunc" and f[1] != "DataReadErrorException":
                return "wrong exception: " + got[:200]
            return None
        return "accepted: " + got[:300]
    if f[:1] != ["OK"]:
        return got[:300]
    if kind == "w":
        _, size, end, data, part = want
        if len(f) < 4:
            return got[:300]
        gsize, gend, gdata = f[1], f[2], f[3][1:]
        if part in ("size", "all") and gsize != str(size):
            return f"size {gsize}, expected {size}"
        if part in ("bytes", "all"):
            # the size claim may be wrong (then the buffer has another length): compare what was written
            if gdata[:len(data)] != data or (part == "all" and gdata != data):
                return f"bytes {gdata[:400]}, expected {data[:400]}"
            if gend != str(end):
                return f"ends at {gend}, expected {end}"
        if part == "tag" and gdata[:2] != data[:2]:
            return f"tag {gdata[:2]}, expected {data[:2]}"
        return None
    if kind == "nums":
        return None if f[1:] == want[1] else f"constants {' '.join(f[1:])[:300]}, expected {' '.join(want[1])[:300]}"
    if kind == "r":
        if f[1] != str(want[1]):
            return f"consumed {f[1]}, expected {want[1]}"
        if not alike(f[2:], want[2]):
            return f"value {' '.join(f[2:])[:300]}, expected {' '.join(want[2])[:300]}"
        return None
    if kind == "l":
        if want[1] is not None and f[1] not in (str(want[1]), "?"):
            return f"position {f[1]}, expected {want[1]}"
        if f[2] != str(want[2]):
            return f"{f[2]} messages, expected {want[2]}"
        if not alike(f[3:], want[3]):
            return f"messages {' '.join(f[3:])[:300]}, expected {' '.join(want[3])[:300]}"
        return None
    if kind in ("d", "did"):
        if f[1] != str(want[1]):
            return f"type {f[1]}, expected {want[1]}"
        if kind == "did":
            return None
        secs = " ".join(f[2:]).split("|")
        secs = [s.split() for s in secs]
        for s in secs[:-1]:
            if s != want[2]:
                return f"default value {' '.join(s)[:300]}, expected {' '.join(want[2])[:300]}"
        if secs[-1] != [str(len(want[3])), "s" + want[3].hex()]:
            return f"default size and bytes {' '.join(secs[-1])[:300]}, expected {len(want[3])} {want[3].hex()[:300]}"
        return None
    raise AssertionError(kind)


def run_cases(unit, cases):
    """[(case, problem)] for one prepared unit"""
    cases = [adapt(unit.lang, unit.p, c) for c in cases]
    out = []
    for k in range(0, len(cases), 50):
        part = cases[k:k + 50]
        for c, g in zip(part, unit.drv.batch([c.cmd for c in part])):
            pr = judge(unit.lang, c.want, g)
            if pr:
                out.append((c, pr))
        if out:             # enough to report; a crashing program is slow to restart
            return out, k + len(part)
    return out, len(cases)
