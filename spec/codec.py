"""Reference codec: the documented byte layout, as executable specification.

Values: int (numbers, enums, bool as 0/1, float/double as their IEEE bits), bytes (string, UTF-8),
list, dict (member name -> value, in declaration order)."""
from .proto import SIZES, NUM, RANGES


class Bad(Exception):
    pass


class Short(Bad):
    pass


class BadEnum(Bad):
    pass


class BadTag(Bad):
    pass


class BadUtf8(Bad):
    pass


def num_bytes(t, v):
    if t in NUM:
        n, s = NUM[t]
        return int(v).to_bytes(n, "little", signed=s)
    return int(v).to_bytes(SIZES[t], "little")


def enc(p, t, v, is_list=False):
    if is_list:
        return num_bytes(p.lst, len(v)) + b"".join(enc(p, t, x) for x in v)
    k = p.kind(t)
    if k == "num":
        return num_bytes(t, v)
    if k == "string":
        return num_bytes(p.sst, len(v)) + v
    if k == "enum":
        return num_bytes(p.enums[t].encoding, v)
    return b"".join(enc(p, mt, v[n], l) for n, mt, l in p.st(t).members)


def enc_msg(p, name, v, tag):
    return (bytes([p.msg_ids[name]]) if tag else b"") + enc(p, name, v)


def dec_num(t, buf, pos):
    n = SIZES[t]
    if pos + n > len(buf):
        raise Short()
    b = buf[pos:pos + n]
    if t == "bool":
        return (1 if b[0] else 0), pos + 1
    return int.from_bytes(b, "little", signed=NUM.get(t, (0, False))[1]), pos + n


def dec(p, t, buf, pos, is_list=False, lax=False):
    """lax: an undeclared enum number is read as some undeclared number, written "!" and the declared ones"""
    if is_list:
        n, pos = dec_num(p.lst, buf, pos)
        if n < 0:
            raise Bad("negative count")
        if n > len(buf) - pos and p.fixed_size(t) != 0:
            raise Short()
        out = []
        for _ in range(n):
            x, pos = dec(p, t, buf, pos, lax=lax)
            out.append(x)
        return out, pos
    k = p.kind(t)
    if k == "num":
        return dec_num(t, buf, pos)
    if k == "string":
        n, pos = dec_num(p.sst, buf, pos)
        if n < 0:
            raise Bad("negative length")
        if pos + n > len(buf):
            raise Short()
        return bytes(buf[pos:pos + n]), pos + n
    if k == "enum":
        v, pos = dec_num(p.enums[t].encoding, buf, pos)
        if v not in p.enums[t].numbers:
            if lax:
                return "!" + ",".join(map(str, p.enums[t].numbers)), pos
            raise BadEnum()
        return v, pos
    out = {}
    for n, mt, l in p.st(t).members:
        out[n], pos = dec(p, mt, buf, pos, l, lax)
    return out, pos


def default(p, t, is_list=False):
    if is_list:
        return []
    k = p.kind(t)
    if k == "num":
        return 0
    if k == "string":
        return b""
    if k == "enum":
        return p.enums[t].default
    return {n: default(p, mt, l) for n, mt, l in p.st(t).members}


def stream(p, buf, pos, mx):
    """ProcessRawBytes: list of (name, value); raises Bad on failure. mx < 0: no maximum."""
    out = []
    names = list(p.messages)
    while pos < len(buf) and (mx < 0 or len(out) < mx):
        tag = buf[pos]
        pos += 1
        if tag == 0:
            break
        if tag > len(names):
            raise BadTag()
        v, pos = dec(p, names[tag - 1], buf, pos)
        out.append((names[tag - 1], v))
    return out, pos


def stream_prefix(p, buf, pos, mx):
    """the messages before the first failure, undeclared enum numbers tolerated"""
    out = []
    names = list(p.messages)
    try:
        while pos < len(buf) and (mx < 0 or len(out) < mx):
            tag = buf[pos]
            pos += 1
            if not 1 <= tag <= len(names):
                break
            v, pos = dec(p, names[tag - 1], buf, pos, lax=True)
            out.append((names[tag - 1], v))
    except Bad:
        pass
    return out


def pack(p, msgs):
    return b"BSCI" + len(msgs).to_bytes(4, "little") + b"".join(enc_msg(p, n, v, True) for n, v in msgs) + b"\0"


def unpack(p, buf, pos=0):
    if buf[pos:pos + 4] != b"BSCI":
        raise Bad("marker")
    n, q = dec_num("uint32", buf, pos + 4)
    if n == 0:
        return [], q
    out, q = stream(p, buf, q, n)
    if len(out) != n:
        raise Bad("count")
    return out, q


# ---- flat tokens, the drivers' value format
def toks(p, t, v, is_list=False):
    if is_list:
        r = [str(len(v))]
        for x in v:
            r += toks(p, t, x)
        return r
    k = p.kind(t)
    if k in ("num", "enum"):
        return [str(v)]
    if k == "string":
        return ["s" + v.hex()]
    r = []
    for n, mt, l in p.st(t).members:
        r += toks(p, mt, v[n], l)
    return r


def untoks(p, t, it, is_list=False):
    if is_list:
        return [untoks(p, t, it) for _ in range(int(next(it)))]
    k = p.kind(t)
    if k in ("num", "enum"):
        return int(next(it))
    if k == "string":
        x = next(it)
        assert x[0] == "s"
        return bytes.fromhex(x[1:])
    return {n: untoks(p, mt, it, l) for n, mt, l in p.st(t).members}


def lengths(p, t, v, is_list=False, at=0):
    """(offset, protocol type, value) of every length and count in the encoding of v, and the offset after it"""
    out = []
    if is_list:
        out.append((at, p.lst, len(v)))
        at += SIZES[p.lst]
        for x in v:
            r, at = lengths(p, t, x, False, at)
            out += r
        return out, at
    k = p.kind(t)
    if k == "string":
        return [(at, p.sst, len(v))], at + SIZES[p.sst] + len(v)
    if k == "struct" or k == "message":
        for n, mt, l in p.st(t).members:
            r, at = lengths(p, mt, v[n], l, at)
            out += r
        return out, at
    return out, at + len(enc(p, t, v))
