"""Independent statement of which documents are protocols (docs/protocols.md), and what they mean."""
from .proto import SIZES, RANGES, EnumT

WS = " \t\n\r\x0b\x0c"
BASE = list(SIZES) + ["string"]
RESERVED = set(BASE) | {"list"}
INTS = set(RANGES)


class No(Exception):
    """the document breaks a rule"""


def name_ok(n, member=False):
    if not isinstance(n, str):
        raise No("name is not a string")
    if n == "":
        raise No("empty name")
    if any(c in n for c in WS):
        raise No("whitespace in name")
    if (n if member else n.lower()) in RESERVED:
        raise No("reserved name")


def check(doc):
    """the meaning of a document, or No. Documents have the right TOML shapes at the top level
    (meta a table; structs, messages, enums arrays of tables)."""
    meta = doc.get("meta", {})
    ns = meta.get("namespace")
    if ns is not None:
        if not isinstance(ns, str):
            raise No("namespace")
        if any(c in ns for c in WS):
            raise No("whitespace in namespace")
    for k in ("list_size_type", "string_size_type"):
        if k in meta and not (isinstance(meta[k], str) and meta[k] in INTS):
            raise No("size type")
    names = set()
    for key in ("structs", "messages", "enums"):
        for d in doc.get(key, []):
            if "_name" not in d:
                raise No("missing _name")
            name_ok(d["_name"])
            if d["_name"] in names:
                raise No("duplicate name")
            names.add(d["_name"])
    sm = {d["_name"] for k in ("structs", "messages") for d in doc.get(k, [])}
    enums = {}
    for d in doc.get("enums", []):
        vs = d.get("_values")
        if not isinstance(vs, list) or not vs:
            raise No("_values")
        if all(isinstance(v, str) for v in vs):
            pairs = [(v, i) for i, v in enumerate(vs)]
        elif all(isinstance(v, dict) for v in vs):
            for v in vs:
                if not isinstance(v.get("_name"), str) or type(v.get("_value")) is not int:
                    raise No("enum entry")
            pairs = [(v["_name"], v["_value"]) for v in vs]
        else:
            raise No("mixed enum values")
        if len({n for n, _ in pairs}) != len(pairs) or len({x for _, x in pairs}) != len(pairs):
            raise No("duplicate enum entry")
        for n, _ in pairs:
            if n == "" or any(c in n for c in WS):
                raise No("enum value name")
            if n in sm:
                raise No("enum value shadows")
        e = EnumT(d["_name"], pairs)
        if e.encoding is None:
            raise No("enum range")
        enums[d["_name"]] = e
    structs = {d["_name"] for d in doc.get("structs", [])}
    types = structs | set(enums) | set(BASE)
    out = {"structs": [], "messages": []}
    for key in ("structs", "messages"):
        for d in doc.get(key, []):
            ms = []
            for k, t in d.items():
                if k.startswith("_"):
                    continue
                name_ok(k, True)
                if not isinstance(t, str):
                    raise No("type is not a string")
                lst = len(t) > 2 and t[0] == "[" and t[-1] == "]"
                if lst:
                    t = t[1:-1]
                if t not in types:
                    raise No("unknown type")
                ms.append([k, t, lst])
            out[key].append([d["_name"], ms])
        if any(k == "" for d in doc.get(key, []) for k in d):
            raise No("empty member name")
    if len(out["messages"]) > 255:
        raise No("too many messages")
    if cyclic(out["structs"]):
        raise No("cycle")
    return {"namespace": ns, "list": meta.get("list_size_type", "uint32"), "string": meta.get("string_size_type", "uint32"),
            "structs": out["structs"], "messages": out["messages"],
            "enums": [[e.name, [list(v) for v in e.values], e.encoding, list(e.values[0])] for e in enums.values()]}


def cyclic(structs):
    names = {n for n, _ in structs}
    g = {n: {t for _, t, _ in ms if t in names} for n, ms in structs}
    done, todo = set(), set(g)
    while True:     # remove structs all of whose parts are removed; what is left is cyclic
        r = {n for n in todo if g[n] <= done}
        if not r:
            return bool(todo)
        done |= r
        todo -= r


# ---- minimal TOML writer
def tstr(s):
    o = '"'
    for c in s:
        if c in '"\\':
            o += "\\" + c
        elif ord(c) < 32 or ord(c) == 127:
            o += "\\u%04x" % ord(c)
        else:
            o += c
    return o + '"'


def tval(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, str):
        return tstr(v)
    if isinstance(v, (int, float)):
        return repr(v)
    if isinstance(v, list):
        return "[" + ", ".join(tval(x) for x in v) + "]"
    return "{" + ", ".join(f"{tstr(k)} = {tval(x)}" for k, x in v.items()) + "}"


def dump(doc):
    o = ""
    for k, v in doc.items():
        if isinstance(v, dict):
            o += f"[{k}]\n" + "".join(f"{tstr(a)} = {tval(b)}\n" for a, b in v.items()) + "\n"
    for k, v in doc.items():
        if isinstance(v, list):
            if not v:
                o = f"{k} = []\n" + o
            for d in v:
                o += f"[[{k}]]\n" + "".join(f"{tstr(a)} = {tval(b)}\n" for a, b in d.items()) + "\n"
    return o
