"""Concrete inputs for the properties of the Python side (C12..C17) and what the independent rules say about them."""
import os, threading, random, json, itertools, subprocess, tempfile, shutil, re, copy, sys
from concurrent.futures import ThreadPoolExecutor
from .common import PY, REPO, VERIF, BUILD, env, generate
from .protogen import G
from spec import rules, proto
from spec.proto import RANGES

NAMES = ["Alpha", "Beta", "gamma", "Delta_1", "E", "x", "Über", "Zeta", "Long" * 10, "list_", "bytes", "Strings", "Int", "boolean"]
MEMBERS = ["a", "b", "c1", "Name", "lists", "stringy", "is_ok", "x_len", "value", "t", "u", "type", "Byte", "LIST", "é"]
VALS = ["One", "Two", "three", "X1", "y_2", "Z", "byte", "list", "W", "Q"]
BADNAME = ["", " ", "a b", "tab\there", "nl\n", "\x0bv", "cr\r", "ff\x0c", " lead", "trail "]


class Worker:
    def __init__(self):
        self.p = None

    def ask(self, jobs):
        data = "".join(json.dumps(j) + "\n" for j in jobs)
        r = subprocess.run([PY, os.path.join(VERIF, "harness", "pyworker.py"), REPO], input=data, capture_output=True, text=True, env=env(), cwd="/tmp", timeout=600)
        out = [json.loads(x) for x in r.stdout.splitlines()]
        if len(out) != len(jobs):
            raise RuntimeError(f"worker died after {len(out)} of {len(jobs)} questions: {r.stderr[-1500:]}")
        return out


def ask(jobs, n=8):
    if not jobs:
        return []
    k = max(1, (len(jobs) + n - 1) // n)
    parts = [jobs[i:i + k] for i in range(0, len(jobs), k)]
    with ThreadPoolExecutor(n) as ex:
        return [x for p in ex.map(lambda p: Worker().ask(p), parts) for x in p]


# ---------------------------------------------------------------- documents
def rnd_doc(r):
    names = r.sample(NAMES, len(NAMES))
    ns, nm, ne = r.choice([0, 1, 2, 3, 4]), r.choice([0, 1, 2, 3]), r.choice([0, 1, 2])
    S, M, E = names[:ns], names[ns:ns + nm], names[ns + nm:ns + nm + ne]
    doc = {}
    if r.random() < .6:
        doc["meta"] = {}
        if r.random() < .6:
            doc["meta"]["namespace"] = r.choice(["App", "a.b", "x_y", "N", "Ünï"])
        for k in ("list_size_type", "string_size_type"):
            if r.random() < .5:
                doc["meta"][k] = r.choice(list(RANGES))

    def typ(i):
        t = r.choice(rules.BASE + S[:i] + E + E + S[:i])
        return f"[{t}]" if r.random() < .3 else t
    order = list(range(ns))
    doc["structs"] = [{"_name": n, **{m: typ(i) for m in r.sample(MEMBERS, r.choice([0, 1, 2, 3, 5]))}} for i, n in enumerate(S)]
    r.shuffle(doc["structs"])
    doc["messages"] = [{"_name": n, **{m: typ(ns) for m in r.sample(MEMBERS, r.choice([0, 1, 2, 4, 6]))}} for n in M]
    if r.random() < .2:
        for d in doc["structs"] + doc["messages"]:
            d["_comment"] = "ignored"
    doc["enums"] = []
    for n in E:
        v = r.sample(VALS, r.choice([1, 2, 3, 5]))
        if r.random() < .5:
            doc["enums"].append({"_name": n, "_values": v})
        else:
            rg = r.choice([(0, 255), (-5, 300), (-32768, 32767), (-2**31, 2**31 - 1)])
            nums = r.sample([rg[0], rg[1], rg[0] + 1, rg[1] - 1] + list(range(1, 60)), len(v))
            doc["enums"].append({"_name": n, "_values": [{"_name": a, "_value": b} for a, b in zip(v, nums)]})
    for k in ("structs", "messages", "enums"):
        if not doc[k] and r.random() < .7:
            del doc[k]
    return doc


def pick(r, doc, keys=("structs", "messages", "enums")):
    c = [d for k in keys for d in doc.get(k, [])]
    return r.choice(c) if c else None


def put(d, k, v, r):
    """insert a member at a random place"""
    it = list(d.items())
    it = [x for x in it if x[0] != k]
    it.insert(r.randint(1, len(it)), (k, v))
    d.clear()
    d.update(it)


MUT = []


def mut(f):
    MUT.append(f)
    return f


@mut
def m_badname(r, d):
    x = pick(r, d)
    if x: x["_name"] = r.choice(BADNAME + ["byte", "list", "string", "double", "Int32", "STRING", "List", "uint64"])


@mut
def m_dropname(r, d):
    x = pick(r, d)
    if x: del x["_name"]


@mut
def m_dupname(r, d):
    x, y = pick(r, d), pick(r, d)
    if x and y and x is not y and "_name" in y: x["_name"] = y["_name"]


@mut
def m_badmember(r, d):
    x = pick(r, d, ("structs", "messages"))
    if x: put(x, r.choice(BADNAME + ["byte", "list", "string", "float", "uint16", "int8x", "Bool"]), r.choice(["byte", "[string]"]), r)


@mut
def m_badtype(r, d):
    x = pick(r, d, ("structs", "messages"))
    if x: put(x, r.choice(MEMBERS), r.choice(["", "[]", "[", "]", "[[byte]]", "[[string]", "[byte", "byte]", "int8", "Byte", "uint8", "list", "[list]", "Nope", "[Nope]", "byte ", " byte", "[ byte]", "[[Alpha]]", 3, True, ["byte"], {"a": 1}, "String", "_name"]), r)


@mut
def m_message_as_type(r, d):
    x, y = pick(r, d, ("structs", "messages")), pick(r, d, ("messages",))
    if x and y and "_name" in y: put(x, r.choice(MEMBERS), r.choice(["%s", "[%s]"]) % y["_name"], r)


@mut
def m_any_type(r, d):
    x, y = pick(r, d, ("structs", "messages")), pick(r, d)
    if x and y and "_name" in y: put(x, r.choice(MEMBERS), r.choice(["%s", "[%s]", "[[%s]]"]) % y["_name"], r)


@mut
def m_meta(r, d):
    d.setdefault("meta", {})[r.choice(["list_size_type", "string_size_type"])] = r.choice(["float", "double", "bool", "string", "int8", "", "Byte", "list", 4, "uint8", " byte", True, "int64", "byte", "uint16"])


@mut
def m_ns(r, d):
    d.setdefault("meta", {})["namespace"] = r.choice(["a b", " x", "x\t", "y\n", 3, True, ["a"], "fine", "a.b.c", 1.5])


@mut
def m_novalues(r, d):
    x = pick(r, d, ("enums",))
    if x: x.pop("_values", None)


@mut
def m_values(r, d):
    x = pick(r, d, ("enums",))
    if x: x["_values"] = r.choice([[], "One", 3, ["A", {"_name": "B", "_value": 1}], [{"_name": "A"}], [{"_value": 1}], [{"_name": 3, "_value": 1}], [{"_name": "A", "_value": True}], [{"_name": "A", "_value": 1.0}], [{"_name": "A", "_value": "1"}], [1, 2], {"A": 1}, [["A"]], ["A", 1], [{}], [{"_name": "A", "_value": 1, "extra": 2}],
                                   ["A", "B", "A"], ["A", ""], ["A", "b c"], [""], [" "], [{"_name": "", "_value": 0}], [{"_name": "a\tb", "_value": 0}]])


@mut
def m_numbers(r, d):
    x = pick(r, d, ("enums",))
    b = [0, 255, 256, -1, 32767, 32768, -32768, -32769, 65535, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**63 - 1, -2**63, 1]
    if x: x["_values"] = [{"_name": f"v{i}", "_value": r.choice(b)} for i in range(r.choice([1, 2, 2, 3]))]


@mut
def m_dupnumber(r, d):
    x = pick(r, d, ("enums",))
    if x:
        n = r.choice([0, 5, -3, 300])
        x["_values"] = [{"_name": "A", "_value": n}, {"_name": r.choice(["A", "B"]), "_value": r.choice([n, n + 1])}, {"_name": "C", "_value": n - 7}]


@mut
def m_shadowvalue(r, d):
    x, y = pick(r, d, ("enums",)), pick(r, d)
    if x and y and "_name" in y: x["_values"] = r.choice([["Z9", y["_name"]], [{"_name": y["_name"], "_value": 3}]])


@mut
def m_cycle(r, d):
    ss = [s["_name"] for s in d.get("structs", []) if "_name" in s]
    x = pick(r, d, ("structs",))
    if x and ss: put(x, r.choice(MEMBERS), r.choice(["%s", "[%s]"]) % r.choice(ss), r)


def docs(seed, n):
    r = random.Random(f"docs{seed}")
    for i in range(n):
        d = rnd_doc(r)
        k = r.choice([0, 1, 1, 1, 2])
        what = []
        for _ in range(k):
            m = MUT[i % len(MUT)] if not what else r.choice(MUT)
            m(r, d)
            what.append(m.__name__)
        yield what, d
    for nm in (254, 255, 256, 257, 300):
        yield ["messages"], {"messages": [{"_name": f"M{i}", "a": "byte"} for i in range(nm)]}
    yield ["structs"], {"structs": [{"_name": f"S{i}", "a": "byte"} for i in range(300)], "messages": [{"_name": f"M{i}", "a": f"S{i}"} for i in range(200)]}
    for e in [["A"] * 1 + [f"V{i}" for i in range(k)] for k in (254, 255, 256, 300)]:
        yield ["enum size"], {"enums": [{"_name": "E", "_values": e}]}


def norm(o):
    o = dict(o)
    o.pop("names", None)
    return o


def run_docs(items):
    """items: [(what, doc)] -> [(item text, problem)], count of (accepted, rejected)"""
    jobs, wants = [], []
    for what, d in items:
        t = rules.dump(d)
        jobs.append({"op": "load", "text": t})
        try:
            import tomllib
            wants.append(rules.check(tomllib.loads(t)))
        except rules.No as e:
            wants.append(e)
    bad = []
    acc = 0
    for (what, d), j, w, g in zip(items, jobs, wants, ask(jobs)):
        pr = None
        if "late" in g:
            pr = "loading does not come to an end"
        elif isinstance(w, rules.No):
            if "ok" in g:
                pr = f"accepted, but {w}"
        elif "no" in g:
            pr = f"refused ({g['no']}), but no rule is broken"
            acc += 1
        else:
            acc += 1
            if norm(g["ok"]) != w:
                k = [x for x in w if norm(g["ok"]).get(x) != w[x]]
                pr = f"represented differently: {k}: {json.dumps({x: g['ok'].get(x) for x in k})[:300]}, expected {json.dumps({x: w[x] for x in k})[:300]}"
            for key, nm, ism in g["ok"]["names"]:
                if key != nm:
                    pr = f"{key} is named {nm}"
            ms = {x[0] for x in w["messages"]}
            for key, nm, ism in g["ok"]["names"]:
                if ism is not None and ism != (key in ms):
                    pr = f"{key} marked as message: {ism}"
        if pr:
            bad.append((j["text"], pr))
    return bad, (acc, len(jobs) - acc)


def C12(seed, deep):
    return list(docs(seed, 20000 if deep else 3000))


def graph_doc(n, edges, msg=None):
    """edges: {(i, j): 'd' | 'l' | 'dl'}"""
    ss = []
    for i in range(n):
        s = {"_name": f"S{i}", "k": "byte"}
        for (a, b), m in edges.items():
            if a == i:
                for c in m:
                    s[f"m{b}{c}"] = f"S{b}" if c == "d" else f"[S{b}]"
        ss.append(s)
    d = {"structs": ss}
    if msg is not None:
        d["messages"] = [{"_name": "Msg", **{f"x{i}": f"S{i}" if i % 2 else f"[S{i}]" for i in msg}}]
    return d


def C13(seed, deep):
    r = random.Random(f"c13{seed}")
    out = []
    for n in (1, 2, 3):
        ps = list(itertools.product(range(n), repeat=2))
        for bits in itertools.product([0, 1], repeat=len(ps)):
            e = {p: r.choice(["d", "l"]) for p, b in zip(ps, bits) if b}
            out.append((["graph"], graph_doc(n, e, r.sample(range(n), r.randint(0, n)) if r.random() < .5 else None)))
    for k in range(4000 if deep else 700):
        n = r.randint(4, 9)
        e = {}
        acyc = r.random() < .5
        perm = list(range(n))
        r.shuffle(perm)
        for a in range(n):
            for b in range(n):
                if a == b and r.random() < .95:
                    continue
                if acyc and perm[a] <= perm[b]:
                    continue
                if r.random() < (.45 if acyc else r.choice([.08, .15, .3])):
                    e[a, b] = r.choice(["d", "l", "dl"])
        out.append((["graph"], graph_doc(n, e, r.sample(range(n), r.randint(0, n)) if r.random() < .7 else None)))
    for n in (50, 200):    # long chains and rings; wide diamonds
        ch = {(i, i + 1): r.choice("dl") for i in range(n - 1)}
        out.append((["chain"], graph_doc(n, ch, [0])))
        out.append((["ring"], graph_doc(n, {**ch, (n - 1, 0): "l"}, [0])))
        out.append((["rho"], graph_doc(n, {**ch, (n - 1, n // 2): "d"}, [0])))
    for n in (16, 24):
        dm = {}
        for i in range(n - 2):
            dm[i, i + 1] = "d"
            dm[i, i + 2] = "l"
        out.append((["ladder"], graph_doc(n, dm, [0])))
        out.append((["ladder cycle"], graph_doc(n, {**dm, (n - 2, n - 3): "d"}, [0])))
    return out


def C14(seed, deep):
    """value specs for Enum, with the expected answer"""
    r = random.Random(f"c14{seed}")
    B = [0, 1, 127, 128, 254, 255, 256, 257, -1, -2, -128, -129, 32766, 32767, 32768, 32769, 65535, 65536, -32767, -32768, -32769, 2**31 - 2, 2**31 - 1, 2**31, 2**32, -2**31 + 1, -2**31, -2**31 - 1, 2**62, -2**62, 7, 100]
    out = []
    for a in B:
        out.append([a])
        for b in B:
            if a != b:
                out.append([a, b])
    for _ in range(4000 if deep else 400):
        k = r.choice([3, 4, 5, 8])
        out.append(r.sample(B + list(range(-40, 300, 7)), k))
    specs = [[{"_name": f"N{i}", "_value": v} for i, v in enumerate(x)] for x in out]
    for k in (1, 2, 3, 10, 255, 256, 257, 32767 if deep else 300, 33000):
        specs.append([f"P{(i * 7919) % k if k in (10, 257) else i}" for i in range(k)])
    return specs


def run_enums(specs):
    jobs = [{"op": "enum", "values": s} for s in specs]
    bad, n = [], 0
    for s, g in zip(specs, ask(jobs)):
        pairs = [[x, i] for i, x in enumerate(s)] if isinstance(s[0], str) else [[x["_name"], x["_value"]] for x in s]
        e = proto.EnumT("E", [tuple(x) for x in pairs])
        if e.encoding is None:
            if "ok" in g:
                bad.append((s, f"accepted with encoding {g['ok'][1]}"))
        else:
            w = [pairs, e.encoding, pairs[0], min(pairs, key=lambda x: x[1])]
            if g.get("ok") != w:
                bad.append((s, f"{json.dumps(g)[:200]}, expected {json.dumps(w)[:200]}"))
    return bad


def kernels():
    d = os.path.join(VERIF, "kernels")
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".toml")]


def drawn(seed, k):
    """k protocols drawn from the seed, beside the kernels"""
    d = os.path.join(BUILD, "drawn")
    os.makedirs(d, exist_ok=True)
    out = []
    for i in range(k):
        f = os.path.join(d, f"drawn_{seed}_{i}.toml".replace("/", "_"))
        t = G(f"{seed}/{i}").text()
        if not os.path.exists(f) or open(f, encoding="utf-8").read() != t:
            with open(f + f".{os.getpid()}.{threading.get_ident()}", "w", encoding="utf-8") as h:
                h.write(t)
            os.replace(h.name, f)
        out.append(f)
    return out


def C15(seed, deep):
    r = random.Random(f"c15{seed}")
    out = [open(k, encoding="utf-8").read() for k in kernels()]
    while len(out) < (2000 if deep else 300):
        d = rnd_doc(r)
        t = rules.dump(d)
        try:
            import tomllib
            rules.check(tomllib.loads(t))
            out.append(t)
        except rules.No:
            pass
    return out


def run_sizes(texts):
    jobs, ps = [], []
    for t in texts:
        p = proto.Proto.loads(t)
        ps.append(p)
        jobs.append({"op": "sizes", "text": t, "types": list(proto.SIZES) + ["string"] + list(p.enums) + list(p.structs) + list(p.messages)})
    bad, n = [], 0
    for p, j, g in zip(ps, jobs, ask(jobs)):
        if "ok" not in g:
            bad.append((j["text"], json.dumps(g)[:300]))
            continue
        for t in j["types"]:
            n += 1
            f = p.fixed_size(t)
            s, x = g["ok"][t]
            if f is None:
                if isinstance(s, int):
                    bad.append((j["text"], f"size {s} precomputed for {t}, whose values differ in length"))
            elif s != f:
                bad.append((j["text"], f"size {s} precomputed for {t}, expected {f}"))
            simple = f is not None
            w = [simple, False, simple, simple] + ([simple] if p.kind(t) == "struct" else [])
            if x != w:
                bad.append((j["text"], f"{t}: fixed-size claims {x}, expected {w} (single, list, element, element of list, type)"))
    return bad, n


# ---------------------------------------------------------------- C16: options
def tokens(text, lang):
    """code without comments and layout: identifiers, numbers, literals, punctuation"""
    out, i, n = [], 0, len(text)
    while i < n:
        c = text[i]
        if c.isspace():
            i += 1
        elif text.startswith("//", i):
            j = text.find("\n", i)
            i = n if j < 0 else j
        elif text.startswith("/*", i) and lang != "zig":
            nest = lang in ("rust", "swift")
            d, i = 1, i + 2
            while i < n and d:
                if text.startswith("*/", i):
                    d -= 1
                    i += 2
                elif nest and text.startswith("/*", i):
                    d += 1
                    i += 2
                else:
                    i += 1
            if d:
                out.append("UNTERMINATED COMMENT")
        elif c == "`" and lang in ("go", "typescript", "assemblyscript"):
            j = text.find("`", i + 1)
            j = n if j < 0 else j
            out.append(text[i:j + 1])
            i = j + 1
        elif text.startswith("\\\\", i) and lang == "zig":
            j = text.find("\n", i)
            out.append(text[i:j])
            i = j
        elif c == '"' or (c == "'" and lang != "rust"):
            j = i + 1
            while j < n and text[j] != c and text[j] != "\n":
                j += 2 if text[j] == "\\" else 1
            out.append(text[i:j + 1])
            i = j + 1
        elif c == "'":      # rust: char literal or lifetime
            m = re.compile(r"'(\\.[^']*|[^\\'])'").match(text, i)
            if m:
                out.append(m.group(0))
                i = m.end()
            else:
                out.append(c)
                i += 1
        elif c.isalnum() or c == "_":
            j = i
            while j < n and (text[j].isalnum() or text[j] == "_"):
                j += 1
            out.append(text[i:j])
            i = j
        else:
            out.append(c)
            i += 1
    return out


ALL = ["c", "go", "rust", "typescript", "csharp", "zig", "swift", "assemblyscript"]
EMBED = ['\n# plain comment\n', '\n# */ int evil = 1; /*\n', '\n# */ */ /* /* // \\\n', '\n# \\u000a ??/ \\\n# `"\'\n', "\n# */\n#*/\n#/*/\n# /*/ **/ */\n", "\n# \x7f \u2028 \u2029 \x85 evil\n".replace("\x7f", ""), "\n# \u202e rtl\n",
         '\n[[enums]]\n_name="Cmt"\n_values=["A*/","B/*","C//"]\n'.replace('"A*/","B/*","C//"', '"A","B"') + "# */ }\n", "\n# <!-- --> <? ?>\n#if 0\n#endif\n"]


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"token {i}: ...{' '.join(a[max(0, i - 6):i + 4])}... / ...{' '.join(b[max(0, i - 6):i + 4])}..."
    return f"lengths {len(a)} / {len(b)}: {' '.join((a if len(a) > len(b) else b)[min(len(a), len(b)):][:10])}"


def C16_tokens(seed, deep):
    """[(label, problem)], count: token streams with and without indentation, embedding; repeated generation"""
    r = random.Random(f"c16{seed}")
    scratch = tempfile.mkdtemp(prefix="c16.")
    try:
        base = ["enums", "lists", "names", "nometa", "structs", "scalars", "solo", "repeat"]
        jobs, idx = [], []
        ks = [k for k in kernels() if os.path.basename(k)[:-5] in base or deep]
        for k in ks:
            for l in ALL:
                jobs.append({"lang": l, "protocol": k, "twice": True})
                idx.append((os.path.basename(k), l, "base", None))
                for ind in ["\t", "  ", "        ", "   ", " "]:
                    jobs.append({"lang": l, "protocol": k, "indent": ind})
                    idx.append((os.path.basename(k), l, "indent", ind))
                jobs.append({"lang": l, "protocol": k, "args": {"embed_protocol": True}})
                idx.append((os.path.basename(k), l, "embed", "as is"))
        k0 = open(os.path.join(VERIF, "kernels", "structs.toml"), encoding="utf-8").read()
        for i, e in enumerate(EMBED):
            f = os.path.join(scratch, f"e{i}.toml")
            txt = (e + k0 + e.replace("Cmt", "Cmt2")) if "[[" not in e else k0 + e
            open(f, "w", encoding="utf-8").write(txt)
            for l in ALL:
                jobs.append({"lang": l, "protocol": f})
                idx.append((f"structs.toml with {e!r}", l, "base", None))
                jobs.append({"lang": l, "protocol": f, "args": {"embed_protocol": True}})
                idx.append((f"structs.toml with {e!r}", l, "embed", e))
                jobs.append({"lang": l, "protocol": f, "args": {"embed_protocol": True}, "indent": "\t", "namespace": "Ns"})
                idx.append((f"structs.toml with {e!r}", l, "embed+ns", e))
                jobs.append({"lang": l, "protocol": f, "namespace": "Ns"})
                idx.append((f"structs.toml with {e!r}", l, "ns", e))
        res = generate(jobs)
        base = {}
        bad = []
        n = 0
        for (k, l, what, x), j, g in zip(idx, jobs, res):
            if not g["ok"]:
                bad.append((f"{l}: {k} {what} {x!r}", "generation fails: " + g["error"], j))
                continue
            tk = tokens(g["text"], l)
            if what in ("base",):
                base[k, l] = tk
            elif what == "ns":
                if tk != base.get((k, l, "embed+ns")):
                    bad.append((f"{l}: {k} embedded, with a namespace", "code differs: " + first_diff(base.get((k, l, "embed+ns"), []), tk), j))
                n += 1
            elif what == "embed+ns":
                base[k, l, what] = tk
            else:
                n += 1
                if tk != base.get((k, l)):
                    bad.append((f"{l}: {k} with {what} {x!r}", "code differs: " + first_diff(base.get((k, l), []), tk), j))
        # repeated generation, other hash seeds, other working directory
        again = [j for (k, l, w, x), j in zip(idx, jobs) if w == "base"]
        first = [g for (k, l, w, x), g in zip(idx, res) if w == "base"]
        for hs in ("1", "4242"):
            e = env()
            e["PYTHONHASHSEED"] = hs
            rr = subprocess.run([PY, os.path.join(VERIF, "harness", "gen.py"), REPO], input=json.dumps(again), text=True, capture_output=True, env=e, cwd=scratch, timeout=120)
            for j, a, b in zip(again, first, json.loads(rr.stdout)):
                n += 1
                if a.get("text") != b.get("text"):
                    bad.append((f"{j['lang']}: {os.path.basename(j['protocol'])} generated twice", "texts differ", j))
        return bad, n
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


# ---------------------------------------------------------------- C17: command line
def C17_runs(seed, deep):
    """[(argv, setup description, problem)], number of runs"""
    scratch = tempfile.mkdtemp(prefix="c17.")
    os.chmod(scratch, 0o777)
    bad = []
    runs = []
    good = os.path.join(VERIF, "kernels", "structs.toml")
    goods = [good] + [os.path.join(VERIF, "kernels", f"{k}.toml") for k in ("nometa", "enums", "lists")]
    files = {
        "cyc.toml": '[[structs]]\n_name="A"\nx="[A]"\n[[messages]]\n_name="M"\na="A"\n',
        "cyc2.toml": '[[structs]]\n_name="A"\nx="B"\n[[structs]]\n_name="B"\nx="C"\n[[structs]]\n_name="C"\nx="B"\n',
        "unknown.toml": '[[messages]]\n_name="M"\na="Nope"\n',
        "noname.toml": '[[messages]]\na="byte"\n',
        "badsize.toml": '[meta]\nlist_size_type="float"\n[[messages]]\n_name="M"\na="byte"\n',
        "many.toml": "".join(f'[[messages]]\n_name="M{i}"\na="byte"\n' for i in range(256)),
        "enumrange.toml": '[[enums]]\n_name="E"\n_values=[{_name="A",_value=4294967296}]\n',
        "syntax.toml": "[[messages]\n_name=\n",
        "notoml.toml": "\x00\x01\x02 hello",
        "shape.toml": 'messages = 3\n',
        "shape2.toml": 'meta = 3\n',
        "shape3.toml": '[messages]\n_name="x"\n',
        "typ.toml": '[[messages]]\n_name="M"\na=3\n',
        "emptyname.toml": '[[messages]]\n_name=""\na="byte"\n',
        "wsns.toml": '[meta]\nnamespace="a b"\n[[messages]]\n_name="M"\na="byte"\n',
        "uni.toml": '[[enums]]\n_name="E"\n_values=["Ä","B"]\n[[messages]]\n_name="Mü"\nwert="E"\n# ünïcode \U0001f600\n',
        "empty.toml": "",
    }
    for n, t in files.items():
        open(os.path.join(scratch, n), "w", encoding="utf-8").write(t)
    open(os.path.join(scratch, "latin.toml"), "wb").write(b'[[messages]]\n_name="M\xe9"\na="byte"\n')
    os.mkdir(os.path.join(scratch, "dir.toml"))
    invalid = [n for n in files if n not in ("uni.toml", "empty.toml")] + ["latin.toml", "dir.toml", "missing.toml"]
    valid = goods + [os.path.join(scratch, "uni.toml"), os.path.join(scratch, "empty.toml")]
    cnt = [0]

    def out_name():
        cnt[0] += 1
        return os.path.join(scratch, f"out{cnt[0]}.txt")

    def fail(argv, pre, why, envx=None):
        o = out_name()
        runs.append(("fail", argv + (["-o", o] if pre != "stdout" else []), o, pre, why, envx))
    k = 0
    for n in invalid:
        for l in (ALL if deep else [ALL[k % 8], ALL[(k + 3) % 8]]):
            fail(["-p", os.path.join(scratch, n), "-l", l], ("none", "old", "stdout")[k % 3], f"protocol {n}")
            k += 1
    for l in ("", "cobol", "C", "Go", "c ", "py", "_c", "writer", "all", "__init__", "TYPESCRIPT"):
        fail(["-p", good, "-l", l], ("none", "old")[k % 2], f"language {l!r}")
        k += 1
    fail(["-p", good], "old", "no language")
    fail(["-l", "c"], "old", "no protocol")
    fail([], "none", "no arguments")
    fail(["-p", "", "-l", "go"], "none", "empty protocol name")
    for ns in ("a b", "x\ty", " "):
        fail(["-p", good, "-l", "c", "-n", ns], "old", f"namespace {ns!r}")
    fail(["-p", good, "-l", "c", "--bogus"], "old", "unknown option")
    wants = []
    optset = [([], {}), (["--embed-protocol"], {"args": {"embed_protocol": True}}), (["--indent", "\t"], {"indent": "\t"}), (["-n", "Other"], {"namespace": "Other"}),
              (["--indent", "  ", "--embed-protocol", "-n", "N2"], {"indent": "  ", "namespace": "N2", "args": {"embed_protocol": True}})]
    langopt = {"go": ("--go-no-rename", "go_no_rename"), "rust": ("--rust-no-rename", "rust_no_rename"), "typescript": ("--typescript-use-namespace", "typescript_use_namespace")}
    for i, l in enumerate(ALL):
        for q, v in enumerate(valid):
            for z, (a, j) in enumerate(optset):
                if not deep and (i + q + z) % 5:
                    continue
                for mode in ("file", "stdout"):
                    for lo in ([None] + ([langopt[l]] if l in langopt and z == 0 else [])):
                        jj = {"lang": l, "protocol": v, **copy.deepcopy(j)}
                        aa = ["-p", v, "-l", l] + a
                        if lo:
                            aa.append(lo[0])
                            jj.setdefault("args", {})[lo[1]] = True
                        o = out_name()
                        ex = {"LC_ALL": "C", "LANG": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"} if mode == "file" and q == 4 else None
                        runs.append(("ok", aa + (["-o", o] if mode == "file" else []), o, mode + ("+old" if (i + q) % 2 else ""), len(wants), ex))
                        wants.append(jj)
    if True:
        o = out_name()
        runs.append(("version", ["--version"], o, "", None, None))
    wants = generate(wants)

    def go(x):
        kind, argv, o, pre, w, ex = x
        e = env()
        if ex:
            for kk in ("LC_ALL", "LANG", "LC_CTYPE"):
                e.pop(kk, None)
            e.update(ex)
        cwd = tempfile.mkdtemp(prefix="cwd.", dir=scratch)
        old = None
        if pre == "old" or pre.endswith("+old"):
            old = b"previous contents \xff\n" * 50
            open(o, "wb").write(old)
        before = set(os.listdir(scratch))
        r = subprocess.run([PY, "-m", "beschi", *argv], capture_output=True, env=e, cwd=cwd, timeout=60)
        left = os.listdir(cwd)
        if left:
            return (argv, f"files appear in the working directory: {left}")
        cur = open(o, "rb").read() if os.path.exists(o) else None
        if kind == "fail":
            if r.returncode == 0:
                return (argv, f"exit status 0 with {w}")
            if not r.stderr.strip():
                return (argv, f"nothing on standard error with {w}")
            if cur != old:
                return (argv, f"output file {'modified' if old is not None else 'created'} although it fails ({w})")
            if r.stdout.strip():
                return (argv, f"text on standard output although it fails ({w})")
        elif kind == "version":
            if r.returncode or not r.stdout.strip():
                return (argv, "--version fails")
        else:
            g = wants[w]
            if not g["ok"]:
                return None if r.returncode else (argv, "exit status 0 but the writer fails: " + g["error"])
            if r.returncode:
                return (argv, f"exit status {r.returncode}: {r.stderr.decode('utf-8', 'replace')[-300:]}")
            t = g["text"].encode("utf-8")
            if pre.startswith("file"):
                if cur != t:
                    return (argv, "output file is not the generated text" if cur is not None else "no output file")
                if r.stdout.strip():
                    return (argv, "text on standard output besides the file")
            else:
                if r.stdout != t + b"\n":
                    return (argv, "standard output is not the generated text plus a newline")
                if cur != old:
                    return (argv, "a file changed that was not asked for")
        return None
    try:
        with ThreadPoolExecutor(8) as ex:
            for x, b in zip(runs, ex.map(go, runs)):
                if b:
                    bad.append((b[0], b[1], {k: files[k] for k in files if any(k in a for a in b[0])}))
        return bad, len(runs)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run_docs_text(texts):
    import tomllib
    return run_docs([(["text"], tomllib.loads(t)) for t in texts])
