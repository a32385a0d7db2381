"""Independent reading of a beschi protocol (from docs/protocols.md), used as the oracle.

Nothing here imports beschi."""
import tomllib

NUM = {"byte": (1, False), "uint16": (2, False), "int16": (2, True), "uint32": (4, False), "int32": (4, True),
       "uint64": (8, False), "int64": (8, True)}
SIZES = {**{k: v[0] for k, v in NUM.items()}, "bool": 1, "float": 4, "double": 8}
RANGES = {k: ((-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if s else (0, (1 << (8 * n)) - 1)) for k, (n, s) in NUM.items()}


class EnumT:
    def __init__(self, name, values):
        self.name = name
        self.values = values          # list of (name, number) in listed order
        nums = [n for _, n in values]
        self.encoding = None
        for e in ("byte", "int16", "int32"):
            lo, hi = RANGES[e]
            if nums and lo <= min(nums) and max(nums) <= hi:
                self.encoding = e
                break

    @property
    def numbers(self):
        return [n for _, n in self.values]

    @property
    def default(self):
        return self.values[0][1]


class StructT:
    def __init__(self, name, members, is_message):
        self.name = name
        self.members = members        # list of (name, typename, is_list)
        self.is_message = is_message


class Proto:
    def __init__(self, data):
        meta = data.get("meta", {})
        self.namespace = meta.get("namespace")
        self.lst = meta.get("list_size_type", "uint32")
        self.sst = meta.get("string_size_type", "uint32")
        self.enums, self.structs, self.messages = {}, {}, {}
        for e in data.get("enums", []):
            vals = e["_values"]
            if vals and isinstance(vals[0], str):
                vs = [(v, i) for i, v in enumerate(vals)]
            else:
                vs = [(v["_name"], v["_value"]) for v in vals]
            self.enums[e["_name"]] = EnumT(e["_name"], vs)
        for key, dest, ism in (("structs", self.structs, False), ("messages", self.messages, True)):
            for s in data.get(key, []):
                ms = []
                for k, t in s.items():
                    if k.startswith("_"):
                        continue
                    ms.append((k, t[1:-1], True) if t[0] == "[" else (k, t, False))
                dest[s["_name"]] = StructT(s["_name"], ms, ism)
        self.msg_ids = {n: i + 1 for i, n in enumerate(self.messages)}

    @classmethod
    def load(cls, path):
        with open(path, "rb") as f:
            return cls(tomllib.load(f))

    @classmethod
    def loads(cls, text):
        return cls(tomllib.loads(text))

    def kind(self, t):
        if t in SIZES:
            return "num"
        if t == "string":
            return "string"
        if t in self.enums:
            return "enum"
        return "struct"

    def st(self, t):
        return self.structs.get(t) or self.messages[t]

    def fixed_size(self, t):
        """encoded length of every value of type t, or None if values differ in length"""
        k = self.kind(t)
        if k == "num":
            return SIZES[t]
        if k == "string":
            return None
        if k == "enum":
            return SIZES[self.enums[t].encoding]
        tot = 0
        for _, mt, l in self.st(t).members:
            if l:
                return None
            s = self.fixed_size(mt)
            if s is None:
                return None
            tot += s
        return tot
