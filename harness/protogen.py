"""Protocols drawn at random, from a seed: shapes that the kernels may not have."""
import random

NUMS = ["byte", "bool", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float", "double"]
SIZET = ["byte", "int16", "uint16", "int32", "uint32", "int64", "uint64"]
STEMS = ["alpha", "Beta", "gammaRay", "delta_two", "Eps3", "zEta", "etaX", "theta", "Iota9", "kappa_q", "lamB", "Mu", "nuNu", "xi", "omicron", "Pi", "rho", "Sigma", "tau_1", "upsilon", "phi", "Chi", "psi", "omegaEnd"]


class G:
    def __init__(self, seed):
        self.r = random.Random(f"protogen/{seed}")

    def names(self, k, taken):
        out = []
        while len(out) < k:
            n = self.r.choice(STEMS) + self.r.choice(["", "", "Q", "_z", "7", "Item", "Val"])
            key = n.replace("_", "").lower()
            if key not in taken:
                taken.add(key)
                out.append(n)
        return out

    def enum(self):
        r = self.r
        k = r.choice([1, 2, 3, 5, 9])
        ns = ["V" + x.replace("_", "").capitalize() for x in self.names(k, set())]
        if r.random() < 0.4:
            return ns, None
        lo, hi = r.choice([(0, 255), (0, 256), (-1, 100), (-32768, 32767), (0, 65535), (-1, 32768), (0, 2 ** 31 - 1), (-2 ** 31, 2 ** 31 - 1), (10, 20), (0, 65536), (250, 255)])
        vs = set(r.sample([lo, hi], r.choice([1, 2])))
        while len(vs) < min(k, hi - lo + 1):
            vs.add(r.randint(lo, hi) if r.random() < 0.5 else min(hi, max(lo, r.choice(list(vs)) + r.choice([1, -1, 2]))))
        vs = list(vs)
        r.shuffle(vs)
        return ns[:len(vs)], vs

    def text(self):
        r = self.r
        taken = set(["message", "messagetype", "dataaccess", "k"])
        ty = lambda k: [n.replace("_", "")[0].upper() + n.replace("_", "")[1:] for n in self.names(k, taken)]
        enums = ty(r.choice([0, 1, 2, 4]))
        structs = ty(r.choice([0, 1, 2, 3, 5]))
        msgs = ty(r.choice([1, 2, 3, 6]))
        o = ['[meta]', 'namespace = "Drawn"']
        if r.random() < 0.5:
            o.append(f'list_size_type = "{r.choice(SIZET)}"')
        if r.random() < 0.5:
            o.append(f'string_size_type = "{r.choice(SIZET)}"')
        for e in enums:
            ns, vs = self.enum()
            o += ["", "[[enums]]", f'_name = "{e}"']
            if vs is None:
                o.append("_values = [" + ", ".join(f'"{n}"' for n in ns) + "]")
            else:
                o.append("_values = [" + ", ".join(f'{{_name = "{n}", _value = {v}}}' for n, v in zip(ns, vs)) + "]")
        order = list(structs)
        decl = [("structs", s) for s in structs] + [("messages", m) for m in msgs]
        r.shuffle(decl)
        # keep messages in one order; arrays of tables may interleave
        rank = {s: i for i, s in enumerate(order)}
        for kind, n in decl:
            o += ["", f"[[{kind}]]", f'_name = "{n}"']
            below = [s for s in order if rank[s] < rank[n]] if kind == "structs" else order
            k = r.choice([1, 1, 2, 3, 4, 7] if kind == "structs" else [0, 1, 2, 3, 5, 8])
            for m in self.names(k, set()):
                m = m[0].lower() + m[1:]
                p = r.random()
                if p < 0.40 or not (below or enums):
                    t = r.choice(NUMS)
                elif p < 0.55:
                    t = "string"
                elif p < 0.8 and below:
                    t = r.choice(below)
                else:
                    t = r.choice(enums or below)
                o.append(f'{m} = "{"[" + t + "]" if r.random() < 0.35 else t}"')
        return "\n".join(o) + "\n"
