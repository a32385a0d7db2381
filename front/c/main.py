"""Front end: C source (clang's parser, -ast-dump=json) to the common intermediate form.  One line of output per file named on stdin."""
import json, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

INTS = {"char": "i8", "signed char": "i8", "unsigned char": "u8", "short": "i16", "unsigned short": "u16", "int": "i32", "unsigned int": "u32",
        "long": "i64", "unsigned long": "u64", "long long": "i64", "unsigned long long": "u64", "_Bool": "bool", "bool": "bool",
        "uint8_t": "u8", "int8_t": "i8", "uint16_t": "u16", "int16_t": "i16", "uint32_t": "u32", "int32_t": "i32", "uint64_t": "u64", "int64_t": "i64",
        "size_t": "u64", "ptrdiff_t": "i64", "uintptr_t": "u64", "intptr_t": "i64", "__uint8_t": "u8", "float": "f32", "double": "f64", "void": "void"}


class Bad(Exception):
    pass


class T:
    def __init__(self, text):
        self.typedefs, self.enums, self.consts_of, self.records = {}, {}, {}, {}
        self.out = dict(funcs={}, methods={}, types={}, consts={}, bad=[])

    # ---- types
    def ty(self, q):
        """type from clang's spelling"""
        if isinstance(q, dict):
            q = q.get("desugaredQualType") or q["qualType"]
        q = " " + q.replace("*", " * ").replace("[", " [ ").replace("]", " ] ").replace("(", " ( ") + " "
        ws = [w for w in q.split() if w not in ("const", "volatile", "restrict", "struct", "enum", "union", "__restrict", "*const")]
        if "(" in ws:
            return ["fn"]
        stars = 0
        arr = None
        base = []
        i = 0
        while i < len(ws):
            w = ws[i]
            if w == "*":
                stars += 1
            elif w == "[":
                arr = int(ws[i + 1]) if ws[i + 1].isdigit() else 0
                i += 2
            else:
                base.append(w)
            i += 1
        b = " ".join(base)
        t = self.named(b)
        for _ in range(stars):
            t = ["ptr", t]
        if arr is not None:
            t = ["array", t, arr]
        return t

    def named(self, b):
        if b in INTS:
            return INTS[b]
        if b in self.enums:
            return ["enum", b]
        if b in self.records:
            return ["rec", b]
        if b in self.typedefs:
            return self.typedefs[b]
        return ["?", b]

    # ---- expressions
    def x(self, n):
        m = getattr(self, "x_" + n["kind"], None)
        if m is None:
            raise Bad(f"expression {n['kind']}")
        return m(n)

    def kid(self, n, i=0):
        return n["inner"][i]

    def x_ParenExpr(self, n):
        return {"k": "paren", "x": self.x(self.kid(n))}

    def x_ConstantExpr(self, n):
        return self.x(self.kid(n))

    def x_FullExpr(self, n):
        return self.x(self.kid(n))

    def x_IntegerLiteral(self, n):
        return {"k": "int", "v": n["value"], "t": self.ty(n["type"])}

    def x_CharacterLiteral(self, n):
        return {"k": "int", "v": n["value"], "t": "i32"}

    def x_FloatingLiteral(self, n):
        return {"k": "flt", "v": n["value"]}

    def x_StringLiteral(self, n):
        v = n["value"]
        if not v.startswith('"'):
            raise Bad("string literal")
        b = bytearray()
        i = 1
        esc = {"n": 10, "t": 9, "r": 13, "0": 0, "a": 7, "b": 8, "f": 12, "v": 11, '"': 34, "\\": 92, "'": 39, "?": 63}
        while i < len(v) - 1:
            c = v[i]
            if c != "\\":
                b += c.encode()
                i += 1
                continue
            c = v[i + 1]
            if c == "x":
                j = i + 2
                while v[j] in "0123456789abcdefABCDEF":
                    j += 1
                b.append(int(v[i + 2:j], 16) & 255)
                i = j
            elif c in "01234567":
                j = i + 1
                while j < i + 4 and v[j] in "01234567":
                    j += 1
                b.append(int(v[i + 1:j], 8) & 255)
                i = j
            elif c in esc:
                b.append(esc[c])
                i += 2
            else:
                raise Bad("escape")
        return {"k": "cstr", "v": list(b)}

    def x_DeclRefExpr(self, n):
        d = n["referencedDecl"]
        if d["kind"] == "EnumConstantDecl":
            return {"k": "int", "v": str(self.consts_of[d["name"]]), "t": "i32" if -(1 << 31) <= self.consts_of[d["name"]] < 1 << 31 else "i64"}
        return {"k": "var", "n": d["name"] if d["kind"] == "FunctionDecl" or d["id"] not in self.locals else self.locals[d["id"]]}

    def x_cast(self, n):
        k = n.get("castKind")
        c = self.x(self.kid(n))
        if k == "LValueToRValue" and isinstance(self.ty(n["type"]), list) and self.ty(n["type"])[0] == "ptr":
            return {"k": "pval", "x": c}
        if k in ("LValueToRValue", "NoOp", "ArrayToPointerDecay", "FunctionToPointerDecay"):
            return c
        if k in ("IntegralCast", "IntegralToBoolean", "BitCast", "NullToPointer", "FloatingCast", "IntegralToFloating", "FloatingToIntegral", "ToVoid", "PointerToBoolean", "FloatingToBoolean",
                 "IntegralToPointer", "PointerToIntegral"):
            return {"k": "ccast", "c": k, "t": self.ty(n["type"]), "x": c}
        raise Bad(f"conversion {k}")

    x_ImplicitCastExpr = x_CStyleCastExpr = x_cast

    def x_MemberExpr(self, n):
        return {"k": "field", "x": self.x(self.kid(n)), "n": n["name"], "arrow": bool(n.get("isArrow"))}

    def x_ArraySubscriptExpr(self, n):
        return {"k": "index", "x": self.x(self.kid(n, 0)), "i": self.x(self.kid(n, 1)), "t": self.ty(n["type"])}

    def x_UnaryOperator(self, n):
        o = n["opcode"]
        c = self.x(self.kid(n))
        if o == "&":
            return {"k": "addr", "x": c}
        if o == "*":
            return {"k": "deref", "x": c}
        if o in ("++", "--"):
            return {"k": "inc", "o": o, "pre": not n.get("isPostfix"), "x": c}
        if o in ("!", "-", "~", "+"):
            return {"k": "un", "o": o, "x": c}
        raise Bad("operator " + o)

    def x_BinaryOperator(self, n):
        o = n["opcode"]
        l, r = self.x(self.kid(n, 0)), self.x(self.kid(n, 1))
        if o == "=":
            return {"k": "asg", "o": "=", "l": l, "r": r}
        if o == ",":
            raise Bad("comma")
        return {"k": "bin", "o": o, "x": l, "y": r, "t": self.ty(n["type"])}

    def x_CompoundAssignOperator(self, n):
        l, r = self.kid(n, 0), self.x(self.kid(n, 1))
        lt, ct = self.ty(l["type"]), self.ty(n["computeResultType"])
        a = self.x(l)
        if lt == ct or not isinstance(lt, str):
            return {"k": "asg", "o": n["opcode"], "l": a, "r": r}
        v = {"k": "bin", "o": n["opcode"][:-1], "x": {"k": "ccast", "c": "IntegralCast", "t": ct, "x": a}, "y": r, "t": ct}
        return {"k": "asg", "o": "=", "l": a, "r": {"k": "ccast", "c": "IntegralCast", "t": lt, "x": v}}

    def x_ConditionalOperator(self, n):
        return {"k": "cond", "c": self.x(self.kid(n, 0)), "x": self.x(self.kid(n, 1)), "y": self.x(self.kid(n, 2))}

    def x_CallExpr(self, n):
        return {"k": "call", "f": self.x(self.kid(n)), "a": [self.x(a) for a in n["inner"][1:]], "at": [self.ptype(a) for a in n["inner"][1:]]}

    def ptype(self, a):
        """static type of an argument before it is made a void pointer"""
        while a["kind"] in ("ImplicitCastExpr", "ParenExpr") and a.get("castKind", "BitCast") in ("BitCast", "NoOp", "LValueToRValue"):
            a = a["inner"][0]
        return self.ty(a["type"])

    def x_UnaryExprOrTypeTraitExpr(self, n):
        if n["name"] != "sizeof":
            raise Bad(n["name"])
        if "argType" in n:
            return {"k": "sizeof", "t": self.ty(n["argType"])}
        return {"k": "sizeof", "t": self.ty(self.kid(n)["type"])}

    def x_InitListExpr(self, n):
        t = self.ty(n["type"])
        xs = [self.x(c) for c in n.get("inner", [])]
        if isinstance(t, list) and t[0] == "rec":
            fs = self.out["types"][t[1]]["fields"]
            if len(xs) != len(fs):
                raise Bad("initialiser")
            return {"k": "cinit", "t": t[1], "f": [[f["n"], x] for f, x in zip(fs, xs)]}
        raise Bad("initialiser")

    def x_ImplicitValueInitExpr(self, n):
        return {"k": "zero", "t": self.ty(n["type"])}

    def x_CompoundLiteralExpr(self, n):
        return self.x(self.kid(n))

    # ---- statements
    def ss(self, n):
        if n["kind"] == "CompoundStmt":
            out = []
            for c in n.get("inner", []):
                out += self.st(c)
            return out
        return self.st(n)

    def st(self, n):
        k = n["kind"]
        if k == "CompoundStmt":
            return [{"k": "block", "b": self.ss(n)}]
        if k == "NullStmt":
            return []
        if k == "DeclStmt":
            out = []
            for d in n["inner"]:
                if d["kind"] != "VarDecl" or d.get("storageClass") == "static":
                    raise Bad("declaration")
                nm = self.local(d)
                s = {"k": "decl", "n": nm, "t": self.ty(d["type"])}
                if d.get("init"):
                    s["x"] = self.x(d["inner"][0])
                out.append(s)
            return out
        if k == "IfStmt":
            i = n["inner"]
            s = {"k": "if", "c": self.x(i[0]), "a": self.ss(i[1])}
            if n.get("hasElse"):
                s["b"] = self.ss(i[2])
            return [s]
        if k == "ForStmt":
            init, _, c, step, b = n["inner"]
            s = {"k": "while", "b": self.ss(b)}
            if init:
                s["init"] = self.st(init)
            s["c"] = self.x(c) if c else None
            if step:
                s["step"] = [self.x(step)]
            return [s]
        if k == "WhileStmt":
            return [{"k": "while", "c": self.x(n["inner"][0]), "b": self.ss(n["inner"][1])}]
        if k == "DoStmt":
            return [{"k": "while", "do": True, "c": self.x(n["inner"][1]), "b": self.ss(n["inner"][0])}]
        if k == "SwitchStmt":
            return [self.switch(n)]
        if k == "ReturnStmt":
            s = {"k": "return"}
            if n.get("inner"):
                s["x"] = self.x(n["inner"][0])
            return [s]
        if k == "BreakStmt":
            return [{"k": "break"}]
        if k == "ContinueStmt":
            return [{"k": "continue"}]
        if k.endswith("Expr") or k.endswith("Operator") or k.endswith("Literal"):
            return [{"k": "expr", "x": self.x(n)}]
        raise Bad("statement " + k)

    def switch(self, n):
        v = self.x(n["inner"][0])
        body = n["inner"][1]
        if body["kind"] != "CompoundStmt":
            raise Bad("switch")
        groups = []                     # (values, default?, statements)
        for c in body.get("inner", []):
            vals, dflt = [], False
            while c["kind"] in ("CaseStmt", "DefaultStmt"):
                if c["kind"] == "CaseStmt":
                    vals.append(self.x(c["inner"][0]))
                    c = c["inner"][1] if len(c["inner"]) > 1 else {"kind": "NullStmt"}
                else:
                    dflt = True
                    c = c["inner"][0] if c.get("inner") else {"kind": "NullStmt"}
            if vals or dflt:
                groups.append([vals, dflt, []])
            elif not groups:
                raise Bad("switch")
            groups[-1][2].extend(self.st(c))
        s = {"k": "switch", "x": v, "cases": []}
        for i, (vals, dflt, b) in enumerate(groups):
            whole = list(b)
            j = i
            while not self.ends(groups[j][2]) and j + 1 < len(groups):      # falls through
                j += 1
                whole += groups[j][2]
            if dflt:
                if vals:
                    pass                # the values named beside default take the same way
                s["default"] = whole
            else:
                s["cases"].append({"v": vals, "b": whole})
        return s

    def ends(self, b):
        if not b:
            return False
        l = b[-1]
        if l["k"] in ("break", "return", "continue"):
            return True
        if l["k"] == "block":
            return self.ends(l["b"])
        if l["k"] == "if":
            return bool(l.get("b")) and self.ends(l["a"]) and self.ends(l["b"])
        return False

    def local(self, d):
        n = d["name"]
        self.locals[d["id"]] = n
        return n

    # ---- declarations
    def unit(self, ast):
        fs = []
        for d in ast.get("inner", []):
            k = d["kind"]
            if k == "TypedefDecl":
                i = d.get("inner", [{}])[0]
                dec = i.get("decl") or i.get("ownedTagDecl") or {}
                if i.get("kind") == "ElaboratedType":
                    dec = i.get("ownedTagDecl") or (i.get("inner", [{}])[0].get("decl") or {})
                nm = d["name"]
                if dec.get("id") in self.tags:
                    kind, body = self.tags[dec["id"]]
                    if kind == "enum":
                        self.enums[nm] = body
                        if dec.get("name"):
                            self.enums.setdefault(dec["name"], body)
                        self.out["types"][nm] = dict(kind="enum", values=body)
                    else:
                        self.records[nm] = body
                        self.out["types"][nm] = dict(kind="struct", fields=[dict(n=f["name"], t=self.ty(f["type"])) for f in body])
                else:
                    self.typedefs[nm] = self.ty(d["type"])
            elif k == "EnumDecl":
                vals, nxt = {}, 0
                for c in d.get("inner", []):
                    if c["kind"] != "EnumConstantDecl":
                        continue
                    for i in c.get("inner", []):
                        while i["kind"] == "ImplicitCastExpr":
                            i = i["inner"][0]
                        if i["kind"] == "ConstantExpr":
                            nxt = int(i["value"])
                        elif not i["kind"].endswith("Comment"):
                            raise Bad("enum constant " + i["kind"])
                    vals[c["name"]] = nxt
                    self.consts_of[c["name"]] = nxt
                    nxt += 1
                self.tags[d["id"]] = ("enum", vals)
                if d.get("name"):
                    self.enums[d["name"]] = vals
                    self.out["types"][d["name"]] = dict(kind="enum", values=vals)
            elif k == "RecordDecl":
                fl = [c for c in d.get("inner", []) if c["kind"] == "FieldDecl"]
                if d.get("tagUsed") == "struct" and d.get("completeDefinition") and all("name" in c for c in fl):
                    self.tags[d["id"]] = ("rec", fl)
                    if d.get("name"):
                        self.records[d["name"]] = fl
                        self.out["types"][d["name"]] = dict(kind="struct", fields=[dict(n=f["name"], t=self.ty(f["type"])) for f in fl])
            elif k == "FunctionDecl" and any(c["kind"] == "CompoundStmt" for c in d.get("inner", [])):
                fs.append(d)
            elif k == "VarDecl" and d.get("init"):
                fs.append(d)
        for d in fs:
            self.locals = {}
            try:
                if d["kind"] == "VarDecl":
                    self.out["consts"][d["name"]] = dict(x=self.x(d["inner"][0]), t=self.ty(d["type"]))
                    continue
                ps = [dict(n=self.local(c), t=self.ty(c["type"])) if "name" in c else dict(n="_", t=None) for c in d["inner"] if c["kind"] == "ParmVarDecl"]
                b = [c for c in d["inner"] if c["kind"] == "CompoundStmt"][0]
                self.out["funcs"][d["name"]] = dict(params=ps, body=self.ss(b), ret=self.ty(d["type"]["qualType"].split("(")[0]))
            except Bad as e:
                self.out["bad"].append(f"{d['name']}: {e}")
        return self.out


def one(f):
    d = sorted(set(re.findall(r"#ifdef (\w+_IMPLEMENTATION)", open(f).read())))
    r = subprocess.run(["clang", *["-D" + x for x in d], "-w", "-x", "c", "-std=c11", "-fsyntax-only", "-Xclang", "-ast-dump=json", f], capture_output=True)
    if r.returncode:
        return {"error": r.stderr.decode(errors="replace")[:500]}
    t = T(f)
    t.tags = {}
    try:
        return t.unit(json.loads(r.stdout))
    except Bad as e:
        return {"error": str(e)}


if __name__ == "__main__":
    from multiprocessing import Pool
    files = [l.strip() for l in sys.stdin if l.strip()]
    with Pool(min(8, max(1, len(files)))) as p:
        for o in p.imap(one, files):
            print(json.dumps(o), flush=True)
