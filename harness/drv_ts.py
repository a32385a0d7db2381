import os
from .common import *
from spec.proto import NUM, SIZES


class L:
    name = "typescript"

    def __init__(self, p, opts=None):
        self.p, self.opts = p, opts or {}
        self.K = "K"

    def put(self, t):
        k = self.p.kind(t)
        if t == "float":
            return "f32(vU())"
        if t == "double":
            return "f64(vB())"
        if t == "bool":
            return "(vU() != 0)"
        if t in ("int64", "uint64"):
            return "vB()"
        if k in ("num", "enum"):
            return "vU()"
        if k == "string":
            return "vS()"
        return f"put_{t}()"

    def out(self, t, e):
        k = self.p.kind(t)
        if t == "float":
            return f"o += ' ' + b32({e});"
        if t == "double":
            return f"o += ' ' + b64({e});"
        if t == "bool":
            return f"o += {e} === true ? ' 1' : {e} === false ? ' 0' : ' ?';"
        if k in ("num", "enum"):
            return f"o += ' ' + {e};"
        if k == "string":
            return f"oh(TE.encode({e}));"
        return f"out_{t}({e});"

    def sources(self, text):
        p, K = self.p, self.K
        if self.opts.get("typescript_use_namespace"):
            text = text + f"\n(globalThis as any).__K = {p.namespace};\n"
            imp = 'import "./k";\nconst K: any = (globalThis as any).__K;\n'
        else:
            imp = 'import * as K0 from "./k";\nconst K: any = K0;\n'
        s = imp + r'''
import * as readline from "readline";
let T: string[] = []; let ti = 0; let o = "";
const TE = new TextEncoder(); const TD = new TextDecoder("utf-8", { ignoreBOM: true });
const dv = new DataView(new ArrayBuffer(8));
function tok() { return T[ti++]; }
function vU(): number { return Number(tok()); }
function vB(): bigint { return BigInt(tok()); }
function vH(): Uint8Array { return Uint8Array.from(Buffer.from(tok().slice(1), "hex")); }
function vS(): string { return TD.decode(vH()); }
function f32(x: number) { dv.setUint32(0, x); return dv.getFloat32(0); }
function f64(x: bigint) { dv.setBigUint64(0, x); return dv.getFloat64(0); }
function b32(x: number) { dv.setFloat32(0, x); return dv.getUint32(0); }
function b64(x: number) { dv.setFloat64(0, x); return dv.getBigUint64(0); }
function oh(b: Uint8Array) { o += " s" + Buffer.from(b).toString("hex"); }
'''
        for n, st in list(p.structs.items()) + list(p.messages.items()):
            a, b = f"function put_{n}() {{ const d = new K.{n}();\n", f"function out_{n}(s: any) {{\n"
            for m, t, l in st.members:
                if l:
                    a += f"  {{ const n = vU(); d.{m} = []; for (let i = 0; i < n; i++) {{ d.{m}.push({self.put(t)}); }} }}\n"
                    b += f"  o += ' ' + s.{m}.length; for (let i = 0; i < s.{m}.length; i++) {{ {self.out(t, f's.{m}[i]')} }}\n"
                else:
                    a += f"  d.{m} = {self.put(t)};\n"
                    b += f"  {self.out(t, f's.{m}')}\n"
            s += a + "  return d; }\n" + b + "}\n"
        msgs = list(p.messages)
        s += "const ENUMS: [string, string][] = " + json.dumps([[e, v] for e, en in p.enums.items() for v, _ in en.values]) + ";\n"
        s += "const PUT: any = {" + ", ".join(f"{n}: put_{n}" for n in msgs) + "};\nconst OUT: any = {" + ", ".join(f"{n}: out_{n}" for n in msgs) + "};\nconst IDS: any = {" + ", ".join(f"{n}: {i+1}" for i, n in enumerate(msgs)) + "};\n"
        s += r'''
function view(off: number, d: Uint8Array): DataView { // lies inside a larger buffer, with a full message's worth of slack around it
  const pad = 3 + off * 0; const big = new Uint8Array(d.length + pad + 64); big.fill(0x55); big.set(d, pad); return new DataView(big.buffer, pad, d.length); }
function nameOf(m: any) { for (const n of Object.keys(IDS)) if (m instanceof K[n]) return n; return "?"; }
function ot(m: any) { const n = nameOf(m); o += " " + n; if (m.getMessageType() !== IDS[n]) o += " BADTYPE"; OUT[n](m); }
function one() {
  const c = tok();
  if (c == "W") { const t = tok(); const tag = vU() != 0; const off = vU(); const m = PUT[t](); const z = m.getSizeInBytes(); const cap = off + z + (tag ? 1 : 0);
    const big = new Uint8Array(cap + 35); big.fill(0xAA); const v = new DataView(big.buffer, 3, cap); const da = new K.DataAccess(v); da.currentOffset = off; m.writeBytes(da, tag);
    const bad = [...big.slice(0, 3), ...big.slice(3 + cap)].some(x => x != 0xAA); o += bad ? "ERR wrote outside" : "OK " + z + " " + da.currentOffset; oh(big.slice(3, 3 + cap)); }
  else if (c == "R") { const t = tok(); const off = vU(); const d = vH(); const da = new K.DataAccess(view(off, d)); da.currentOffset = off; const m = K[t].fromBytes(da); o += "OK " + (da.currentOffset - off); OUT[t](m); }
  else if (c == "S" || c == "U") { const off = vU(); const mx = c == "S" ? vU() : 0; const d = vH(); const da = new K.DataAccess(view(off, d)); da.currentOffset = off; const l = c == "S" ? K.ProcessRawBytes(da, mx) : K.UnpackMessages(da); o += "OK " + da.currentOffset + " " + l.length; for (const m of l) ot(m); }
  else if (c == "P") { const off = vU(); const n = vU(); const l: any[] = []; for (let i = 0; i < n; i++) l.push(PUT[tok()]()); const z = K.GetPackedSize(l); const cap = off + z; const big = new Uint8Array(cap + 35); big.fill(0xAA); const da = new K.DataAccess(new DataView(big.buffer, 3, cap)); da.currentOffset = off; K.PackMessages(l, da);
    const bad = [...big.slice(0, 3), ...big.slice(3 + cap)].some(x => x != 0xAA); o += bad ? "ERR wrote outside" : "OK " + z + " " + da.currentOffset; oh(big.slice(3, 3 + cap)); }
  else if (c == "E") { o += "OK"; for (const [e, v] of ENUMS) o += " " + K[e][v]; }
  else if (c == "D") { const t = tok(); const m = new K[t](); o += "OK " + m.getMessageType(); OUT[t](m); const z = m.getSizeInBytes(); o += " | " + z; const b = new Uint8Array(z); m.writeBytes(new DataView(b.buffer), false); oh(b); }
}
const rl = readline.createInterface({ input: process.stdin, crlfDelay: Infinity });
rl.on("line", (line: string) => { T = line.split(" ").filter(x => x.length); ti = 0; o = ""; try { one(); } catch (e: any) { o = "ERR " + String(e && e.message || e).replace(/\n/g, " "); } process.stdout.write(o + "\n"); });
'''
        return {"k.ts": text, "main.ts": s}

    def build(self, d):
        r = run(["/opt/veriftools/node/node_modules/.bin/esbuild", "main.ts", "--bundle", "--platform=node", "--target=node22", "--outfile=drv.js", "--log-level=error"], d)
        if r.returncode:
            raise BuildError(r.stderr[:3000])

    def argv(self, d):
        return ["node", "--stack-size=2000", os.path.join(d, "drv.js")]
    envx = {}
