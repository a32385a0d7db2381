// Runs AssemblyScript text, as front/ts/main.js parses it, with AssemblyScript's semantics: machine numbers, traps for null and out-of-range, arrays that grow by one.
// There is no AssemblyScript compiler here; this stands in for it.  A construct it does not know ends the answer with "UNKNOWN".
const B = (t, v) => ({ t, v });
const W = { u8: 8, i8: 8, u16: 16, i16: 16, u32: 32, i32: 32, u64: 64, i64: 64 };
const big = BigInt;
class Trap extends Error {}
class Unknown extends Error {}
const trap = m => { throw new Trap(m); };
const unk = m => { throw new Unknown(m); };
const wrap = (v, t) => t[0] === "u" ? BigInt.asUintN(W[t], v) : BigInt.asIntN(W[t], v);
const dvv = new DataView(new ArrayBuffer(8));
const f32of = b => (dvv.setUint32(0, Number(b)), dvv.getFloat32(0));
const f64of = b => (dvv.setBigUint64(0, b), dvv.getFloat64(0));
const bits32 = x => (dvv.setFloat32(0, x), big(dvv.getUint32(0)));
const bits64 = x => (dvv.setFloat64(0, x), dvv.getBigUint64(0));
const fval = x => x.t === "f32" ? f32of(x.v) : f64of(x.v);
const isN = x => x !== null && typeof x === "object" && x.t !== undefined && "v" in x;
const isInt = x => isN(x) && (x.t in W || x.t === "lit");
const isF = x => isN(x) && (x.t === "f32" || x.t === "f64");
const mkf = (t, x) => B(t, t === "f32" ? bits32(x) : bits64(x));

function load(mod) {
  const M = mod, enums = {}, env0 = new Map();
  const sig = { ret: 1 };
  function under(t) {
    while (typeof t === "string" && M.types[t] && M.types[t].kind === "alias") t = M.types[t].t;
    if (Array.isArray(t) && t[0] === "union") { const ts = t.slice(1).filter(x => x !== "literal" && x !== "null"); return ts.length === 1 ? under(ts[0]) : t; }
    if (t === "usize") return "u32";
    if (t === "isize") return "i32";
    if (t === "boolean") return "bool";
    if (t === "number") return "f64";
    if (typeof t === "string" && M.types[t] && M.types[t].kind === "enum") return "i32";
    return t;
  }
  function zero(t) {
    const u = under(t);
    if (u in W) return B(u, 0n);
    if (u === "bool") return false;
    if (u === "f32" || u === "f64") return B(u, 0n);
    return null;
  }
  const settle = v => isN(v) && v.t === "lit" ? B(v.v >= -(1n << 31n) && v.v < (1n << 31n) ? "i32" : "i64", v.v) : isN(v) && v.t === "flit" ? mkf("f64", v.v) : v;
  function coerce(v, t) {
    if (t === null || t === undefined) return settle(v);
    const u = under(t);
    if (isN(v) && v.t === "flit") return mkf(u === "f32" ? "f32" : "f64", v.v);
    if (u in W) {
      if (typeof v === "boolean") return B(u, v ? 1n : 0n);
      if (isInt(v)) return B(u, wrap(v.v, u));
      if (isF(v)) { const x = fval(v); if (Number.isNaN(x)) return B(u, 0n); const lo = u[0] === "u" ? 0n : -(1n << big(W[u] - 1)), hi = (1n << big(W[u] - (u[0] === "i" ? 1 : 0))) - 1n; const y = Number.isFinite(x) ? big(Math.trunc(x)) : x > 0 ? hi : lo; return B(u, y < lo ? lo : y > hi ? hi : y); }
      unk("conversion to " + u);
    }
    if (u === "bool") { if (typeof v === "boolean") return v; if (isInt(v)) return v.v !== 0n; if (isF(v)) return fval(v) !== 0; return v; }
    if (u === "f32" || u === "f64") {
      if (typeof v === "boolean") return mkf(u, v ? 1 : 0);
      if (isInt(v)) return mkf(u, Number(v.v));
      if (isF(v)) return v.t === u ? v : mkf(u, fval(v));
    }
    if (Array.isArray(u) && u[0] === "array" && v && v.arr && v.et === undefined) { v.et = u[1]; v.arr = v.arr.map(x => coerce(x, u[1])); }
    return settle(v);
  }
  function common(a, b) {
    if (isN(a) && a.t === "flit" || isN(b) && b.t === "flit") { const t = isF(a) ? a.t : isF(b) ? b.t : "f64"; return [coerce(a, t), coerce(b, t)]; }
    if (typeof a === "boolean") a = B("u8", a ? 1n : 0n);
    if (typeof b === "boolean") b = B("u8", b ? 1n : 0n);
    if (isF(a) || isF(b)) { const t = isF(a) && isF(b) ? (a.t === "f64" || b.t === "f64" ? "f64" : "f32") : isF(a) ? a.t : b.t; return [coerce(a, t), coerce(b, t)]; }
    if (a.t === b.t) return [a, b];
    if (a.t === "lit") { const w = wrap(a.v, b.t); return w === a.v || a.v < 0n ? [B(b.t, w), b] : [settle(a), coerce(b, settle(a).t)]; }
    if (b.t === "lit") { const [y, x] = common(b, a); return [x, y]; }
    const t = W[a.t] > W[b.t] ? a.t : W[b.t] > W[a.t] ? b.t : "u" + W[a.t];
    return [B(t, wrap(a.v, t)), B(t, wrap(b.v, t))];
  }
  const truth = v => typeof v === "boolean" ? v : isInt(v) ? v.v !== 0n : isF(v) ? fval(v) !== 0 : typeof v === "string" ? v.length > 0 : v !== null && v !== undefined;
  function same(a, b) {
    if (a === null || b === null) return a === b;
    if ((isN(a) || typeof a === "boolean") && (isN(b) || typeof b === "boolean")) { const [x, y] = common(a, b); return isF(x) ? fval(x) === fval(y) : x.v === y.v; }
    return a === b;
  }
  function bin(o, a, b) {
    if (o === "==" || o === "===") return same(a, b);
    if (o === "!=" || o === "!==") return !same(a, b);
    if (o === "+" && typeof a === "string" && typeof b === "string") return a + b;
    if (!(isN(a) || typeof a === "boolean") || !(isN(b) || typeof b === "boolean")) unk("operator " + o);
    if (o === "<<" || o === ">>" || o === ">>>") {
      a = settle(typeof a === "boolean" ? B("u8", a ? 1n : 0n) : a); if (!isInt(a)) unk("shift");
      const n = coerce(b, "u64").v % big(W[a.t]);
      return B(a.t, wrap(o === "<<" ? a.v << n : o === ">>" ? a.v >> n : BigInt.asUintN(W[a.t], a.v) >> n, a.t));
    }
    if (typeof a === "boolean" && typeof b === "boolean" && "&|^".includes(o)) return o === "&" ? a && b : o === "|" ? a || b : a !== b;
    let [x, y] = common(a, b);
    if (isF(x)) {
      const p = fval(x), q = fval(y);
      switch (o) { case "<": return p < q; case "<=": return p <= q; case ">": return p > q; case ">=": return p >= q;
        case "+": return mkf(x.t, p + q); case "-": return mkf(x.t, p - q); case "*": return mkf(x.t, p * q); case "/": return mkf(x.t, p / q); }
      unk("operator " + o);
    }
    const p = x.v, q = y.v, r = v => x.t === "lit" ? B("lit", v) : B(x.t, wrap(v, x.t));
    switch (o) {
      case "<": return p < q; case "<=": return p <= q; case ">": return p > q; case ">=": return p >= q;
      case "+": return r(p + q); case "-": return r(p - q); case "*": return r(p * q);
      case "/": if (q === 0n) trap("division by zero"); return r(p / q);
      case "%": if (q === 0n) trap("division by zero"); return r(p % q);
      case "&": return r(p & q); case "|": return r(p | q); case "^": return r(p ^ q);
    }
    unk("operator " + o);
  }
  // ---- variables: a chain of scopes
  class Scope { constructor(up) { this.m = new Map(); this.up = up; } find(n) { for (let s = this; s; s = s.up) if (s.m.has(n)) return s.m; return null; } }
  const isA = (c, b) => { for (let x = c; x; x = M.types[x] && M.types[x].ext) if (x === b) return true; return false; };
  function method(c, n) { for (let x = c; x; x = M.types[x] && M.types[x].ext) if (M.methods[x + "." + n]) return M.methods[x + "." + n]; return null; }
  function fieldsOf(c) { const ch = []; for (let x = c; x; x = M.types[x] && M.types[x].ext) ch.unshift(x); return [].concat(...ch.map(x => M.types[x].fields)); }
  function create(c, args) {
    const o = { cls: c, f: {}, ft: {} };
    for (const f of fieldsOf(c)) { o.ft[f.n] = f.t; o.f[f.n] = f.x ? coerce(ev(f.x, new Scope(null)), f.t) : zero(f.t); }
    const k = method(c, "constructor");
    if (k) callFn(k, args, o);
    return o;
  }
  let depth = 0;
  function callFn(fn, args, self) {
    if (++depth > 900) { depth = 0; trap("stack"); }
    const s = new Scope(null);
    if (self !== undefined) s.m.set("this", { v: self });
    fn.params.forEach((p, i) => { const a = i < args.length ? args[i] : p.d ? ev(p.d, s) : unk("missing argument"); s.m.set(p.n, { v: coerce(a, p.t), t: p.t }); if (p.prop) self.f[p.n] = coerce(a, p.t); });
    const r = run(fn.body, new Scope(s));
    depth--;
    return r && r.k === "return" ? fn.ret === "void" ? undefined : coerce(r.v, fn.ret) : undefined;
  }
  function enumVal(t, n) {
    if (!enums[t]) { enums[t] = {}; let nx = 0n; for (const [m, x] of M.types[t].members) { const v = x ? coerce(ev(x, new Scope(null)), "i32").v : nx; enums[t][m] = v; nx = v + 1n; } }
    if (!(n in enums[t])) unk("enum member " + n);
    return B("i32", enums[t][n]);
  }
  const u8 = x => isInt(x) ? Number(BigInt.asUintN(8, x.v)) : unk("byte");
  const at = (i, n) => { const k = coerce(i, "i32").v; if (k < 0n || k >= big(n)) trap("index out of range"); return Number(k); };
  function get(o, n) {
    if (o === null) trap("null reference");
    if (o instanceof Uint8Array && (n === "length" || n === "byteLength")) return B("i32", big(o.length));
    if (o instanceof Uint8Array && n === "byteOffset") return B("i32", 0n);
    if (o instanceof Uint8Array && n === "buffer") return o;
    if (o && o.dv && (n === "byteLength" || n === "byteOffset")) return B("i32", big(n === "byteLength" ? o.len : o.off));
    if (o && o.dv && n === "buffer") unk("buffer");
    if (o && o.arr && n === "length") return B("i32", big(o.arr.length));
    if (typeof o === "string" && n === "length") return B("i32", big(o.length));
    if (o && o.cls) { if (n in o.f) return o.f[n]; const g = method(o.cls, "get " + n); if (g) return callFn(g, [], o); }
    unk("member " + n);
  }
  const chain = e => e.k === "var" ? e.n : e.k === "field" ? (chain(e.x) === null ? null : chain(e.x) + "." + e.n) : null;
  function ev(e, s) {
    switch (e.k) {
      case "int": return B("lit", big(e.v));
      case "flt": return B("flit", Number(e.v));
      case "bool": return e.v;
      case "str": return e.v;
      case "null": return null;
      case "paren": return ev(e.x, s);
      case "tpl": e.els.forEach(x => ev(x, s)); return "?";
      case "var": { const m = s.find(e.n); if (m) return m.get(e.n).v;
        if (M.consts[e.n]) return coerce(ev(M.consts[e.n].x, new Scope(null)), M.consts[e.n].t);
        unk("name " + e.n); }
      case "as": return coerce(ev(e.x, s), e.t);
      case "nonnull": { const v = ev(e.x, s); if (v === null) trap("null"); return v; }
      case "field": {
        if (e.x.k === "var" && !s.find(e.x.n)) {
          const t = M.types[e.x.n];
          if (t && t.kind === "enum") return enumVal(e.x.n, e.n);
          const c = M.consts[e.x.n + "." + e.n]; if (c) return coerce(ev(c.x, new Scope(null)), c.t);
          const u = under(e.x.n);
          if (u in W && e.n === "MAX_VALUE") return B(u, u[0] === "u" ? (1n << big(W[u])) - 1n : (1n << big(W[u] - 1)) - 1n);
          if (u in W && e.n === "MIN_VALUE") return B(u, u[0] === "u" ? 0n : -(1n << big(W[u] - 1)));
        }
        return get(ev(e.x, s), e.n);
      }
      case "index": {
        const o = ev(e.x, s), i = ev(e.i, s);
        if (o === null) trap("null reference");
        if (o instanceof Uint8Array) return B("u8", big(o[at(i, o.length)]));
        if (o && o.arr) return o.arr[at(i, o.arr.length)];
        unk("index");
      }
      case "arr": { const a = { arr: e.els.map(x => ev(x, s)), et: undefined }; return a; }
      case "cond": return truth(ev(e.c, s)) ? ev(e.x, s) : ev(e.y, s);
      case "un": {
        const v = ev(e.x, s);
        if (e.o === "!") return !truth(v);
        if (e.o === "+") return v;
        if (isN(v) && v.t === "flit") return e.o === "-" ? B("flit", -v.v) : unk("operator");
        if (isInt(v)) { const r = e.o === "-" ? -v.v : ~v.v; return v.t === "lit" ? B("lit", r) : B(v.t, wrap(r, v.t)); }
        if (isF(v) && e.o === "-") return mkf(v.t, -fval(v));
        unk("operator " + e.o);
      }
      case "inc": { const v = ev(e.x, s), w = bin(e.o[0], v, B("lit", 1n)); set(e.x, w, s); return e.pre ? w : v; }
      case "asg": { const v = e.o === "=" ? ev(e.r, s) : bin(e.o.slice(0, -1), ev(e.l, s), ev(e.r, s)); set(e.l, v, s); return v; }
      case "bin": {
        if (e.o === "&&") { const a = ev(e.x, s); return truth(a) ? ev(e.y, s) : a; }
        if (e.o === "||") { const a = ev(e.x, s); return truth(a) ? a : ev(e.y, s); }
        return bin(e.o, ev(e.x, s), ev(e.y, s));
      }
      case "instanceof": { const v = ev(e.x, s); return !!(v && v.cls && isA(v.cls, e.t)); }
      case "newx": {
        const a = e.a.map(x => ev(x, s)), n = e.n;
        if (M.types[n] && M.types[n].kind === "struct") return create(n, a);
        if (n === "Error" || n === "RangeError") return { cls: "Error", f: { message: a[0] }, ft: {} };
        if (n === "Uint8Array") { const k = coerce(a[0], "i32").v; if (k < 0n || k >= 1n << 30n) trap("length"); return new Uint8Array(Number(k)); }
        if (n === "ArrayBuffer") { const k = coerce(a[0], "i32").v; if (k < 0n || k >= 1n << 30n) trap("length"); return new Uint8Array(Number(k)); }
        if (n === "Array" || n === "StaticArray") { const t = (e.ta || [])[0]; const k = a.length ? coerce(a[0], "i32").v : 0n; if (k < 0n || k > 1n << 28n) trap("length"); if (k > 1n << 22n) unk("a huge array"); return { arr: Array.from({ length: Number(k) }, () => zero(t)), et: t, st: n === "StaticArray" }; }
        if (n === "DataView") { const b = a[0]; if (!(b instanceof Uint8Array)) unk("view"); const off = a[1] === undefined ? 0 : Number(coerce(a[1], "i32").v), len = a[2] === undefined ? b.length - off : Number(coerce(a[2], "i32").v); if (off < 0 || len < 0 || off + len > b.length) trap("view"); return { dv: b, off, len }; }
        unk("new " + n);
      }
      case "call": return call(e, s);
      case "lam": return { fn: e.fn };
    }
    unk("expression " + e.k);
  }
  function set(l, v, s) {
    while (l.k === "paren" || l.k === "nonnull" || l.k === "as") l = l.x;
    if (l.k === "var") { const m = s.find(l.n); if (!m) unk("name " + l.n); const q = m.get(l.n); q.v = q.t ? coerce(v, q.t) : like(v, q.v); return; }
    if (l.k === "field") { const o = ev(l.x, s); if (o === null) trap("null reference"); if (!(o && o.cls && l.n in o.f)) unk("store"); o.f[l.n] = coerce(v, o.ft[l.n]); return; }
    if (l.k === "index") {
      const o = ev(l.x, s), i = coerce(ev(l.i, s), "i32").v;
      if (o === null) trap("null reference");
      if (o instanceof Uint8Array) { o[at(B("i32", i), o.length)] = u8(v); return; }
      if (o && o.arr) { if (i < 0n || i > big(o.arr.length) && i >= 1n << 20n || o.st && i >= big(o.arr.length)) trap("store out of range");
        const z = zero(o.et); if (i > big(o.arr.length) && z === null) trap("a hole of references"); while (big(o.arr.length) < i) o.arr.push(z);
        o.arr[Number(i)] = coerce(v, o.et); return; }
    }
    unk("store");
  }
  const like = (v, old) => isN(old) && old.t in W && (isInt(v) || typeof v === "boolean") ? coerce(v, old.t) : isF(old) && isN(v) ? coerce(v, old.t) : settle(v);
  const DV = { Int8: [1, "i8"], Uint8: [1, "u8"], Int16: [2, "i16"], Uint16: [2, "u16"], Int32: [4, "i32"], Uint32: [4, "u32"], Int64: [8, "i64"], Uint64: [8, "u64"], Float32: [4, "f32"], Float64: [8, "f64"] };
  function dataview(d, n, a) {
    const q = DV[n.slice(3)]; if (!q) unk("DataView." + n);
    const [w, t] = q, get = n.startsWith("get"), o = coerce(a[0], "i32").v;
    if (o < 0n || o + big(w) > big(d.len)) trap("DataView access out of range");
    const p = d.off + Number(o), le = w === 1 || truth(a[get ? 1 : 2] === undefined ? false : a[get ? 1 : 2]);
    if (get) { let v = 0n; for (let k = 0; k < w; k++) v |= big(d.dv[p + (le ? k : w - 1 - k)]) << big(8 * k); return t[0] === "f" ? B(t, v) : B(t, wrap(v, t)); }
    let v = BigInt.asUintN(8 * w, coerce(a[1], t).v);
    for (let k = 0; k < w; k++) d.dv[p + (le ? k : w - 1 - k)] = Number((v >> big(8 * k)) & 255n);
    return undefined;
  }
  // texts are JS strings of code units; UTF-8 both ways like the runtime's (a lone surrogate is three bytes)
  function utf8(x) { const o = []; for (let i = 0; i < x.length; i++) { let c = x.charCodeAt(i); if (c >= 0xd800 && c < 0xdc00 && i + 1 < x.length) { const d = x.charCodeAt(i + 1); if (d >= 0xdc00 && d < 0xe000) { c = 0x10000 + ((c & 0x3ff) << 10) + (d & 0x3ff); i++; } }
    if (c < 0x80) o.push(c); else if (c < 0x800) o.push(0xc0 | c >> 6, 0x80 | c & 63); else if (c < 0x10000) o.push(0xe0 | c >> 12, 0x80 | c >> 6 & 63, 0x80 | c & 63); else o.push(0xf0 | c >> 18, 0x80 | c >> 12 & 63, 0x80 | c >> 6 & 63, 0x80 | c & 63); } return Uint8Array.from(o); }
  function text(b) { let r = "", i = 0; while (i < b.length) { const c = b[i++]; if (c < 0x80) r += String.fromCharCode(c); else { if (i >= b.length) break; const c1 = b[i++] & 63; if ((c & 224) === 192) r += String.fromCharCode((c & 31) << 6 | c1); else { if (i >= b.length) break; const c2 = b[i++] & 63; let p; if ((c & 240) === 224) p = (c & 15) << 12 | c1 << 6 | c2; else { if (i >= b.length) break; p = (c & 7) << 18 | c1 << 12 | c2 << 6 | b[i++] & 63; } r += p < 0x10000 ? String.fromCharCode(p) : String.fromCodePoint(Math.min(p, 0x10ffff)); } } } return r; }
  function glob(n, a, e) {
    switch (n) {
      case "String.UTF8.encode": { const b = utf8(a[0]); return a[1] ? Uint8Array.from([...b, 0]) : b; }
      case "String.UTF8.byteLength": return B("i32", big(utf8(a[0]).length + (a[1] ? 1 : 0)));
      case "String.UTF8.decode": { let b = a[0]; if (a[1]) { const z = b.indexOf(0); if (z >= 0) b = b.subarray(0, z); } return text(b); }
      case "Uint8Array.wrap": { const off = a[1] === undefined ? 0 : Number(coerce(a[1], "i32").v), len = a[2] === undefined ? a[0].length - off : Number(coerce(a[2], "i32").v); if (off < 0 || len < 0 || off + len > a[0].length) trap("wrap"); return a[0].subarray(off, off + len); }
      case "min": case "max": { const [x, y] = common(a[0], a[1]); const lt = isF(x) ? fval(x) < fval(y) : x.v < y.v; return (n === "min") === lt ? x : y; }
      case "assert": if (!truth(a[0])) trap("assertion"); return a[0];
    }
    const u = under(n); if (u in W || u === "f32" || u === "f64" || u === "bool") return coerce(a[0], u);
    unk("call of " + n);
  }
  function call(e, s) {
    const f = e.f;
    if (f.k === "var") {
      const m = s.find(f.n), a = e.a.map(x => ev(x, s));
      if (m && m.get(f.n).v && m.get(f.n).v.fn) return callFn(m.get(f.n).v.fn, a);
      if (M.funcs[f.n]) return callFn(M.funcs[f.n], a);
      return glob(f.n, a, e);
    }
    if (f.k === "field") {
      const c = chain(f);
      if (c !== null && !s.find(c.split(".")[0])) {
        let [t, n] = [c.slice(0, c.lastIndexOf(".")), c.slice(c.lastIndexOf(".") + 1)];
        for (let x = t; x; x = M.types[x] && M.types[x].ext) if (M.funcs[x + "." + n]) return callFn(M.funcs[x + "." + n], e.a.map(y => ev(y, s)));
        if (!M.consts[c.split(".")[0]]) return glob(c, e.a.map(x => ev(x, s)), e);
      }
      const o = ev(f.x, s), n = f.n, a = e.a.map(x => ev(x, s));
      if (o === null) trap("null reference");
      if (o && o.dv) return dataview(o, n, a);
      if (o && o.arr && n === "push") { a.forEach(x => o.arr.push(coerce(x, o.et))); return B("i32", big(o.arr.length)); }
      if (o instanceof Uint8Array && n === "set") { const k = a[1] ? Number(coerce(a[1], "i32").v) : 0; const x = a[0]; if (k < 0 || k + x.length > o.length) trap("set"); o.set(x, k); return undefined; }
      if (o instanceof Uint8Array && (n === "subarray" || n === "slice")) { return o[n](...a.map(x => Number(coerce(x, "i32").v))); }
      if (isN(o) && n === "toString") return "?";
      if (o && o.cls) { const m = method(o.cls, n); if (m) return callFn(m, a, o); }
      unk("method " + n);
    }
    unk("call");
  }
  class Thrown extends Trap {}
  function run(ss, s) {
    for (const x of ss) { const r = one(x, s); if (r) return r; }
    return null;
  }
  function loop(r, label) { // what a body's outcome means for the loop: null to go on, else [outcome]
    if (!r) return null;
    if (r.k === "break" && (!r.label || r.label === label)) return [null];
    if (r.k === "continue" && (!r.label || r.label === label)) return null;
    return [r];
  }
  function one(x, s) {
    switch (x.k) {
      case "decl": if (x.ns) unk("binding"); { const v = x.x ? coerce(ev(x.x, s), x.t) : zero(x.t); s.m.set(x.n, { v, t: x.t || (isN(v) ? v.t : null) }); } return null;
      case "expr": ev(x.x, s); return null;
      case "block": { const r = run(x.b, new Scope(s)); return r && r.k === "break" && x.label && r.label === x.label ? null : r; }
      case "if": return truth(ev(x.c, s)) ? run(x.a, new Scope(s)) : x.b ? run(x.b, new Scope(s)) : null;
      case "return": return { k: "return", v: x.x ? ev(x.x, s) : undefined };
      case "throw": ev(x.x, s); throw new Thrown("throws");
      case "break": case "continue": return { k: x.k, label: x.label };
      case "while": {
        const q = new Scope(s); if (x.init) run(x.init, q);
        let first = x.do;
        while (first || !x.c || truth(ev(x.c, q))) { first = false; tick(); const r = loop(run(x.b, new Scope(q)), x.label); if (r) return r[0]; if (x.step) x.step.forEach(y => ev(y, q)); }
        return null;
      }
      case "foreach": unk("for-of");
      case "switch": {
        const v = ev(x.x, s); let b = x.default;
        for (const c of x.cases) if (c.v.some(y => same(v, ev(y, s)))) { b = c.b; break; }
        if (!b) return null;
        const r = run(b, new Scope(s)); return r && r.k === "break" && !r.label ? null : r;
      }
    }
    unk("statement " + x.k);
  }
  let ticks = 0;
  function tick() { if (++ticks > 4000000) { ticks = 0; trap("does not end"); } }
  return { M, ev, create, callFn, method, enumVal, coerce, zero, settle, truth, text, utf8, under, f64: x => mkf("f64", x), reset: () => { ticks = 0; depth = 0; }, has: n => n in M.funcs };
}
module.exports = { load, Trap, Unknown, B, isN };

// ---- the driver: one command a line, one answer a line (see harness/bounded.py)
if (require.main === module) {
  const fs = require("fs"), { mod, proto } = JSON.parse(fs.readFileSync(process.argv[2], "utf-8"));
  const R = load(mod), P = proto, M = mod;
  const MACH = { byte: "u8", bool: "bool", int16: "i16", uint16: "u16", int32: "i32", uint32: "u32", int64: "i64", uint64: "u64", float: "f32", double: "f64" };
  let T = [], ti = 0, o = "";
  const tok = () => T[ti++], U = () => Number(tok()), H = () => Uint8Array.from(Buffer.from(tok().slice(1), "hex"));
  const oh = b => { o += " s" + Buffer.from(b).toString("hex"); };
  const st = t => P.structs[t] || P.messages[t];
  function put(t) {
    if (t === "string") return R.text(H());
    if (t === "bool") return tok() !== "0";
    if (t in MACH) return B(MACH[t], BigInt(tok()));
    if (t in P.enums) return B("i32", BigInt(tok()));
    const d = R.create(t, []);
    for (const [n, mt, l] of st(t)) { if (l) { const k = U(), a = { arr: [], et: d.ft[n] && R.under(d.ft[n])[1] }; for (let i = 0; i < k; i++) a.arr.push(put(mt)); d.f[n] = a; } else d.f[n] = put(mt); }
    return d;
  }
  function out(t, v) {
    if (t === "string") return oh(R.utf8(v));
    if (t === "bool") { o += v === true ? " 1" : v === false ? " 0" : " ?"; return; }
    if (t in MACH || t in P.enums) { o += isN(v) && v.t === (MACH[t] || "i32") ? " " + v.v : " ?"; return; }
    for (const [n, mt, l] of st(t)) { const x = v.f[n]; if (l) { o += " " + x.arr.length; for (const y of x.arr) out(mt, y); } else out(mt, x); }
  }
  const DA = (d, off) => { const v = { dv: d.b, off: 3, len: d.n }; const a = R.create("DataAccess", [v]); a.f.currentOffset = R.coerce(B("lit", BigInt(off)), a.ft.currentOffset); return a; };
  const pad = (d, n) => { const b = new Uint8Array(3 + n + 35).fill(0xAA); if (d) b.set(d, 3); return { b, n }; };
  const outside = w => w.b.slice(0, 3).some(x => x !== 0xAA) || w.b.slice(3 + w.n).some(x => x !== 0xAA);
  const call = (n, a) => R.callFn(M.funcs[n], a), meth = (v, n, a) => R.callFn(R.method(v.cls, n) || (() => { throw new Unknown("method " + n); })(), a, v);
  const num = v => Number(R.settle(v).v);
  const msgs = l => { for (const m of l.arr) { o += " " + m.cls; const id = P.ids[m.cls]; if (num(meth(m, "getMessageType", [])) !== id) o += " BADTYPE"; out(m.cls, m); } };
  function one() {
    const c = tok();
    if (c === "W") { const t = tok(), tag = U() !== 0, off = U(), m = put(t), z = num(meth(m, "getSizeInBytes", [])), w = pad(null, off + z + (tag ? 1 : 0)), da = DA(w, off); const r = meth(m, "writeBytesDA", [da, tag]);
      o += !R.truth(r) ? "ERR refused" : outside(w) ? "ERR wrote outside" : "OK " + z + " " + num(da.f.currentOffset); oh(w.b.slice(3, 3 + w.n)); }
    else if (c === "R") { const t = tok(), off = U(), d = H(), da = DA(pad(d, d.length), off), m = call(t + ".fromBytesDA", [da]); if (m === null) o = "ERR null"; else { o += "OK " + (num(da.f.currentOffset) - off); out(t, m); } }
    else if (c === "S") { const off = U(), mx = U(), d = H(), da = DA(pad(d, d.length), off), l = call("ProcessRawBytesDA", [da, R.f64(mx)]); o += "OK ? " + l.arr.length; msgs(l); }
    else if (c === "U") { const off = U(), d = H(), l = call("UnpackMessages", [{ dv: d, off, len: d.length - off }]); o += "OK ? " + l.arr.length; msgs(l); }
    else if (c === "P") { const off = U(), n = U(), l = { arr: [], et: "Message" }; for (let i = 0; i < n; i++) l.arr.push(put(tok())); const z = num(call("GetPackedSize", [l])), w = pad(null, off + z); call("PackMessages", [l, { dv: w.b, off: 3 + off, len: z }]); o += outside(w) ? "ERR wrote outside" : "OK " + z + " " + (off + z); oh(w.b.slice(3, 3 + w.n)); }
    else if (c === "E") { o += "OK"; for (const [e, v] of P.consts) o += " " + R.enumVal(e, v).v; }
    else if (c === "D") { const t = tok(), m = R.create(t, []); o += "OK " + num(meth(m, "getMessageType", [])); out(t, m); const z = num(meth(m, "getSizeInBytes", [])); o += " | " + z; const w = pad(null, z), da = DA(w, 0); meth(m, "writeBytesDA", [da, false]); oh(w.b.slice(3, 3 + z)); }
  }
  const rl = require("readline").createInterface({ input: process.stdin, crlfDelay: Infinity });
  rl.on("line", line => { T = line.split(" ").filter(x => x.length); ti = 0; o = ""; R.reset();
    try { one(); } catch (e) { o = e instanceof Trap ? "ERR trap " + e.message : e instanceof Unknown ? "UNKNOWN " + e.message : "UNKNOWN internal " + String(e && e.message || e).replace(/\n/g, " "); }
    process.stdout.write(o + "\n"); });
}
