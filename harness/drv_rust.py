import os
from .common import *
from spec.proto import NUM, SIZES
RT = {"byte": "u8", "bool": "bool", "uint16": "u16", "int16": "i16", "uint32": "u32", "int32": "i32", "uint64": "u64", "int64": "i64",
      "float": "f32", "double": "f64"}


class L:
    name = "rust"

    def __init__(self, p, opts=None):
        self.p, self.opts = p, opts or {}

    def mn(self, n):
        return n if self.opts.get("rust_no_rename") else snake(n)

    def put(self, t):
        k = self.p.kind(t)
        if t == "float":
            return "f32::from_bits(v.u() as u32)"
        if t == "double":
            return "f64::from_bits(v.u())"
        if t == "bool":
            return "(v.u() != 0)"
        if k == "num":
            return f"(v.{'i' if NUM[t][1] else 'u'}() as {RT[t]})"
        if k == "enum":
            e = RT[self.p.enums[t].encoding]
            return f"k::{t}::try_from(v.i() as {e}).unwrap()"
        if k == "string":
            return "v.s()"
        return f"put_{t}(v)"

    def out(self, t, e):
        k = self.p.kind(t)
        if t in ("float", "double"):
            return f"o.push_str(&format!(\" {{}}\", {e}.to_bits()));"
        if t == "bool":
            return f"o.push_str(&format!(\" {{}}\", {e} as u8));"
        if k == "num":
            return f"o.push_str(&format!(\" {{}}\", {e}));"
        if k == "enum":
            return f"o.push_str(&format!(\" {{}}\", {e} as i64));"
        if k == "string":
            return f"hx(o, {e}.as_bytes());"
        return f"out_{t}(&{e}, o);"

    def sources(self, text):
        p = self.p
        s = r'''#![allow(warnings)]
#[path = "k.rs"] mod k;
use k::*;
use std::io::{BufRead, Write};
struct V<'a> { it: std::str::SplitWhitespace<'a> }
impl<'a> V<'a> {
  fn t(&mut self) -> &'a str { self.it.next().unwrap() }
  fn u(&mut self) -> u64 { self.t().parse().unwrap() }
  fn i(&mut self) -> i64 { self.t().parse().unwrap() }
  fn h(&mut self) -> Vec<u8> { let s = &self.t()[1..]; (0..s.len()/2).map(|i| u8::from_str_radix(&s[2*i..2*i+2], 16).unwrap()).collect() }
  fn s(&mut self) -> String { String::from_utf8(self.h()).unwrap() }
}
fn hx(o: &mut String, b: &[u8]) { o.push_str(" s"); for x in b { o.push_str(&format!("{:02x}", x)); } }
'''
        for n, st in list(p.structs.items()) + list(p.messages.items()):
            a, b = f"fn put_{n}(v: &mut V) -> k::{n} {{\n  let mut d = k::{n}::default();\n", f"fn out_{n}(s: &k::{n}, o: &mut String) {{\n"
            for m, t, l in st.members:
                f = self.mn(m)
                if l:
                    a += f"  let n = v.u(); d.{f} = Vec::new(); for _ in 0..n {{ let x = {self.put(t)}; d.{f}.push(x); }}\n"
                    b += f"  o.push_str(&format!(\" {{}}\", s.{f}.len())); for i in 0..s.{f}.len() {{ {self.out(t, f's.{f}[i]')} }}\n"
                else:
                    a += f"  d.{f} = {self.put(t)};\n"
                    b += f"  {self.out(t, f's.{f}')}\n"
            s += a + "  d }\n" + b + "}\n"
        msgs = list(p.messages)
        s += "fn mk(t: &str, v: &mut V) -> Message { match t {\n" + "".join(f'  "{n}" => Message::{n}(put_{n}(v)),\n' for n in msgs) + "  _ => panic!(\"no msg\") } }\n"
        s += "fn ot(m: &Message, o: &mut String) { match m {\n" + "".join(f'  Message::{n}(x) => {{ o.push_str(" {n}"); out_{n}(x, o); match x.get_message_type() {{ MessageType::{n} => (), _ => o.push_str(" BADTYPE") }} }}\n' for n in msgs) + ("  _ => ()\n" if not msgs else "") + "  } }\n"
        s += "fn rd(t: &str, r: &mut BufferReader, o: &mut String, off: usize) { match t {\n" + "".join(f'  "{n}" => match k::{n}::from_bytes(r) {{ Err(e) => o.push_str(&format!("ERR {{:?}}", e)), Ok(m) => {{ o.push_str(&format!("OK {{}}", r.current_position - off)); out_{n}(&m, o); }} }},\n' for n in msgs) + "  _ => () } }\n"
        s += "fn cs(o: &mut String) { o.push_str(\"OK\"); " + " ".join(f'o.push_str(&format!(" {{}}", k::{e}::{v} as i64));' for e, en in p.enums.items() for v, _ in en.values) + " }\n"
        s += "fn df(t: &str, o: &mut String) { match t {\n" + "".join(f'  "{n}" => {{ let m = k::{n}::default(); o.push_str("OK {i+1}"); out_{n}(&m, o); o.push_str(&format!(" | {{}}", m.get_size_in_bytes())); let mut b = Vec::new(); m.write_bytes(&mut b, false); hx(o, &b); }},\n' for i, n in enumerate(msgs)) + "  _ => () } }\n"
        s += "fn w1(t: &str, v: &mut V, b: &mut Vec<u8>, tag: bool) -> usize { match t {\n" + "".join(f'  "{n}" => {{ let m = put_{n}(v); let z = m.get_size_in_bytes(); m.write_bytes(b, tag); z }},\n' for n in msgs) + "  _ => 0 } }\n"
        s += r'''
fn lst(l: Result<Vec<Message>, impl std::fmt::Debug>, pos: usize, o: &mut String) { match l { Err(e) => o.push_str(&format!("ERR {:?}", e)), Ok(l) => { o.push_str(&format!("OK {} {}", pos, l.len())); for m in &l { ot(m, o); } } } }
fn one(line: &str) -> String {
  let mut v = V { it: line.split_whitespace() }; let mut os = String::new(); let o = &mut os;
  match v.t() {
    "W" => { let t = v.t(); let tag = v.u() != 0; let off = v.u() as usize; let mut v2 = V { it: v.it.clone() }; let mut b = vec![0xAAu8; off]; let z = w1(t, &mut v, &mut b, tag);
             let m = mk(t, &mut v2); let mut c = vec![0xAAu8; off]; m.write_bytes(&mut c, tag);
             if c != b || m.get_size_in_bytes() != z { o.push_str("ERR enum write differs"); } else { o.push_str(&format!("OK {} {}", z, b.len())); hx(o, &b); } }
    "R" => { let t = v.t(); let off = v.u() as usize; let d = v.h(); let mut r = BufferReader::new(&d); r.current_position = off; rd(t, &mut r, o, off); }
    "S" => { let off = v.u() as usize; let mx = v.i() as i32; let d = v.h(); let mut r = BufferReader::new(&d); r.current_position = off; let l = process_raw_bytes(&mut r, mx); lst(l, r.current_position, o); }
    "U" => { let off = v.u() as usize; let d = v.h(); let mut r = BufferReader::new(&d); r.current_position = off; let l = unpack_messages(&mut r); lst(l, r.current_position, o); }
    "P" => { let off = v.u() as usize; let n = v.u(); let mut l = Vec::new(); for _ in 0..n { let t = v.t(); l.push(mk(t, &mut v)); } let mut b = vec![0xAAu8; off]; let z = get_packed_size(&l); pack_messages(&l, &mut b); o.push_str(&format!("OK {} {}", z, b.len())); hx(o, &b); }
    "E" => { cs(o); }
    "D" => { let t = v.t(); df(t, o); }
    _ => o.push_str("ERR cmd") }
  os }
fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let si = std::io::stdin(); let so = std::io::stdout();
  for line in si.lock().lines() { let line = line.unwrap();
    let r = match std::panic::catch_unwind(|| one(&line)) { Ok(s) => s, Err(e) => format!("PANIC {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default().replace('\n', " ")) };
    let mut h = so.lock(); writeln!(h, "{}", r).unwrap(); h.flush().unwrap(); }
}
'''
        return {"k.rs": text, "main.rs": s}

    def build(self, d):
        r = run(["rustc", "--edition", "2021", "-C", "opt-level=0", "-C", "debuginfo=0", "-o", "drv", "main.rs"], d)
        if r.returncode:
            raise BuildError(r.stderr[:3000])

    def argv(self, d):
        return [os.path.join(d, "drv")]
    envx = {}
