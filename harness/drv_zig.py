import os
from .common import *
from spec.proto import NUM, SIZES
ZT = {"byte": "u8", "bool": "bool", "uint16": "u16", "int16": "i16", "uint32": "u32", "int32": "i32", "uint64": "u64", "int64": "i64",
      "float": "f32", "double": "f64", "string": "[]const u8"}


class L:
    name = "zig"

    def __init__(self, p, opts=None):
        self.p, self.opts = p, opts or {}

    def zt(self, t):
        return ZT.get(t) or "k." + t

    def simple(self, t):
        return self.p.fixed_size(t) is not None

    def put(self, t):
        k = self.p.kind(t)
        if t == "float":
            return "@as(f32, @bitCast(@as(u32, @intCast(U()))))"
        if t == "double":
            return "@as(f64, @bitCast(U()))"
        if t == "bool":
            return "(U() != 0)"
        if k == "num":
            return f"@as({ZT[t]}, @intCast({'I' if NUM[t][1] else 'U'}()))"
        if k == "enum":
            return f"@as(k.{t}, @enumFromInt(I()))"
        if k == "string":
            return "H()"
        return f"put_{t}()"

    def out(self, t, e):
        k = self.p.kind(t)
        if t == "float":
            return f'P(" {{d}}", .{{@as(u32, @bitCast({e}))}});'
        if t == "double":
            return f'P(" {{d}}", .{{@as(u64, @bitCast({e}))}});'
        if t == "bool":
            return f'P(" {{d}}", .{{@intFromBool({e})}});'
        if k == "num":
            return f'P(" {{d}}", .{{{e}}});'
        if k == "enum":
            return f'P(" {{d}}", .{{@intFromEnum({e})}});'
        if k == "string":
            return f"OH({e});"
        return f"out_{t}(&{e});"

    def sources(self, text):
        p = self.p
        msgs = list(p.messages)
        s = r'''const std = @import("std");
const k = @import("k.zig");
var it: std.mem.TokenIterator(u8, .any) = undefined;
var arena: std.heap.ArenaAllocator = undefined;
var al: std.mem.Allocator = undefined;
var ob: std.ArrayList(u8) = undefined;
fn tok() []const u8 { return it.next().?; }
fn U() u64 { return std.fmt.parseInt(u64, tok(), 10) catch unreachable; }
fn I() i64 { return std.fmt.parseInt(i64, tok(), 10) catch unreachable; }
fn H() []u8 { const s = tok()[1..]; const b = al.alloc(u8, s.len / 2) catch unreachable; return std.fmt.hexToBytes(b, s) catch unreachable; }
fn P(comptime f: []const u8, a: anytype) void { ob.writer().print(f, a) catch unreachable; }
fn OH(b: []const u8) void { P(" s", .{}); for (b) |x| P("{x:0>2}", .{x}); }
fn eq(a: []const u8, b: []const u8) bool { return std.mem.eql(u8, a, b); }
'''
        for n, st in list(p.structs.items()) + list(p.messages.items()):
            a, b = f"fn put_{n}() k.{n} {{ {'var' if st.members else 'const'} d = k.{n}{{}};\n", f"fn out_{n}(s: *const k.{n}) void {{{' _ = s;' if not st.members else ''}\n"
            for m, t, l in st.members:
                if l:
                    a += f"  {{ const n: usize = @intCast(U()); const l = al.alloc({self.zt(t)}, n) catch unreachable; for (0..n) |i| {{ l[i] = {self.put(t)}; }} d.{m} = l; }}\n"
                    b += f"  P(\" {{d}}\", .{{s.{m}.len}}); for (0..s.{m}.len) |i| {{ {self.out(t, f's.{m}[i]')} }}\n"
                else:
                    a += f"  d.{m} = {self.put(t)};\n"
                    b += f"  {self.out(t, f's.{m}')}\n"
            s += a + "  return d; }\n" + b + "}\n"
        s += "fn mk(t: []const u8) k.Message {\n" + "".join(f'  if (eq(t, "{n}")) return k.Message{{ .{n} = put_{n}() }};\n' for n in msgs) + "  unreachable; }\n"
        s += "fn om(m: *const k.Message, full: bool) void { switch (m.*) {\n" + "".join(f'  .{n} => |*x| {{ if (full) P(" {n}", .{{}}); out_{n}(x); }},\n' for n in msgs) + "  } }\n"
        s += "fn rd(t: []const u8, off: usize, d: []u8) !void {\n" + "".join(
            f'  if (eq(t, "{n}")) {{ const r = try k.{n}.fromBytes({"" if self.simple(n) else "al, "}off, d); P("OK {{d}}", .{{r.bytes_read}}); out_{n}(&r.value); }}\n' for n in msgs) + "  }\n"
        s += "fn cs() void { P(\"OK\", .{}); " + " ".join(f'P(" {{d}}", .{{@as(i64, @intFromEnum(k.{e}.{v}))}});' for e, en in p.enums.items() for v, _ in en.values) + " }\n"
        s += "fn df(t: []const u8) void {\n" + "".join(
            f'  if (eq(t, "{n}")) {{ var m = k.{n}{{}}; P("OK {i+1}", .{{}}); out_{n}(&m); const z = m.getSizeInBytes(); P(" | {{d}}", .{{z}}); const b = al.alloc(u8, z) catch unreachable; const w = m.writeBytes(0, b, false); OH(b[0..w]); }}\n' for i, n in enumerate(msgs)) + "  }\n"
        s += r'''
fn one() !void {
  const c = tok();
  if (eq(c, "W")) { const t = tok(); const tag = U() != 0; const off: usize = @intCast(U()); var m = mk(t); const z = m.getSizeInBytes(); const cap = off + z + @intFromBool(tag); const b = try al.alloc(u8, cap); @memset(b, 0xAA); const w = k.writeBytes(&m, off, b, tag);
    const b2 = try al.alloc(u8, cap); @memset(b2, 0xAA); const w2 = m.writeBytes(off, b2, tag); if (w != w2 or !eq(b, b2)) { P("ERR generic write differs", .{}); } else { P("OK {d} {d}", .{z, off + w}); OH(b); } }
  else if (eq(c, "R")) { const t = tok(); const off: usize = @intCast(U()); const d = H(); rd(t, off, d) catch |e| { ob.clearRetainingCapacity(); P("ERR {s}", .{@errorName(e)}); }; }
  else if (eq(c, "S")) { const off: usize = @intCast(U()); const mx: i32 = @intCast(I()); const d = H(); if (k.processRawBytes(al, d[off..], mx)) |l| { P("OK ? {d}", .{l.len}); for (l) |*m| om(m, true); } else |e| P("ERR {s}", .{@errorName(e)}); }
  else if (eq(c, "U")) { const off: usize = @intCast(U()); const d = H(); if (k.unpackMessages(al, d[off..])) |l| { P("OK ? {d}", .{l.len}); for (l) |*m| om(m, true); } else |e| P("ERR {s}", .{@errorName(e)}); }
  else if (eq(c, "P")) { const off: usize = @intCast(U()); const n: usize = @intCast(U()); const l = try al.alloc(k.Message, n); for (0..n) |i| { l[i] = mk(tok()); } const z = k.getPackedSize(l); const b = try al.alloc(u8, off + z); @memset(b, 0xAA); k.packMessages(l, b[off..]); P("OK {d} {d}", .{z, off + z}); OH(b); }
  else if (eq(c, "E")) { cs(); }
  else if (eq(c, "D")) { df(tok()); }
}
pub fn main() !void {
  arena = std.heap.ArenaAllocator.init(std.heap.page_allocator); al = arena.allocator();
  var gpa = std.heap.page_allocator; ob = std.ArrayList(u8).init(gpa);
  const line = try gpa.alloc(u8, 1 << 24);
  const in = std.io.getStdIn(); var br = std.io.bufferedReader(in.reader()); const so = std.io.getStdOut();
  while (true) { const ln = br.reader().readUntilDelimiter(line, '\n') catch return; it = std.mem.tokenizeAny(u8, ln, " "); ob.clearRetainingCapacity();
    try one(); try ob.append('\n'); try so.writeAll(ob.items); _ = arena.reset(.retain_capacity); }
}
'''
        return {"k.zig": text, "main.zig": s}

    def build(self, d):
        r = run(["zig", "build-exe", "main.zig", "-fno-llvm", "-fno-lld", "--name", "drv", "--cache-dir", os.path.join(d, "zc")], d)
        if r.returncode and "error: " in r.stderr and ("TODO" in r.stderr or "unimplemented" in r.stderr or "panic" in r.stderr):
            r = run(["zig", "build-exe", "main.zig", "--name", "drv", "--cache-dir", os.path.join(d, "zc")], d)
        shutil.rmtree(os.path.join(d, "zc"), ignore_errors=True)
        if r.returncode:
            raise BuildError(r.stderr[:3000])

    def argv(self, d):
        return [os.path.join(d, "drv")]
    envx = {}
