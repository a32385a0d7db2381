"""The planted bugs: edits to sjml/beschi with a demonstration each (see mkseeds.py)."""
SEEDS = []


def seed(id, property, edits, needs, breaks, demo, **files):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo,
                      files={k.replace("__", "."): v for k, v in files.items()}))


W = "beschi/writers/"
B = "beschi/writers/boilerplate/"

GO = '''mkdir -p "$W/b"; gen go "$W/b/b.go"; cp "$D/main.go.txt" "$W/main.go"
printf 'module demo\\ngo 1.22\\n' > "$W/go.mod"
cd "$W" && go run .
'''
RUST = '''gen rust "$W/b.rs"; cp "$D/main.rs.txt" "$W/main.rs"
cd "$W" && rustc -A warnings --edition 2021 -o m main.rs && ./m
'''
TS = '''gen typescript "$W/b.ts"; cp "$D/main.ts.txt" "$W/main.ts"
cd "$W" && tsx main.ts
'''
ZIG = '''gen zig "$W/b.zig"; cp "$D/main.zig.txt" "$W/main.zig"
cd "$W" && ZIG_GLOBAL_CACHE_DIR="$W/g" ZIG_LOCAL_CACHE_DIR="$W/l" zig run main.zig
'''
C = '''gen c "$W/b.h"; cp "$D/main.c.txt" "$W/main.c"
cd "$W" && gcc-13 -w -g -fsanitize=address,undefined -fno-sanitize-recover -o m main.c && ./m
'''
CS = '''gen csharp "$W/b.cs"; cp "$D/main.cs.txt" "$W/main.cs"
cd "$W"; SDK=$(ls -d /usr/lib/dotnet/sdk/*/ | tail -1); FW=$(ls -d /usr/lib/dotnet/shared/Microsoft.NETCore.App/*/ | tail -1); V=$(basename "$FW")
refs=(); for f in "$FW"*.dll; do case "$f" in */System*.dll|*/mscorlib.dll|*/netstandard.dll|*/Microsoft.CSharp.dll) refs+=("-r:$f");; esac; done
dotnet exec "${SDK}Roslyn/bincore/csc.dll" -nologo -nowarn:CS0108,CS8632 -out:m.dll b.cs main.cs "${refs[@]}" >log 2>&1 || { grep -m3 error log; exit 2; }
printf '{"runtimeOptions":{"framework":{"name":"Microsoft.NETCore.App","version":"%s"}}}' "$V" > m.runtimeconfig.json
dotnet exec m.dll
'''
PYD = 'cd "$W" && python3 "$D/demo.py.txt"\n'

# ---------------------------------------------------------------- enums with gaps
seed("c05-go-enum-range", "C05",
     [(W + "go.py", '''        self.write_line("switch value {")
        self.write_line(f"case {', '.join([f'{ename}{k}' for k in edata.values.keys()])}:")
        self.indent_level += 1
        self.write_line("return true")
        self.indent_level -= 1
        self.write_line("default:")
        self.indent_level += 1
        self.write_line("return false")
        self.indent_level -= 1
        self.write_line("}")
''', '''        ordered = sorted(edata.values, key=lambda k: edata.values[k])
        self.write_line(f"return value >= {ename}{ordered[0]} && value <= {ename}{ordered[-1]}")
''')],
     "a declared enum whose numbers have gaps, and input holding a number inside a gap",
     "Go: an undeclared enum number between the smallest and largest declared one is accepted",
     GO, p__toml='''[meta]
namespace = "B"
[[enums]]
_name = "Level"
_values = [ { _name = "Low", _value = 1 }, { _name = "Mid", _value = 5 }, { _name = "High", _value = 300 } ]
[[messages]]
_name = "Report"
levels = "[Level]"
''', main__go__txt='''package main

import (
	"bytes"
	b "demo/b"
	"fmt"
	"os"
)

func main() {
	for _, n := range []byte{0, 2, 4, 6, 200} {
		if _, err := b.ReportFromBytes(bytes.NewReader([]byte{2, 0, 0, 0, 5, 0, n, 0})); err == nil {
			fmt.Println("accepted", n)
			os.Exit(1)
		}
	}
	if _, err := b.ReportFromBytes(bytes.NewReader([]byte{3, 0, 0, 0, 5, 0, 1, 0, 44, 1})); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
}
''')

# ---------------------------------------------------------------- sizes of string lists
seed("c03-rust-string-list-size", "C03",
     [(W + "rust.py", 'lines.append(f"{self.tab}size += {NUMERIC_TYPE_SIZES[self.protocol.string_size_type]} + s.len();")',
       'lines.append(f"{self.tab}size += {NUMERIC_TYPE_SIZES[self.protocol.list_size_type]} + s.len();")')],
     "list and string size types of different widths, and a list of strings with at least one element",
     "Rust: the reported size of a list of strings uses the width of the list size type for each string",
     RUST, p__toml='''[meta]
list_size_type = "byte"
string_size_type = "uint16"
[[messages]]
_name = "Names"
names = "[string]"
''', main__rs__txt='''mod b;
use b::MessageCodec;
fn main() {
    let mut m = b::Names::default();
    let mut w: Vec<u8> = Vec::new();
    m.write_bytes(&mut w, false);
    assert_eq!(w.len(), m.get_size_in_bytes());
    m.names = vec!["one".to_string(), "".to_string(), "\\u{e9}".to_string()];
    w.clear();
    m.write_bytes(&mut w, false);
    assert_eq!(w.len(), m.get_size_in_bytes());
}
''')

# ---------------------------------------------------------------- views into larger buffers
seed("c18-ts-subview-end", "C18",
     [(B + "TypeScript.ts", "    return this.currentOffset >= this.data.byteLength;", "    return this.currentOffset >= this.data.buffer.byteLength;")],
     "a DataView over a part of a larger ArrayBuffer, holding messages up to its end without a terminating zero",
     "TypeScript: processing a stream depends on what surrounds the view; reaching its end throws",
     TS, p__toml='''[meta]
namespace = "B"
[[messages]]
_name = "Ping"
seq = "uint16"
''', main__ts__txt='''import * as b from "./b";
const buf = new ArrayBuffer(20);
const dv = new DataView(buf, 4, 6);
[1, 5, 0, 1, 6, 0].forEach((x, i) => dv.setUint8(i, x));
for (let i = 10; i < 20; i++) { new DataView(buf).setUint8(i, 255); }
const l = b.ProcessRawBytes(dv, -1);
if (l.length !== 2 || (l[1] as b.Ping).seq !== 6) { console.log("wrong", l); process.exit(1); }
''')

# ---------------------------------------------------------------- offsets inside fixed-size structs
seed("c01-zig-fixed-offsets", "C01",
     [(W + "zig.py", '''            self.serializer(mem, "self.", sdata.is_simple() and not sdata.is_message, simple_offset)
            if sdata.is_simple():
                simple_offset += self.protocol.get_size_of(mem.vartype)
''', '''            self.serializer(mem, "self.", sdata.is_simple() and not sdata.is_message, simple_offset)
            if sdata.is_simple():
                simple_offset += NUMERIC_TYPE_SIZES.get(mem.vartype, 1)
''')],
     "a fixed-size struct in which a member follows an enum encoded in two or four bytes, or another struct",
     "Zig: members of such a struct overlap in the output, and the reported number of written bytes is too small",
     ZIG, p__toml='''[[enums]]
_name = "Wide"
_values = [ { _name = "Neg", _value = -3 }, { _name = "Pos", _value = 700 } ]
[[structs]]
_name = "Pair"
kind = "Wide"
tail = "uint16"
[[messages]]
_name = "Box"
name = "string"
pair = "Pair"
last = "byte"
''', main__zig__txt='''const std = @import("std");
const b = @import("b.zig");
pub fn main() !void {
    var buf = [_]u8{0xaa} ** 32;
    var m = b.Box{};
    m.pair = b.Pair{ .kind = b.Wide.Pos, .tail = 0x0102 };
    m.last = 9;
    const n = m.writeBytes(0, buf[0..], false);
    const want = [_]u8{ 0, 0, 0, 0, 0xbc, 2, 2, 1, 9, 0xaa };
    if (n != 9 or !std.mem.eql(u8, buf[0..10], &want)) {
        std.debug.print("wrote {d}: {any}\\n", .{ n, buf[0..10] });
        std.process.exit(1);
    }
}
''')

# ---------------------------------------------------------------- cycles
seed("c13-cycle-through-lists", "C13",
     [("beschi/protocol.py", '''                for cvar in self.structs[new_type].members:
                    if cvar.vartype not in self.structs: continue
''', '''                for cvar in self.structs[new_type].members:
                    if cvar.is_list or cvar.vartype not in self.structs: continue
''')],
     "a cycle of at least two structs in which every second link is a list",
     "such a cyclic protocol is accepted",
     PYD, p__toml="", demo__py__txt='''import sys, tempfile, os
from beschi.protocol import Protocol
def load(t):
    with tempfile.NamedTemporaryFile("w", suffix=".toml", delete=False, dir=".") as f:
        f.write(t)
    return Protocol(f.name)
S = lambda nm, **m: f'[[structs]]\\n_name = "{nm}"\\n' + "".join(f'{k} = "{v}"\\n' for k, v in m.items())
M = '[[messages]]\\n_name = "M"\\nx = "byte"\\n'
bad = [S("A", b="B") + S("B", a="[A]"), S("A", b="[B]") + S("B", a="[A]"), S("A", a="[A]"), S("A", a="A"), S("A", b="B") + S("B", c="[C]") + S("C", a="A")]
for t in bad:
    try:
        load(t + M)
    except Exception:
        continue
    print("accepted:", t)
    sys.exit(1)
load(S("A", b="[B]", c="B") + S("B", n="byte") + M)
''')

# ---------------------------------------------------------------- enum encodings
seed("c14-encoding-boundary", "C14",
     [("beschi/protocol.py", "if min_value >= NUMERIC_TYPE_RANGES[opt][0] and max_value <= NUMERIC_TYPE_RANGES[opt][1]:",
       "if min_value >= NUMERIC_TYPE_RANGES[opt][0] and max_value < NUMERIC_TYPE_RANGES[opt][1]:")],
     "an enum whose largest number is exactly the maximum of an encoding (255, 32767 or 2147483647)",
     "the enum gets a wider encoding than the smallest that holds it, or is refused",
     PYD, p__toml="", demo__py__txt='''import sys
from beschi.protocol import Enum
for vals, want in (([0, 255], "byte"), ([-1, 32767], "int16"), ([-32768, 5], "int16"), ([0, 2147483647], "int32"), ([256], "int16"), ([7], "byte")):
    e = Enum("E", [{"_name": f"V{i}", "_value": v} for i, v in enumerate(vals)])
    if e.encoding != want:
        print(vals, e.encoding, "instead of", want)
        sys.exit(1)
''')

# ---------------------------------------------------------------- defaults
seed("c09-go-nested-enum-default", "C09",
     [(W + "go.py", '''                st = self.protocol.structs[var.vartype]
                if self.struct_has_enums(st):
                    return True
        return False
''', '''                st = self.protocol.structs[var.vartype]
                if any(v.vartype in self.protocol.enums for v in st.members):
                    return True
        return False
''')],
     "an enum whose first listed number is not zero, two or more structs below the message",
     "Go: a fresh message holds zero instead of the first listed value in that enum",
     GO, p__toml='''[meta]
namespace = "B"
[[enums]]
_name = "Mode"
_values = [ { _name = "Slow", _value = 3 }, { _name = "Fast", _value = 8 } ]
[[structs]]
_name = "Inner"
mode = "Mode"
[[structs]]
_name = "Middle"
inner = "Inner"
[[structs]]
_name = "Outer"
middle = "Middle"
n = "byte"
[[messages]]
_name = "Msg"
outer = "Outer"
''', main__go__txt='''package main

import (
	b "demo/b"
	"fmt"
	"os"
)

func main() {
	m := b.NewMsgDefault()
	if m.Outer.Middle.Inner.Mode != b.ModeSlow {
		fmt.Println("default is", m.Outer.Middle.Inner.Mode)
		os.Exit(1)
	}
}
''')

# ---------------------------------------------------------------- packing nothing
seed("c07-go-pack-empty", "C07",
     [(B + "Go.go", '''	for _, msg := range msgList {
		msg.WriteBytes(data, true)
	}
	binary.Write(data, binary.LittleEndian, byte(0))
''', '''	for i, msg := range msgList {
		msg.WriteBytes(data, true)
		if i == len(msgList)-1 {
			binary.Write(data, binary.LittleEndian, byte(0))
		}
	}
''')],
     "packing a list with no messages",
     "Go: the container of an empty list lacks its final zero byte and is shorter than the reported packed size",
     GO, p__toml='''[meta]
namespace = "B"
[[messages]]
_name = "Msg"
n = "byte"
''', main__go__txt='''package main

import (
	"bytes"
	b "demo/b"
	"fmt"
	"os"
)

func main() {
	for _, l := range [][]b.Message{{}, {b.Msg{N: 1}}, {b.Msg{N: 1}, b.Msg{N: 2}}} {
		var w bytes.Buffer
		b.PackMessages(l, &w)
		if w.Len() != b.GetPackedSize(l) || w.Bytes()[w.Len()-1] != 0 {
			fmt.Println(len(l), "messages:", w.Bytes(), "size", b.GetPackedSize(l))
			os.Exit(1)
		}
	}
}
''')

# ---------------------------------------------------------------- malformed containers
# ---------------------------------------------------------------- list growth in C
# ---------------------------------------------------------------- truncated streams
seed("c06-rust-truncated-last", "C06",
     [(W + "rust.py", '''self.write_line(f"{self.prefix}Error::EndOfMessageList => return Ok(msg_list),")''',
       '''self.write_line(f"{self.prefix}Error::EndOfMessageList | {self.prefix}Error::EndOfFile => return Ok(msg_list),")''')],
     "a stream whose last message is cut short",
     "Rust: processing returns the messages before it instead of failing",
     RUST, p__toml='''[[messages]]
_name = "Msg"
n = "uint32"
''', main__rs__txt='''mod b;
fn main() {
    let ok = [1u8, 1, 0, 0, 0, 1, 2, 0, 0, 0];
    let mut r = b::BufferReader::new(&ok);
    assert_eq!(b::process_raw_bytes(&mut r, -1).unwrap().len(), 2);
    for cut in 6..10 {
        let mut r = b::BufferReader::new(&ok[..cut]);
        assert!(b::process_raw_bytes(&mut r, -1).is_err(), "accepted {} of 10 bytes", cut);
    }
}
''')

# ---------------------------------------------------------------- precomputed sizes
seed("c15-wide-enum-size", "C15",
     [("beschi/protocol.py", "            return NUMERIC_TYPE_SIZES[self.enums[var_type].encoding]",
       '            return NUMERIC_TYPE_SIZES["byte" if self.enums[var_type].encoding == "byte" else "int16"]')],
     "an enum encoded in four bytes in a fixed-size struct or list",
     "the precomputed size of a type with such an enum is two bytes short for each of them",
     PYD, p__toml='''[[enums]]
_name = "Big"
_values = [ { _name = "A", _value = 1 }, { _name = "B", _value = 100000 } ]
[[structs]]
_name = "S"
e = "Big"
n = "uint16"
[[messages]]
_name = "M"
s = "S"
t = "S"
b = "byte"
''', demo__py__txt='''import os, sys
from beschi.protocol import Protocol
p = Protocol(os.path.join(os.path.dirname(os.path.abspath(sys.argv[0])), "p.toml"))
got = [p.get_size_of(t) for t in ("Big", "S", "M")]
print(got)
sys.exit(got != [4, 6, 13])
''')

# ---------------------------------------------------------------- names
seed("c12-inner-whitespace", "C12",
     [("beschi/protocol.py", "    return True in [c in s for c in string.whitespace]", "    return s != s.strip() or ' ' in s")],
     "a name with a tab, newline or other white space that is not a blank, inside it",
     "a protocol with such a name is accepted",
     PYD, p__toml="", demo__py__txt=r'''import sys
from beschi.protocol import Protocol
doc = '[[structs]]\n_name = "S"\n"%s" = "byte"\n[[messages]]\n_name = "%s"\nx = "S"\n'
def load(t):
    with open("p.toml", "w") as f:
        f.write(t)
    return Protocol("p.toml")
load(doc % ("ok", "Fine"))
for a, b in (("a\\tb", "M"), ("a", "M\\tN"), ("a\\nb", "M"), ("a b", "M"), ("a", "M\\u000bN")):
    try:
        load(doc % (a, b))
    except Exception:
        continue
    print("accepted", a, b)
    sys.exit(1)
''')

# ---------------------------------------------------------------- command line
seed("c17-errors-on-stdout", "C17",
     [("beschi/cli.py", '''        sys.stderr.write(f"ERROR: Invalid protocol file '{args.protocol}'.\\n")
        sys.stderr.write(f"\\t{e}\\n")
''', '''        print(f"ERROR: Invalid protocol file '{args.protocol}'.\\n\\t{e}")
''')],
     "a protocol that breaks a rule, given on the command line",
     "the reason is printed on standard output, where generated code goes, and nothing on standard error",
     '''printf '[[messages]]\\n_name = "M"\\nx = "nosuch"\\n' > "$W/p.toml"
python3 -m beschi -l go -p "$W/p.toml" >"$W/out" 2>"$W/err" && exit 1
[ -s "$W/err" ] && [ ! -s "$W/out" ]
''')

# ---------------------------------------------------------------- strings
seed("c02-go-trailing-nul", "C02",
     [(B + "Go.go", "	*str = string(sbytes)\n", "	n := len(sbytes)\n	for n > 0 && sbytes[n-1] == 0 {\n		n--\n	}\n	*str = string(sbytes[:n])\n")],
     "a string that ends with a NUL character",
     "Go: reading drops the trailing NUL characters",
     GO, p__toml='''[meta]
namespace = "B"
[[messages]]
_name = "Msg"
s = "string"
''', main__go__txt='''package main

import (
	"bytes"
	b "demo/b"
	"fmt"
	"os"
)

func main() {
	for _, s := range []string{"", "abc", "a\\x00b", "abc\\x00", "\\x00"} {
		var w bytes.Buffer
		b.Msg{S: s}.WriteBytes(&w, false)
		m, err := b.MsgFromBytes(&w)
		if err != nil || m.S != s {
			fmt.Printf("%q came back as %q\\n", s, m.S)
			os.Exit(1)
		}
	}
}
''')

# ---------------------------------------------------------------- long lists in C
seed("c19-c-loop-index", "C19",
     [(W + "c.py", '''            self.write_line(f"for ({self.get_native_list_size()} i{idx} = 0; i{idx} < {accessor}{var.name}_len; i{idx}++) {{")
            self.indent_level += 1
            inner = Variable(self.protocol, f"{var.name}[i{idx}]", var.vartype)
            self.serializer(inner, accessor)
''', '''            self.write_line(f"for (uint16_t i{idx} = 0; i{idx} < {accessor}{var.name}_len; i{idx}++) {{")
            self.indent_level += 1
            inner = Variable(self.protocol, f"{var.name}[i{idx}]", var.vartype)
            self.serializer(inner, accessor)
''')],
     "a list of more than 65535 elements in a protocol whose list size type is wider than 16 bits",
     "C: writing such a list never gets past element 65535 and fails once the buffer is full",
     C, p__toml='''[meta]
namespace = "b"
[[messages]]
_name = "Msg"
data = "[byte]"
''', main__c__txt='''#define B_IMPLEMENTATION
#include "b.h"
#include <stdio.h>
int main(void) {
    b_Msg m = b_Msg_default;
    m.data_len = 65540;
    m.data = (uint8_t*)calloc(m.data_len, 1);
    size_t n = 0;
    b_Msg_GetSizeInBytes(&m, &n);
    uint8_t* buf = (uint8_t*)malloc(n);
    b_DataAccess w = { .buffer = buf, .bufferSize = n, .position = 0 };
    b_err_t e = b_Msg_WriteBytes(&w, &m, false);
    int ok = e == B_ERR_OK && w.position == n && n == 65544;
    printf("err %d, %zu of %zu bytes\\n", (int)e, w.position, n);
    free(buf); free(m.data);
    return !ok;
}
''')

# ---------------------------------------------------------------- identifiers
# ---------------------------------------------------------------- generating twice
seed("c16-ts-generate-twice", "C16",
     [(W + "typescript.py", '''    def generate(self) -> str:
        self.output = []

''', '''    def generate(self) -> str:
''')],
     "calling generate twice on one writer",
     "TypeScript: the second text contains everything twice",
     PYD, p__toml="", demo__py__txt='''import sys
from beschi.protocol import Protocol
from beschi.writers import all_writers
open("p.toml", "w").write('[meta]\\nnamespace = "B"\\n[[messages]]\\n_name = "M"\\nx = "byte"\\n')
args = {"embed_protocol": False, "go_no_rename": False, "rust_no_rename": False, "typescript_use_namespace": False}
for n in ("typescript", "go", "rust", "csharp", "zig", "c"):
    w = all_writers[n](Protocol("p.toml"), extra_args=dict(args))
    if w.generate() != w.generate():
        print(n)
        sys.exit(1)
''')

# ---------------------------------------------------------------- truncated numbers
seed("c04-zig-partial-number", "C04",
     [(B + "Zig.zig", "    if (offset + @sizeOf(T) > buffer.len) {\n", "    if (offset >= buffer.len) {\n")],
     "input that ends inside a number of two or more bytes",
     "Zig: reading past the end of the buffer crashes (or reads outside it) instead of returning an error",
     ZIG, p__toml='''[[messages]]
_name = "Msg"
n = "uint32"
s = "string"
''', main__zig__txt='''const std = @import("std");
const b = @import("b.zig");
pub fn main() !void {
    const al = std.heap.page_allocator;
    const full = [_]u8{ 1, 2, 3, 4, 2, 0, 0, 0, 'h', 'i' };
    _ = try b.Msg.fromBytes(al, 0, full[0..]);
    var cut: usize = 0;
    while (cut < full.len) : (cut += 1) {
        if (b.Msg.fromBytes(al, 0, full[0..cut])) |_| {
            std.process.exit(1);
        } else |_| {}
    }
}
''')

seed("c08-rust-marker-case", "C08",
     [(B + "Rust.rs", '    if header_label != b"BSCI" {', '    if !header_label.eq_ignore_ascii_case(b"BSCI") {')],
     "a container whose marker is written with lower-case letters",
     "Rust: unpacking accepts data that does not start with the marker",
     RUST, p__toml='''[[messages]]
_name = "Msg"
n = "byte"
''', main__rs__txt='''mod b;
fn main() {
    let good = *b"BSCI\\x01\\0\\0\\0\\x01\\x07\\0";
    assert_eq!(b::unpack_messages(&mut b::BufferReader::new(&good)).unwrap().len(), 1);
    for i in 0..4 {
        let mut bad = good;
        bad[i] ^= 0x20;
        assert!(b::unpack_messages(&mut b::BufferReader::new(&bad)).is_err());
    }
}
''')

seed("c11-c-list-lengths-leak", "C11",
     [(W + "c.py", '''                if var.vartype == "string":
                    self.write_line(f"{self.prefix.upper()}FREE({accessor}{var.name}_els_len);")
                self.write_line(f"{self.prefix.upper()}FREE({accessor}{var.name});")
''', '''                if var.vartype == "string" and accessor.count("[") == 0:
                    self.write_line(f"{self.prefix.upper()}FREE({accessor}{var.name}_els_len);")
                self.write_line(f"{self.prefix.upper()}FREE({accessor}{var.name});")
''')],
     "a list of strings inside the structs of a list",
     "C: destroying a read message does not free the array of string lengths",
     C, p__toml='''[meta]
namespace = "b"
[[structs]]
_name = "Row"
cells = "[string]"
[[messages]]
_name = "Table"
rows = "[Row]"
''', main__c__txt='''#include <stdlib.h>
static int live = 0;
static void* my_malloc(size_t n) { live++; return malloc(n ? n : 1); }
static void* my_realloc(void* p, size_t n) { return realloc(p, n); }
static void my_free(void* p) { if (p) { live--; free(p); } }
#define B_MALLOC(n) my_malloc(n)
#define B_REALLOC(p, n) my_realloc(p, n)
#define B_FREE(p) my_free(p)
#define B_IMPLEMENTATION
#include "b.h"
#include <stdio.h>
int main(void) {
    uint8_t buf[] = { 2,0,0,0, 1,0,0,0, 1,0,0,0,'a', 1,0,0,0, 0,0,0,0 };
    b_DataAccess r = { .buffer = buf, .bufferSize = sizeof(buf), .position = 0 };
    b_Table* m = b_Table_Create();
    if (b_Table_FromBytes(&r, m) != B_ERR_OK) { return 1; }
    b_Table_Destroy(m);
    printf("%d allocations left\\n", live);
    return live != 0;
}
''')

seed("c10-zig-fixed-size-tags", "C10",
     [(W + "zig.py", '''                self.write_line("if (tag) {")
                self.indent_level += 1
                msg_type_id = list(self.protocol.messages.keys()).index(sname) + 1
                self.write_line(f"local_offset += writeNumber(u8, local_offset, buffer, {msg_type_id});")
                self.indent_level -= 1
                self.write_line("}")
                simple_offset += 1
''', '''                self.write_line("if (tag) {")
                self.indent_level += 1
                msg_type_id = [m for m, d in self.protocol.messages.items() if len(d.members) == len(sdata.members) or d.is_simple()].index(sname) + 1
                self.write_line(f"local_offset += writeNumber(u8, local_offset, buffer, {msg_type_id});")
                self.indent_level -= 1
                self.write_line("}")
                simple_offset += 1
''')],
     "a fixed-size message declared after one that is not fixed-size and has another number of members",
     "Zig: the fixed-size message writes the tag of another message",
     ZIG, p__toml='''[[messages]]
_name = "Text"
s = "string"
[[messages]]
_name = "Pair"
a = "byte"
b = "byte"
''', main__zig__txt='''const std = @import("std");
const b = @import("b.zig");
pub fn main() !void {
    var buf = [_]u8{0} ** 16;
    const m = b.Pair{ .a = 5, .b = 6 };
    _ = m.writeBytes(0, buf[0..], true);
    if (buf[0] != 2) {
        std.debug.print("tag {d}\\n", .{buf[0]});
        std.process.exit(1);
    }
}
''')
