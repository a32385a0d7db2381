import os
from .common import *
from spec.proto import NUM, SIZES
GT = {"byte": "byte", "bool": "bool", "uint16": "uint16", "int16": "int16", "uint32": "uint32", "int32": "int32",
      "uint64": "uint64", "int64": "int64", "float": "float32", "double": "float64", "string": "string"}


class L:
    name = "go"

    def __init__(self, p, opts=None):
        self.p, self.opts = p, opts or {}

    def mn(self, n):
        return n if self.opts.get("go_no_rename") else n[:1].upper() + n[1:]

    def gt(self, t):
        return GT.get(t, t)

    def put(self, t, lv):
        k = self.p.kind(t)
        if t == "float":
            return f"{lv} = math.Float32frombits(uint32(vU()))"
        if t == "double":
            return f"{lv} = math.Float64frombits(vU())"
        if t == "bool":
            return f"{lv} = vU() != 0"
        if k == "num":
            return f"{lv} = {GT[t]}({'vI' if NUM[t][1] else 'vU'}())"
        if k == "enum":
            return f"{lv} = {t}(vI())"
        if k == "string":
            return f"{lv} = vS()"
        return f"put_{t}(&{lv})"

    def out(self, t, lv):
        k = self.p.kind(t)
        if t == "float":
            return f"vP(math.Float32bits({lv}))"
        if t == "double":
            return f"vP(math.Float64bits({lv}))"
        if t == "bool":
            return f"vP(vB({lv}))"
        if k == "num":
            return f"vP({lv})"
        if k == "enum":
            return f"vP(int64({lv}))"
        if k == "string":
            return f"vOS([]byte({lv}))"
        return f"out_{t}(&{lv})"

    def sources(self, text):
        p = self.p
        import re as _re
        pkg = _re.search(r"^package (\S+)", text, _re.M).group(1)
        s = f"package {pkg}\n" + r'''
import ("bufio"; "bytes"; "encoding/hex"; "fmt"; "io"; "math"; "os"; "strconv"; "strings")
var vT []string
var vO *bufio.Writer
func vtok() string { s := vT[0]; vT = vT[1:]; return s }
func vU() uint64 { x, _ := strconv.ParseUint(vtok(), 10, 64); return x }
func vI() int64 { x, _ := strconv.ParseInt(vtok(), 10, 64); return x }
func vH() []byte { b, _ := hex.DecodeString(vtok()[1:]); return b }
func vS() string { return string(vH()) }
func vB(b bool) int { if b { return 1 }; return 0 }
func vP(x any) { fmt.Fprintf(vO, " %d", x) }
func vOS(b []byte) { fmt.Fprintf(vO, " s%x", b) }
func vF(f string, a ...any) { fmt.Fprintf(vO, f, a...) }
var _ = math.Pi
type vRd struct { r *bytes.Reader }
func (x vRd) Read(b []byte) (int, error) { if len(b) > 1 { b = b[:1] }; return x.r.Read(b) }
'''
        for n, st in list(p.structs.items()) + list(p.messages.items()):
            a = f"func put_{n}(d *{n}) {{\n"
            b = f"func out_{n}(s *{n}) {{\n"
            for m, t, l in st.members:
                f = self.mn(m)
                if l:
                    a += f"  d.{f} = make([]{self.gt(t)}, vU())\n  for i := range d.{f} {{ {self.put(t, f'd.{f}[i]')} }}\n"
                    b += f"  vP(len(s.{f}))\n  for i := range s.{f} {{ {self.out(t, f's.{f}[i]')} }}\n"
                else:
                    a += "  " + self.put(t, f"d.{f}") + "\n"
                    b += "  " + self.out(t, f"s.{f}") + "\n"
            s += a + "}\n" + b + "}\n"
        msgs = list(p.messages)
        s += "func vmk(t string) Message {\n  switch t {\n" + "".join(f'  case "{n}": m := &{n}{{}}; put_{n}(m); return m\n' for n in msgs) + "  }\n  return nil }\n"
        s += "func vot(m Message) {\n  switch x := m.(type) {\n" + "".join(f'  case *{n}: vF(" {n}"); out_{n}(x); if x.GetMessageType() != {n}Type {{ vF(" BADTYPE") }}\n  case {n}: vF(" {n}"); out_{n}(&x)\n' for n in msgs) + "  }\n}\n"
        s += "func vread(t string, r io.Reader) (Message, error) {\n  switch t {\n" + "".join(f'  case "{n}": m, err := {n}FromBytes(r); if err != nil {{ return nil, err }}; return m, nil\n' for n in msgs) + "  }\n  return nil, nil }\n"
        s += "func vconst() { vF(\"OK\"); " + "; ".join(f"vP(int64({e}{v}))" for e, en in p.enums.items() for v, _ in en.values) + " }\n"
        s += "func vdef(t string) {\n  switch t {\n" + "".join(f'  case "{n}": m := New{n}Default(); vF("OK %d", byte(m.GetMessageType())); out_{n}(&m); vF(" | %d", m.GetSizeInBytes()); var b bytes.Buffer; m.WriteBytes(&b, false); vOS(b.Bytes())\n' for n in msgs) + "  }\n}\n"
        s += r'''
func vone() {
  defer func() { if e := recover(); e != nil { vF(" PANIC %s", strings.ReplaceAll(fmt.Sprint(e), "\n", " ")) } }()
  c := vtok()
  switch c {
  case "W": t := vtok(); tag := vU() != 0; off := int(vU()); m := vmk(t); var b bytes.Buffer; b.Write(bytes.Repeat([]byte{0xAA}, off)); sz := m.GetSizeInBytes(); m.WriteBytes(&b, tag); vF("OK %d %d", sz, b.Len()); vOS(b.Bytes())
  case "R": t := vtok(); off := int64(vU()); d := vH(); r := bytes.NewReader(d); r.Seek(off, 0); m, err := vread(t, r); r2 := bytes.NewReader(d); r2.Seek(off, 0); _, err2 := vread(t, vRd{r2})
    if (err == nil) != (err2 == nil) { vF("ERR chunked reader differs"); return }
    if err != nil { vF("ERR %s", strings.ReplaceAll(err.Error(), "\n", " ")) } else { vF("OK %d", int64(len(d)) - int64(r.Len()) - off); var o []string = nil; _ = o; vbody(m) }
  case "S": off := int64(vU()); mx := int(vI()); d := vH(); r := bytes.NewReader(d); r.Seek(off, 0); l, err := ProcessRawBytes(r, mx); if err != nil { vF("ERR %s", err) } else { vF("OK %d %d", len(d) - r.Len(), len(l)); for _, m := range l { vot(m) } }
  case "U": off := int64(vU()); d := vH(); r := bytes.NewReader(d); r.Seek(off, 0); l, err := UnpackMessages(r); if err != nil { vF("ERR %s", err) } else { vF("OK %d %d", len(d) - r.Len(), len(l)); for _, m := range l { vot(m) } }
  case "P": off := int(vU()); n := int(vU()); var l []Message; for i := 0; i < n; i++ { l = append(l, vmk(vtok())) }; var b bytes.Buffer; b.Write(bytes.Repeat([]byte{0xAA}, off)); sz := GetPackedSize(l); PackMessages(l, &b); vF("OK %d %d", sz, b.Len()); vOS(b.Bytes())
  case "D": vdef(vtok())
  case "E": vconst()
  }
}
func vbody(m Message) { switch x := m.(type) {
''' + "".join(f"  case *{n}: out_{n}(x)\n" for n in msgs) + r'''  default: _ = x }
}
func VMain() {
  sc := bufio.NewScanner(os.Stdin); sc.Buffer(make([]byte, 1<<20), 1<<28); vO = bufio.NewWriterSize(os.Stdout, 1<<16)
  for sc.Scan() { vT = strings.Fields(sc.Text()); vone(); vF("\n"); vO.Flush() }
}
'''
        return {"m/k.go": text, "m/drv.go": s, "go.mod": "module drv\n\ngo 1.21\n", "main.go": "package main\nimport v \"drv/m\"\nfunc main() { v.VMain() }\n"}

    def build(self, d):
        r = run(["go", "build", "-o", "drv", "."], d)
        if r.returncode:
            raise BuildError(r.stderr[:3000])

    def argv(self, d):
        return [os.path.join(d, "drv")]
    envx = {}
