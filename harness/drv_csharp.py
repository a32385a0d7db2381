import os, glob, json
from .common import *
from spec.proto import NUM, SIZES
CT = {"byte": "byte", "bool": "bool", "uint16": "ushort", "int16": "short", "uint32": "uint", "int32": "int", "uint64": "ulong", "int64": "long",
      "float": "float", "double": "double", "string": "string"}


class L:
    name = "csharp"

    def __init__(self, p, opts=None):
        self.p, self.opts = p, opts or {}
        self.ns = p.namespace

    def put(self, t):
        k = self.p.kind(t)
        if t == "float":
            return "BitConverter.UInt32BitsToSingle((uint)U())"
        if t == "double":
            return "BitConverter.UInt64BitsToDouble(U())"
        if t == "bool":
            return "(U() != 0)"
        if k == "num":
            return f"({CT[t]}){'I' if NUM[t][1] else 'U'}()"
        if k == "enum":
            return f"({t})I()"
        if k == "string":
            return "S()"
        return f"put_{t}()"

    def out(self, t, e):
        k = self.p.kind(t)
        if t == "float":
            return f"O.Append(' ').Append(BitConverter.SingleToUInt32Bits({e}));"
        if t == "double":
            return f"O.Append(' ').Append(BitConverter.DoubleToUInt64Bits({e}));"
        if t == "bool":
            return f"O.Append({e} ? \" 1\" : \" 0\");"
        if k == "num":
            return f"O.Append(' ').Append({e});"
        if k == "enum":
            return f"O.Append(' ').Append((long){e});"
        if k == "string":
            return f"OH(Encoding.UTF8.GetBytes({e}));"
        return f"out_{t}({e});"

    def sources(self, text):
        p = self.p
        s = "using System; using System.IO; using System.Text; using System.Collections.Generic; using System.Linq;\n"
        if self.ns:
            s += f"using {self.ns};\n"
        s += r'''
static class Drv {
  static string[] T; static int ti; static StringBuilder O = new StringBuilder();
  static string tok() { return T[ti++]; }
  static ulong U() { return ulong.Parse(tok()); }
  static long I() { return long.Parse(tok()); }
  static byte[] H() { return Convert.FromHexString(tok().Substring(1)); }
  static string S() { return Encoding.UTF8.GetString(H()); }
  static void OH(byte[] b) { O.Append(" s").Append(Convert.ToHexString(b).ToLowerInvariant()); }
'''
        ct = lambda t: CT.get(t, t)
        for n, st in list(p.structs.items()) + list(p.messages.items()):
            a, b = f"  static {n} put_{n}() {{ var d = new {n}();\n", f"  static void out_{n}({n} s) {{\n"
            for m, t, l in st.members:
                if l:
                    a += f"    {{ var n = U(); d.{m} = new List<{ct(t)}>(); for (ulong i = 0; i < n; i++) {{ d.{m}.Add({self.put(t)}); }} }}\n"
                    b += f"    O.Append(' ').Append(s.{m}.Count); for (int i = 0; i < s.{m}.Count; i++) {{ {self.out(t, f's.{m}[i]')} }}\n"
                else:
                    a += f"    d.{m} = {self.put(t)};\n"
                    b += f"    {self.out(t, f's.{m}')}\n"
            s += a + "    return d; }\n" + b + "  }\n"
        msgs = list(p.messages)
        s += "  static void cs() { O.Append(\"OK\"); " + " ".join(f"O.Append(' ').Append((long){e}.{v});" for e, en in p.enums.items() for v, _ in en.values) + " }\n"
        s += "  static Message mk(string t) { switch (t) {\n" + "".join(f'    case "{n}": return put_{n}();\n' for n in msgs) + "    } return null; }\n"
        s += "  static Message rd(string t, BinaryReader r) { switch (t) {\n" + "".join(f'    case "{n}": return {n}.FromBytes(r);\n' for n in msgs) + "    } return null; }\n"
        s += "  static Message nw(string t) { switch (t) {\n" + "".join(f'    case "{n}": return new {n}();\n' for n in msgs) + "    } return null; }\n"
        s += "  static void ob(Message m) { switch (m) {\n" + "".join(f'    case {n} x: out_{n}(x); break;\n' for n in msgs) + "    default: break; } }\n"
        s += "  static string nm(Message m) { switch (m) {\n" + "".join(f'    case {n} x: return "{n}" + ((int)x.GetMessageType() == {i+1} ? "" : " BADTYPE");\n' for i, n in enumerate(msgs)) + "    } return \"?\"; }\n"
        s += r'''
  static void one() {
    string c = tok();
    if (c == "W") { var t = tok(); bool tag = U() != 0; int off = (int)U(); var m = mk(t); int z = m.GetSizeInBytes(); var ms = new MemoryStream(); var bw = new BinaryWriter(ms); for (int i = 0; i < off; i++) bw.Write((byte)0xAA); m.WriteBytes(bw, tag); bw.Flush(); O.Append("OK ").Append(z).Append(' ').Append(ms.Position); OH(ms.ToArray()); }
    else if (c == "R") { var t = tok(); int off = (int)U(); var d = H(); var ms = new MemoryStream(d); var br = new BinaryReader(ms); ms.Position = off; var m = rd(t, br); O.Append("OK ").Append(ms.Position - off); ob(m); }
    else if (c == "S" || c == "U") { int off = (int)U(); int mx = c == "S" ? (int)I() : 0; var d = H(); var ms = new MemoryStream(d); var br = new BinaryReader(ms); ms.Position = off; var l = c == "S" ? Message.ProcessRawBytes(br, mx) : Message.UnpackMessages(br); O.Append("OK ").Append(ms.Position).Append(' ').Append(l.Length); foreach (var m in l) { O.Append(' ').Append(nm(m)); ob(m); } }
    else if (c == "P") { int off = (int)U(); int n = (int)U(); var l = new List<Message>(); for (int i = 0; i < n; i++) l.Add(mk(tok())); int z = Message.GetPackedSize(l); var ms = new MemoryStream(); var bw = new BinaryWriter(ms); for (int i = 0; i < off; i++) bw.Write((byte)0xAA); Message.PackMessages(l, bw); bw.Flush(); O.Append("OK ").Append(z).Append(' ').Append(ms.Position); OH(ms.ToArray()); }
    else if (c == "E") { cs(); }
    else if (c == "D") { var m = nw(tok()); O.Append("OK ").Append((int)m.GetMessageType()); ob(m); O.Append(" | ").Append(m.GetSizeInBytes()); var ms = new MemoryStream(); var bw = new BinaryWriter(ms); m.WriteBytes(bw, false); bw.Flush(); OH(ms.ToArray()); }
  }
  static void Main() {
    var si = new StreamReader(Console.OpenStandardInput()); var so = new StreamWriter(Console.OpenStandardOutput());
    string line; while ((line = si.ReadLine()) != null) { T = line.Split(' ', StringSplitOptions.RemoveEmptyEntries); ti = 0; O.Clear();
      try { one(); } catch (Exception e) { O.Clear(); O.Append("ERR ").Append(e.GetType().Name).Append(' ').Append(e.Message.Replace('\n', ' ').Replace('\r', ' ')); }
      so.Write(O.ToString()); so.Write('\n'); so.Flush(); }
  }
}
'''
        return {"k.cs": text, "main.cs": s}

    def build(self, d):
        csc = sorted(glob.glob("/usr/lib/dotnet/sdk/*/Roslyn/bincore/csc.dll"))[-1]
        ref = sorted(glob.glob("/usr/lib/dotnet/packs/Microsoft.NETCore.App.Ref/*/ref/net*"))
        refdir = ref[-1] if ref else sorted(glob.glob("/usr/lib/dotnet/shared/Microsoft.NETCore.App/*"))[-1]
        refs = [f"-r:{x}" for x in glob.glob(refdir + "/*.dll") if not os.path.basename(x).startswith(("mscor", "lib")) or "mscorlib" in x] if ref else \
               [f"-r:{refdir}/{x}.dll" for x in ("System.Runtime", "System.Private.CoreLib", "System.Console", "System.Collections", "System.Linq", "System.Runtime.Extensions", "System.IO", "System.Text.Encoding.Extensions", "mscorlib", "netstandard")]
        r = run(["dotnet", "exec", csc, "-nologo", "-noconfig", "-nostdlib+", "-optimize-", "-langversion:latest", "-nowarn:CS1701,CS0168,CS0219", "-out:drv.dll", *refs, "k.cs", "main.cs"], d)
        if r.returncode:
            raise BuildError((r.stdout + r.stderr)[:3000])
        rv = sorted(os.listdir("/usr/lib/dotnet/shared/Microsoft.NETCore.App"))[-1]
        with open(os.path.join(d, "drv.runtimeconfig.json"), "w") as f:
            json.dump({"runtimeOptions": {"tfm": "net8.0", "framework": {"name": "Microsoft.NETCore.App", "version": rv}}}, f)

    def argv(self, d):
        return ["dotnet", "exec", os.path.join(d, "drv.dll")]
    envx = {}
