// C# to the common intermediate form, from the compiler's own bound tree (constants folded, overloads and conversions resolved).
using System;
using System.Collections.Generic;
using System.IO;
using System.Linq;
using System.Reflection;
using System.Text;

static class Start {
  static int Main(string[] a) {
    AppDomain.CurrentDomain.AssemblyResolve += (s, e) => {
      var f = Path.Combine(a[0], new AssemblyName(e.Name).Name + ".dll");
      return File.Exists(f) ? Assembly.LoadFrom(f) : null;
    };
    return Front.Run(a[1]);
  }
}
