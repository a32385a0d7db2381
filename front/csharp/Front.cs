using System;
using System.Collections.Generic;
using System.Globalization;
using System.IO;
using System.Linq;
using System.Text;
using System.Text.Json;
using Microsoft.CodeAnalysis;
using Microsoft.CodeAnalysis.CSharp;
using Microsoft.CodeAnalysis.CSharp.Syntax;
using Microsoft.CodeAnalysis.Operations;
using D = System.Collections.Generic.Dictionary<string, object>;

static class Front {
  public static int Run(string refs) {
    var rs = Directory.GetFiles(refs, "*.dll").Where(f => { try { System.Reflection.AssemblyName.GetAssemblyName(f); return true; } catch (Exception) { return false; } })
      .Select(f => (MetadataReference)MetadataReference.CreateFromFile(f)).ToList();
    var o = new StreamWriter(Console.OpenStandardOutput(), new UTF8Encoding(false));
    string line;
    var si = new StreamReader(Console.OpenStandardInput());
    while ((line = si.ReadLine()) != null) {
      if (line.Length == 0) continue;
      o.WriteLine(JsonSerializer.Serialize(new One().Do(File.ReadAllText(line), rs), new JsonSerializerOptions { MaxDepth = 2000, Encoder = System.Text.Encodings.Web.JavaScriptEncoder.Default }));
    }
    o.Flush();
    return 0;
  }
}

class One {
  CSharpCompilation comp;
  SemanticModel model;

  static D N(string k, params object[] kv) {
    var d = new D { ["k"] = k };
    for (int i = 0; i < kv.Length; i += 2) d[(string)kv[i]] = kv[i + 1];
    return d;
  }
  static D Unsup(string why) => N("unsup", "why", why);

  public D Do(string text, List<MetadataReference> refs) {
    var tree = CSharpSyntaxTree.ParseText(text, new CSharpParseOptions(LanguageVersion.Latest));
    comp = CSharpCompilation.Create("m", new[] { tree }, refs, new CSharpCompilationOptions(OutputKind.DynamicallyLinkedLibrary));
    model = comp.GetSemanticModel(tree);
    var errs = comp.GetDiagnostics().Where(x => x.Severity == DiagnosticSeverity.Error).Take(3).Select(x => x.ToString()).ToList();
    var types = new D(); var funcs = new D(); var methods = new D(); var consts = new D();
    var r = new D { ["types"] = types, ["funcs"] = funcs, ["methods"] = methods, ["consts"] = consts, ["errors"] = errs };
    if (errs.Count > 0) return r;
    foreach (var n in tree.GetRoot().DescendantNodes()) {
      if (n is EnumDeclarationSyntax en) {
        var s = model.GetDeclaredSymbol(en);
        types[Nm(s)] = new D { ["kind"] = "enum", ["base"] = T(s.EnumUnderlyingType),
          ["members"] = s.GetMembers().OfType<IFieldSymbol>().Where(f => f.HasConstantValue).Select(f => new object[] { f.Name, Big(f.ConstantValue) }).ToArray() };
      } else if (n is TypeDeclarationSyntax td) {
        var s = model.GetDeclaredSymbol(td);
        if (!types.ContainsKey(Nm(s)))
          types[Nm(s)] = new D { ["kind"] = "struct", ["fields"] = new List<D>(), ["ext"] = s.BaseType == null ? null : Nm(s.BaseType), ["val"] = s.IsValueType, ["exc"] = IsExc(s), ["chain"] = Chain(s) };
        var fs = (List<D>)((D)types[Nm(s)])["fields"];
        foreach (var m in td.Members) {
          if (m is FieldDeclarationSyntax fd) {
            foreach (var v in fd.Declaration.Variables) {
              var f = (IFieldSymbol)model.GetDeclaredSymbol(v);
              D x = f.HasConstantValue ? K(f.ConstantValue, f.Type) : v.Initializer == null ? null : E((model.GetOperation(v.Initializer) as IFieldInitializerOperation)?.Value);
              if (f.IsStatic || f.IsConst) consts[Nm(s) + "." + f.Name] = new D { ["t"] = T(f.Type), ["x"] = x ?? N("dflt", "t", T(f.Type)) };
              else fs.Add(new D { ["n"] = f.Name, ["t"] = T(f.Type), ["x"] = x });
            }
          } else if (m is PropertyDeclarationSyntax pd) {
            var p = model.GetDeclaredSymbol(pd);
            bool auto = pd.ExpressionBody == null && pd.AccessorList.Accessors.All(a => a.Body == null && a.ExpressionBody == null) && !p.IsAbstract;
            if (auto) {
              D x = pd.Initializer == null ? null : E((model.GetOperation(pd.Initializer) as IPropertyInitializerOperation)?.Value);
              if (p.IsStatic) consts[Nm(s) + "." + p.Name] = new D { ["t"] = T(p.Type), ["x"] = x ?? N("dflt", "t", T(p.Type)) };
              else fs.Add(new D { ["n"] = p.Name, ["t"] = T(p.Type), ["x"] = x });
            } else {
              if (pd.ExpressionBody != null) Put(p.GetMethod, Body(model.GetOperation(pd.ExpressionBody)), funcs, methods);
              else foreach (var a in pd.AccessorList.Accessors) Put((IMethodSymbol)model.GetDeclaredSymbol(a), Body(model.GetOperation(a)), funcs, methods);
            }
          } else if (m is BaseMethodDeclarationSyntax md) {
            var q = model.GetDeclaredSymbol(md);
            if (q.IsAbstract) continue;
            if (IsExc(s)) continue;
            Put(q, Body(model.GetOperation(md)), funcs, methods);
          }
        }
      }
    }
    return r;
  }

  void Put(IMethodSymbol q, List<D> body, D funcs, D methods) {
    var d = new D { ["params"] = q.Parameters.Select(p => new D { ["n"] = p.Name, ["t"] = T(p.Type), ["ref"] = p.RefKind != RefKind.None }).ToList(), ["body"] = body, ["ret"] = T(q.ReturnType) };
    if (!q.IsStatic) d["recv"] = "this";
    (q.IsStatic ? funcs : methods)[Key(q)] = d;
  }

  // ---- symbols
  static string Nm(ITypeSymbol s) => s.ContainingType != null && s.DeclaringSyntaxReferences.Length > 0 ? Nm(s.ContainingType) + "." + s.Name : s.Name;
  static bool IsExc(ITypeSymbol s) { for (; s != null; s = s.BaseType) if (s.Name == "Exception" && s.ContainingNamespace?.Name == "System") return true; return false; }
  static List<string> Chain(ITypeSymbol s) { var r = new List<string>(); for (; s != null; s = s.BaseType) r.Add(Nm(s)); return r; }
  static bool Src(ISymbol s) => s.DeclaringSyntaxReferences.Length > 0;

  static string Key(IMethodSymbol q) {
    q = q.OriginalDefinition;
    var n = q.MethodKind == MethodKind.Constructor ? "constructor" : q.MethodKind == MethodKind.PropertyGet ? "get " + q.AssociatedSymbol.Name : q.MethodKind == MethodKind.PropertySet ? "set " + q.AssociatedSymbol.Name
          : q.MethodKind == MethodKind.LocalFunction ? "local " + q.Name : q.Name;
    var k = Nm(q.ContainingType) + "." + n;
    var same = q.ContainingType.GetMembers(q.Name).OfType<IMethodSymbol>().Where(m => m.MethodKind == q.MethodKind && m.IsStatic == q.IsStatic && Src(m)).ToList();
    if (same.Count > 1) k += "(" + string.Join(",", q.Parameters.Select(p => p.Type.ToDisplayString())) + ")";
    return k;
  }

  static object T(ITypeSymbol t) {
    if (t == null) return "?";
    switch (t.SpecialType) {
      case SpecialType.System_Byte: return "u8"; case SpecialType.System_SByte: return "i8"; case SpecialType.System_UInt16: return "u16"; case SpecialType.System_Int16: return "i16";
      case SpecialType.System_UInt32: return "u32"; case SpecialType.System_Int32: return "i32"; case SpecialType.System_UInt64: return "u64"; case SpecialType.System_Int64: return "i64";
      case SpecialType.System_Boolean: return "bool"; case SpecialType.System_Single: return "f32"; case SpecialType.System_Double: return "f64"; case SpecialType.System_String: return "str";
      case SpecialType.System_Char: return "char"; case SpecialType.System_Object: return "obj"; case SpecialType.System_Void: return "void";
    }
    if (t is IArrayTypeSymbol a) return new object[] { "arr", T(a.ElementType) };
    if (t.TypeKind == TypeKind.Enum) return new object[] { "enum", Nm(t), T(((INamedTypeSymbol)t).EnumUnderlyingType) };
    if (t is INamedTypeSymbol n && n.IsGenericType) return new object[] { "g", n.Name }.Concat(n.TypeArguments.Select(T)).ToArray();
    return Nm(t);
  }

  static object Big(object v) => v is char c ? ((int)c).ToString() : Convert.ToString(v, CultureInfo.InvariantCulture);

  static D K(object v, ITypeSymbol t) {
    if (v == null) return N("null");
    if (v is bool b) return N("bool", "v", b);
    if (v is string s) return N("str", "v", s);
    if (v is float f) return N("fbits", "v", BitConverter.SingleToUInt32Bits(f).ToString(), "w", 4);
    if (v is double g) return N("fbits", "v", BitConverter.DoubleToUInt64Bits(g).ToString(), "w", 8);
    if (v is decimal) return Unsup("decimal");
    object ty = T(t);
    if (ty is object[] q && (string)q[0] == "enum") ty = q[2];
    if (ty is string z && z == "char") ty = "u16";
    return N("int", "v", Big(v), "t", ty);
  }

  // ---- statements
  List<D> Body(IOperation o) {
    var r = new List<D>();
    if (o is IMethodBodyOperation m) { if (m.BlockBody != null) Block(m.BlockBody, r); else if (m.ExpressionBody != null) Block(m.ExpressionBody, r); else r.Add(Unsup("body")); return r; }
    if (o is IConstructorBodyOperation c) {
      if (c.Initializer is IExpressionStatementOperation es && es.Operation is IInvocationOperation iv && !(iv.TargetMethod.ContainingType.SpecialType == SpecialType.System_Object || iv.Arguments.Length == 0)) r.Add(Unsup("constructor chaining"));
      if (c.BlockBody != null) Block(c.BlockBody, r); else if (c.ExpressionBody != null) Block(c.ExpressionBody, r);
      return r;
    }
    if (o is IBlockOperation b) { Block(b, r); return r; }
    r.Add(Unsup("body " + o?.Kind)); return r;
  }

  void Block(IBlockOperation b, List<D> r) { foreach (var s in b.Operations) St(s, r); }
  List<D> Sub(IOperation s) { var r = new List<D>(); if (s is IBlockOperation b) Block(b, r); else if (s != null) St(s, r); return r; }

  void Decls(IVariableDeclarationGroupOperation g, List<D> r) {
    foreach (var d in g.Declarations) foreach (var v in d.Declarators) {
      var init = v.Initializer ?? d.Initializer;
      if (v.Symbol.RefKind != RefKind.None) { r.Add(Unsup("ref local")); continue; }
      r.Add(N("decl", "n", v.Symbol.Name, "t", T(v.Symbol.Type), "x", init == null ? null : E(init.Value)));
    }
  }

  void St(IOperation s, List<D> r) {
    switch (s) {
      case IBlockOperation b: r.Add(N("block", "b", Sub(b))); return;
      case IVariableDeclarationGroupOperation g: Decls(g, r); return;
      case IExpressionStatementOperation e: r.Add(N("expr", "x", E(e.Operation))); return;
      case IConditionalOperation c: r.Add(N("if", "c", E(c.Condition), "a", Sub(c.WhenTrue), "b", c.WhenFalse == null ? null : Sub(c.WhenFalse))); return;
      case IReturnOperation q: r.Add(N("return", "x", q.ReturnedValue == null ? null : E(q.ReturnedValue))); return;
      case IThrowOperation t: r.Add(N("throw", "x", t.Exception == null ? N("var", "n", "$exc") : E(t.Exception))); return;
      case IBranchOperation b:
        if (b.BranchKind == BranchKind.Break) r.Add(N("break")); else if (b.BranchKind == BranchKind.Continue) r.Add(N("continue")); else r.Add(Unsup("goto"));
        return;
      case IEmptyOperation: r.Add(N("nop")); return;
      case IForLoopOperation f: {
        var init = new List<D>(); foreach (var x in f.Before) St(x, init);
        var step = f.AtLoopBottom.Select(x => x is IExpressionStatementOperation es ? E(es.Operation) : Unsup("step")).ToList();
        r.Add(N("while", "init", init, "c", f.Condition == null ? null : E(f.Condition), "step", step, "b", Sub(f.Body))); return;
      }
      case IWhileLoopOperation w:
        r.Add(N("while", "c", w.ConditionIsUntil ? N("un", "o", "!", "x", E(w.Condition)) : E(w.Condition), "do", !w.ConditionIsTop, "b", Sub(w.Body))); return;
      case IForEachLoopOperation fe: {
        var body = Sub(fe.Body);
        if (!(fe.LoopControlVariable is IVariableDeclaratorOperation lv) || fe.IsAsynchronous) { r.Add(Unsup("foreach variable")); return; }
        var info = model.GetForEachStatementInfo((CommonForEachStatementSyntax)fe.Syntax);
        string n = lv.Symbol.Name;
        if (info.ElementType != null && !SymbolEqualityComparer.Default.Equals(info.ElementType, lv.Symbol.Type)) {
          body.Insert(0, N("decl", "n", n, "t", T(lv.Symbol.Type), "x", N("cast", "t", T(lv.Symbol.Type), "x", N("var", "n", "$fe"))));
          n = "$fe";
        }
        var col = fe.Collection;
        while (col is IConversionOperation cv && cv.IsImplicit) col = cv.Operand;
        r.Add(N("foreach", "x", E(col), "n", n, "b", body)); return;
      }
      case ISwitchOperation sw: {
        var cs = new List<D>(); object df = null;
        foreach (var c in sw.Cases) {
          var body = new List<D>(); foreach (var x in c.Body) St(x, body);
          var vs = new List<D>(); bool isd = false;
          foreach (var cl in c.Clauses) {
            if (cl is IDefaultCaseClauseOperation) isd = true;
            else if (cl is ISingleValueCaseClauseOperation sv) vs.Add(E(sv.Value));
            else if (cl is IPatternCaseClauseOperation pc && pc.Guard == null && pc.Pattern is IConstantPatternOperation cp) vs.Add(E(cp.Value));
            else vs.Add(Unsup("case"));
          }
          if (isd) df = body;
          if (vs.Count > 0) cs.Add(new D { ["v"] = vs, ["b"] = body });
        }
        r.Add(N("switch", "x", E(sw.Value), "cases", cs, "default", df)); return;
      }
      case ITryOperation t: {
        var hs = new List<D>();
        foreach (var c in t.Catches) {
          string n = c.ExceptionDeclarationOrExpression is IVariableDeclaratorOperation v ? v.Symbol.Name : null;
          hs.Add(new D { ["t"] = c.ExceptionType == null || c.ExceptionType.SpecialType == SpecialType.System_Object ? "Exception" : Nm(c.ExceptionType), ["n"] = n, ["when"] = c.Filter == null ? null : E(c.Filter), ["b"] = Sub(c.Handler) });
        }
        r.Add(N("trycs", "b", Sub(t.Body), "hs", hs, "fin", t.Finally == null ? null : Sub(t.Finally))); return;
      }
      case ILocalFunctionOperation lf: {
        var lam = N("lam", "fn", new D { ["params"] = lf.Symbol.Parameters.Select(p => new D { ["n"] = p.Name, ["t"] = T(p.Type) }).ToList(), ["body"] = lf.Body == null ? new List<D> { Unsup("local function") } : Sub(lf.Body) });
        r.Insert(0, N("decl", "n", lf.Symbol.Name, "t", "fn", "x", lam)); return;
      }
      case ILabeledOperation: r.Add(Unsup("label")); return;
    }
    r.Add(Unsup("statement " + s?.Kind));
  }

  // ---- expressions
  static readonly Dictionary<BinaryOperatorKind, string> Ops = new Dictionary<BinaryOperatorKind, string> {
    [BinaryOperatorKind.Add] = "+", [BinaryOperatorKind.Subtract] = "-", [BinaryOperatorKind.Multiply] = "*", [BinaryOperatorKind.Divide] = "/", [BinaryOperatorKind.Remainder] = "%",
    [BinaryOperatorKind.And] = "&", [BinaryOperatorKind.Or] = "|", [BinaryOperatorKind.ExclusiveOr] = "^", [BinaryOperatorKind.LeftShift] = "<<", [BinaryOperatorKind.RightShift] = ">>", [BinaryOperatorKind.UnsignedRightShift] = ">>>",
    [BinaryOperatorKind.Equals] = "==", [BinaryOperatorKind.NotEquals] = "!=", [BinaryOperatorKind.LessThan] = "<", [BinaryOperatorKind.LessThanOrEqual] = "<=", [BinaryOperatorKind.GreaterThan] = ">", [BinaryOperatorKind.GreaterThanOrEqual] = ">=",
    [BinaryOperatorKind.ConditionalAnd] = "&&", [BinaryOperatorKind.ConditionalOr] = "||" };

  static string Cls(ISymbol m) => m.ContainingType == null ? "?" : Nm(m.ContainingType);

  D Arg(IArgumentOperation a) => a.Parameter != null && a.Parameter.RefKind != RefKind.None && a.Parameter.RefKind != RefKind.In ? Unsup("ref argument") : E(a.Value);

  D E(IOperation o) {
    if (o == null) return Unsup("nothing");
    if (o.ConstantValue.HasValue && o.Type != null) return K(o.ConstantValue.Value, o.Type);
    switch (o) {
      case ILiteralOperation l: return l.Type == null ? N("null") : K(l.ConstantValue.Value, l.Type);
      case IParenthesizedOperation p: return E(p.Operand);
      case ILocalReferenceOperation v: return N("var", "n", v.Local.Name);
      case IParameterReferenceOperation v: return N("var", "n", v.Parameter.Name);
      case IInstanceReferenceOperation i: return N("var", "n", i.ReferenceKind == InstanceReferenceKind.ImplicitReceiver ? "$init" : "this");
      case IFieldReferenceOperation f:
        if (f.Instance == null) return Src(f.Field) ? N("var", "n", Cls(f.Field) + "." + f.Field.Name) : N("sprop", "cls", Cls(f.Field), "n", f.Field.Name);
        return N("field", "x", E(f.Instance), "n", f.Field.Name);
      case IPropertyReferenceOperation p: {
        if (p.Arguments.Length == 1 && p.Instance != null) return N("index", "x", E(p.Instance), "i", E(p.Arguments[0].Value), "cls", Cls(p.Property));
        if (p.Arguments.Length > 0) return Unsup("indexer");
        if (Src(p.Property) && p.Property.GetMethod != null && !Auto(p.Property))
          return N("icall", "key", Key(p.Property.GetMethod), "cls", Cls(p.Property), "n", "get " + p.Property.Name, "x", p.Instance == null ? null : E(p.Instance), "a", new List<D>(), "pt", new List<object>(), "src", true);
        if (p.Instance == null) return Src(p.Property) ? N("var", "n", Cls(p.Property) + "." + p.Property.Name) : N("sprop", "cls", Cls(p.Property), "n", p.Property.Name);
        return N("field", "x", E(p.Instance), "n", p.Property.Name);
      }
      case IArrayElementReferenceOperation a:
        return a.Indices.Length == 1 ? N("index", "x", E(a.ArrayReference), "i", E(a.Indices[0]), "cls", "arr") : Unsup("array rank");
      case IConversionOperation c:
        if (c.OperatorMethod != null) return Unsup("user conversion");
        if (c.Type == null || c.Operand.Type == null) return E(c.Operand);
        return N("cast", "t", T(c.Type), "f", T(c.Operand.Type), "x", E(c.Operand), "chk", c.IsChecked, "try", c.IsTryCast);
      case IBinaryOperation b: {
        if (!Ops.TryGetValue(b.OperatorKind, out var q) || b.IsLifted) return Unsup("operator " + b.OperatorKind);
        if (b.OperatorMethod != null && b.OperatorMethod.ContainingType.SpecialType == SpecialType.None && b.OperatorMethod.ContainingType.Name != "String") return Unsup("user operator");
        return N("bin", "o", q, "x", E(b.LeftOperand), "y", E(b.RightOperand), "t", T(b.Type), "chk", b.IsChecked);
      }
      case IUnaryOperation u: {
        string q = u.OperatorKind == UnaryOperatorKind.Not ? "!" : u.OperatorKind == UnaryOperatorKind.Minus ? "-" : u.OperatorKind == UnaryOperatorKind.Plus ? "+" : u.OperatorKind == UnaryOperatorKind.BitwiseNegation ? "~" : null;
        return q == null || u.IsLifted ? Unsup("operator " + u.OperatorKind) : N("un", "o", q, "x", E(u.Operand));
      }
      case IIncrementOrDecrementOperation i:
        if (i.IsChecked) return Unsup("checked increment");
        return N("inc", "o", i.Kind == OperationKind.Increment ? "++" : "--", "x", E(i.Target), "pre", !i.IsPostfix);
      case ISimpleAssignmentOperation a:
        if (a.IsRef) return Unsup("ref assignment");
        if (a.Target is IDiscardOperation) return E(a.Value);
        if (a.Target is IPropertyReferenceOperation pr && (!Src(pr.Property) || !Auto(pr.Property)) && pr.Arguments.Length == 0)
          return N("setprop", "cls", Cls(pr.Property), "n", pr.Property.Name, "x", pr.Instance == null ? null : E(pr.Instance), "v", E(a.Value), "key", pr.Property.SetMethod == null ? null : Key(pr.Property.SetMethod), "src", Src(pr.Property));
        return N("asg", "o", "=", "l", E(a.Target), "r", E(a.Value));
      case ICompoundAssignmentOperation c: {
        if (!Ops.TryGetValue(c.OperatorKind, out var q)) return Unsup("operator");
        if (c.Target is IPropertyReferenceOperation pq && (!Src(pq.Property) || !Auto(pq.Property)) && pq.Arguments.Length == 0) return Unsup("compound assignment to a property");
        if (!c.IsChecked && (q == "+" || q == "-") && c.Value.ConstantValue.HasValue && c.Value.ConstantValue.Value is int) {
          return N("asg", "o", q + "=", "l", E(c.Target), "r", E(c.Value));
        }
        var opt = c.Value.Type;        // both operands have the operator's type
        var left = E(c.Target);
        D l = q == "<<" || q == ">>" || q == ">>>" ? N("cast", "t", Wide(c.Target.Type), "x", left) : c.InConversion.IsIdentity ? left : N("cast", "t", T(opt), "x", left);
        D r = N("bin", "o", q, "x", l, "y", E(c.Value), "t", T(opt), "chk", c.IsChecked);
        return N("asg", "o", "=", "l", left, "r", c.OutConversion.IsIdentity ? r : N("cast", "t", T(c.Target.Type), "x", r, "chk", c.IsChecked));
      }
      case IConditionalOperation c: return N("cond", "c", E(c.Condition), "x", E(c.WhenTrue), "y", E(c.WhenFalse));
      case ICoalesceOperation c: return N("coalesce", "x", E(c.Value), "y", E(c.WhenNull));
      case IThrowOperation t: return N("throwx", "x", t.Exception == null ? N("var", "n", "$exc") : E(t.Exception));
      case IInvocationOperation v: {
        var m = v.TargetMethod;
        if (m.MethodKind == MethodKind.LocalFunction || m.MethodKind == MethodKind.DelegateInvoke) {
          D f = m.MethodKind == MethodKind.LocalFunction ? N("var", "n", m.Name) : E(v.Instance);
          return N("call", "f", f, "a", InOrder(v.Arguments));
        }
        return N("icall", "key", Key(m), "cls", Cls(m), "n", m.Name, "x", v.Instance == null ? null : E(v.Instance), "a", InOrder(v.Arguments), "pt", m.Parameters.Select(p => T(p.Type)).ToList(),
          "ta", m.TypeArguments.Select(T).ToList(), "src", Src(m.OriginalDefinition), "virt", v.IsVirtual, "rt", T(m.ReturnType));
      }
      case IObjectCreationOperation n: {
        var t = (INamedTypeSymbol)n.Type;
        var x = N("newx", "n", Nm(t), "t", T(t), "a", InOrder(n.Arguments), "key", n.Constructor == null ? null : Key(n.Constructor), "exc", IsExc(t), "chain", Chain(t), "src", Src(t));
        if (n.Initializer == null) return x;
        var fs = new List<object>(); var els = new List<D>();
        foreach (var i in n.Initializer.Initializers) {
          if (i is ISimpleAssignmentOperation a && a.Target is IMemberReferenceOperation mr && mr.Instance is IInstanceReferenceOperation) fs.Add(new object[] { mr.Member.Name, E(a.Value) });
          else if (i is IInvocationOperation iv && iv.TargetMethod.Name == "Add" && iv.Arguments.Length == 1) els.Add(E(iv.Arguments[0].Value));
          else return Unsup("initializer");
        }
        return N("newi", "x", x, "f", fs, "els", els);
      }
      case IArrayCreationOperation a: {
        if (a.DimensionSizes.Length != 1) return Unsup("array rank");
        var et = T(((IArrayTypeSymbol)a.Type).ElementType);
        if (a.Initializer != null) return N("arrlit", "t", et, "els", a.Initializer.ElementValues.Select(E).ToList());
        return N("newarr", "t", et, "n", E(a.DimensionSizes[0]));
      }
      case ITypeOfOperation t: return N("typ", "t", Nm(t.TypeOperand));
      case IDefaultValueOperation d: return N("dflt", "t", T(d.Type));
      case IInterpolatedStringOperation s: return N("text", "a", s.Parts.OfType<IInterpolationOperation>().Select(q => E(q.Expression)).ToList());
      case IIsTypeOperation t: return N("isinst", "x", E(t.ValueOperand), "t", T(t.TypeOperand), "neg", t.IsNegated);
      case IIsPatternOperation p: return Pat(E(p.Value), p.Pattern);
      case IDelegateCreationOperation d: return E(d.Target);
      case IAnonymousFunctionOperation f: return N("lam", "fn", new D { ["params"] = f.Symbol.Parameters.Select(p => new D { ["n"] = p.Name, ["t"] = T(p.Type) }).ToList(), ["body"] = Sub(f.Body) });
      case ISwitchExpressionOperation w: {
        D acc = N("throwx", "x", N("newx", "n", "SwitchExpressionException", "t", "SwitchExpressionException", "a", new List<D>(), "exc", true, "chain", new List<string> { "SwitchExpressionException", "InvalidOperationException", "SystemException", "Exception" }));
        foreach (var arm in w.Arms.Reverse()) {
          if (arm.Guard != null) return Unsup("switch guard");
          acc = arm.Pattern is IDiscardPatternOperation ? E(arm.Value) : N("cond", "c", Pat(E(w.Value), arm.Pattern), "x", E(arm.Value), "y", acc);
        }
        return acc;
      }
    }
    return Unsup("expression " + o.Kind);
  }

  D Pat(D x, IPatternOperation p) {
    switch (p) {
      case IConstantPatternOperation c: return N("bin", "o", "==", "x", x, "y", E(c.Value), "t", "bool");
      case INegatedPatternOperation n: return N("un", "o", "!", "x", Pat(x, n.Pattern));
      case IBinaryPatternOperation b: return N("bin", "o", b.OperatorKind == BinaryOperatorKind.And ? "&&" : "||", "x", Pat(x, b.LeftPattern), "y", Pat(x, b.RightPattern), "t", "bool");
      case IRelationalPatternOperation r: return N("bin", "o", Ops[r.OperatorKind], "x", x, "y", E(r.Value), "t", "bool");
      case ITypePatternOperation t: return N("isinst", "x", x, "t", T(t.MatchedType), "neg", false);
      case IDiscardPatternOperation: return N("bool", "v", true);
    }
    return Unsup("pattern");
  }

  static object Wide(ITypeSymbol t) { var s = T(t); return s is string z && (z == "u8" || z == "i8" || z == "u16" || z == "i16") ? "i32" : s; }

  static bool Auto(IPropertySymbol p) => p.ContainingType.GetMembers().OfType<IFieldSymbol>().Any(f => SymbolEqualityComparer.Default.Equals(f.AssociatedSymbol, p));

  List<D> InOrder(IEnumerable<IArgumentOperation> a) => a.OrderBy(x => x.Parameter?.Ordinal ?? 0).Select(Arg).ToList();
}
