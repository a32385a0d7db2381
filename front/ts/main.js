// Front end: TypeScript source (the typescript compiler's parser) to the common intermediate form, as JSON.
// One line of output per file named on stdin.
const ts = require(process.env.BVC_TS || "/opt/veriftools/node/node_modules/typescript");
const fs = require("fs");
const K = ts.SyntaxKind;
let sf;

function fail(n, what) {
  const p = sf.getLineAndCharacterOfPosition(n.getStart(sf));
  throw new Error(`${p.line + 1}:${p.character + 1}: ${what} (${K[n.kind]})`);
}

function typ(t) {
  if (!t) return null;
  switch (t.kind) {
    case K.NumberKeyword: return "number";
    case K.StringKeyword: return "string";
    case K.BooleanKeyword: return "boolean";
    case K.BigIntKeyword: return "bigint";
    case K.VoidKeyword: return "void";
    case K.AnyKeyword: case K.UnknownKeyword: return "any";
    case K.UndefinedKeyword: return "undefined";
    case K.LiteralType: return "literal";
    case K.ArrayType: return ["array", typ(t.elementType)];
    case K.UnionType: return ["union", ...t.types.map(typ)];
    case K.ParenthesizedType: return typ(t.type);
    case K.TypeReference: {
      const n = t.typeName.getText(sf);
      if (t.typeArguments && t.typeArguments.length) {
        const a = t.typeArguments.map(typ);
        return n === "Array" || n === "StaticArray" ? ["array", a[0]] : [n, ...a];
      }
      return n;
    }
    case K.FunctionType: return "func";
    case K.TypeOperator: return typ(t.type);
    default: return t.getText(sf);
  }
}

const OPS = { [K.PlusToken]: "+", [K.MinusToken]: "-", [K.AsteriskToken]: "*", [K.SlashToken]: "/", [K.PercentToken]: "%",
  [K.EqualsEqualsToken]: "==", [K.ExclamationEqualsToken]: "!=", [K.EqualsEqualsEqualsToken]: "===", [K.ExclamationEqualsEqualsToken]: "!==",
  [K.LessThanToken]: "<", [K.LessThanEqualsToken]: "<=", [K.GreaterThanToken]: ">", [K.GreaterThanEqualsToken]: ">=",
  [K.AmpersandAmpersandToken]: "&&", [K.BarBarToken]: "||", [K.AmpersandToken]: "&", [K.BarToken]: "|", [K.CaretToken]: "^",
  [K.LessThanLessThanToken]: "<<", [K.GreaterThanGreaterThanToken]: ">>", [K.GreaterThanGreaterThanGreaterThanToken]: ">>>" };
const ASG = { [K.EqualsToken]: "=", [K.PlusEqualsToken]: "+=", [K.MinusEqualsToken]: "-=", [K.AsteriskEqualsToken]: "*=", [K.SlashEqualsToken]: "/=",
  [K.PercentEqualsToken]: "%=", [K.AmpersandEqualsToken]: "&=", [K.BarEqualsToken]: "|=", [K.CaretEqualsToken]: "^=",
  [K.LessThanLessThanEqualsToken]: "<<=", [K.GreaterThanGreaterThanEqualsToken]: ">>=", [K.GreaterThanGreaterThanGreaterThanEqualsToken]: ">>>=" };

function expr(e) {
  switch (e.kind) {
    case K.Identifier: return e.text === "undefined" ? { k: "undef" } : { k: "var", n: e.text };
    case K.ThisKeyword: return { k: "var", n: "this" };
    case K.SuperKeyword: return { k: "var", n: "super" };
    case K.TrueKeyword: case K.FalseKeyword: return { k: "bool", v: e.kind === K.TrueKeyword };
    case K.NullKeyword: return { k: "null" };
    case K.NumericLiteral: {
      const s = e.getText(sf).replace(/_/g, "");
      const v = Number(s);
      if (Number.isInteger(v) && !/^[0-9]*\.[0-9]*$|^[0-9.]+e/i.test(s)) return { k: "int", v: String(BigInt(s)) };
      return { k: "flt", v: String(v), raw: s };
    }
    case K.BigIntLiteral: return { k: "int", v: String(BigInt(e.getText(sf).replace(/[_n]/g, ""))), t: "big" };
    case K.StringLiteral: case K.NoSubstitutionTemplateLiteral: return { k: "str", v: e.text };
    case K.TemplateExpression: return { k: "tpl", els: e.templateSpans.map(s => expr(s.expression)) };
    case K.ParenthesizedExpression: return { k: "paren", x: expr(e.expression) };
    case K.AsExpression: case K.TypeAssertionExpression: case K.SatisfiesExpression:
      return { k: "as", x: expr(e.expression), t: typ(e.type) };
    case K.NonNullExpression: return { k: "nonnull", x: expr(e.expression) };
    case K.PropertyAccessExpression:
      if (e.questionDotToken) fail(e, "optional chain");
      return { k: "field", x: expr(e.expression), n: e.name.text };
    case K.ElementAccessExpression: return { k: "index", x: expr(e.expression), i: expr(e.argumentExpression) };
    case K.CallExpression: {
      const r = { k: "call", f: expr(e.expression), a: e.arguments.map(expr) };
      if (e.typeArguments && e.typeArguments.length) r.ta = e.typeArguments.map(typ);
      return r;
    }
    case K.NewExpression: {
      const r = { k: "newx", n: e.expression.getText(sf), a: (e.arguments || []).map(expr) };
      if (e.typeArguments && e.typeArguments.length) r.ta = e.typeArguments.map(typ);
      return r;
    }
    case K.ArrayLiteralExpression: return { k: "arr", els: e.elements.map(expr) };
    case K.ObjectLiteralExpression: return { k: "obj", f: e.properties.map(p => {
      if (p.kind === K.ShorthandPropertyAssignment) return [p.name.text, { k: "var", n: p.name.text }];
      if (p.kind !== K.PropertyAssignment) fail(p, "object member");
      return [p.name.text, expr(p.initializer)]; }) };
    case K.ConditionalExpression: return { k: "cond", c: expr(e.condition), x: expr(e.whenTrue), y: expr(e.whenFalse) };
    case K.PrefixUnaryExpression: {
      const o = { [K.ExclamationToken]: "!", [K.MinusToken]: "-", [K.PlusToken]: "+", [K.TildeToken]: "~" }[e.operator];
      if (o) return { k: "un", o, x: expr(e.operand) };
      return { k: "inc", o: e.operator === K.PlusPlusToken ? "++" : "--", pre: true, x: expr(e.operand) };
    }
    case K.PostfixUnaryExpression: return { k: "inc", o: e.operator === K.PlusPlusToken ? "++" : "--", pre: false, x: expr(e.operand) };
    case K.BinaryExpression: {
      const o = e.operatorToken.kind;
      if (o === K.InstanceOfKeyword) return { k: "instanceof", x: expr(e.left), t: e.right.getText(sf) };
      if (o === K.InKeyword) return { k: "in", x: expr(e.left), y: expr(e.right) };
      if (o === K.QuestionQuestionToken) return { k: "coalesce", x: expr(e.left), y: expr(e.right) };
      if (ASG[o]) return { k: "asg", o: ASG[o], l: expr(e.left), r: expr(e.right) };
      if (OPS[o]) return { k: "bin", o: OPS[o], x: expr(e.left), y: expr(e.right) };
      fail(e, "operator");
    }
    case K.TypeOfExpression: return { k: "typeof", x: expr(e.expression) };
    case K.VoidExpression: return { k: "undef" };
    case K.ArrowFunction: case K.FunctionExpression: return { k: "lam", fn: func(e) };
    default: fail(e, "expression");
  }
}

function params(ps) {
  return ps.map(p => {
    if (p.name.kind !== K.Identifier) fail(p, "parameter");
    const r = { n: p.name.text, t: typ(p.type) };
    if (p.initializer) r.d = expr(p.initializer);
    if (p.questionToken) r.opt = true;
    if (p.dotDotDotToken) r.rest = true;
    if (p.modifiers && p.modifiers.some(m => m.kind === K.PublicKeyword || m.kind === K.PrivateKeyword || m.kind === K.ReadonlyKeyword || m.kind === K.ProtectedKeyword)) r.prop = true;
    return r;
  });
}

function func(f) {
  const r = { params: params(f.parameters), ret: typ(f.type) };
  if (!f.body) r.body = null;
  else if (f.body.kind === K.Block) r.body = block(f.body);
  else r.body = [{ k: "return", x: expr(f.body) }];
  return r;
}

function decls(l) {
  return l.declarations.map(d => {
    if (d.name.kind === K.ArrayBindingPattern) return { k: "decl", ns: d.name.elements.map(x => x.name ? x.name.text : "_"), x: expr(d.initializer) };
    if (d.name.kind !== K.Identifier) fail(d, "binding");
    const r = { k: "decl", n: d.name.text, t: typ(d.type) };
    if (d.initializer) r.x = expr(d.initializer);
    return r;
  });
}

function block(b) { return stmts(b.statements); }
function stmts(ss) { const r = []; for (const s of ss) r.push(...stmt(s)); return r; }
function one(s) { return s.kind === K.Block ? block(s) : stmt(s); }

function stmt(s, label) {
  switch (s.kind) {
    case K.VariableStatement: return decls(s.declarationList);
    case K.ExpressionStatement: return [{ k: "expr", x: expr(s.expression) }];
    case K.Block: return [{ k: "block", b: block(s), label }];
    case K.EmptyStatement: case K.TypeAliasDeclaration: case K.InterfaceDeclaration: return [];
    case K.IfStatement: {
      const r = { k: "if", c: expr(s.expression), a: one(s.thenStatement) };
      if (s.elseStatement) r.b = one(s.elseStatement);
      return [r];
    }
    case K.ReturnStatement: return [s.expression ? { k: "return", x: expr(s.expression) } : { k: "return" }];
    case K.ThrowStatement: return [{ k: "throw", x: expr(s.expression) }];
    case K.BreakStatement: return [{ k: "break", label: s.label && s.label.text }];
    case K.ContinueStatement: return [{ k: "continue", label: s.label && s.label.text }];
    case K.LabeledStatement: return stmt(s.statement, s.label.text);
    case K.WhileStatement: return [{ k: "while", c: expr(s.expression), b: one(s.statement), label }];
    case K.DoStatement: return [{ k: "while", do: true, c: expr(s.expression), b: one(s.statement), label }];
    case K.ForStatement: {
      const r = { k: "while", b: one(s.statement), label };
      if (s.initializer) r.init = s.initializer.kind === K.VariableDeclarationList ? decls(s.initializer) : [{ k: "expr", x: expr(s.initializer) }];
      if (s.condition) r.c = expr(s.condition);
      if (s.incrementor) r.step = [expr(s.incrementor)];
      return [r];
    }
    case K.ForOfStatement: {
      const d = s.initializer.declarations[0];
      const r = { k: "foreach", x: expr(s.expression), b: one(s.statement), label };
      if (d.name.kind === K.Identifier) r.n = d.name.text;
      else r.ns = d.name.elements.map(x => x.name ? x.name.text : "_");
      return [r];
    }
    case K.SwitchStatement: {
      const r = { k: "switch", x: expr(s.expression), cases: [], default: null };
      let vs = [];
      const cl = s.caseBlock.clauses;
      cl.forEach((c, i) => {
        if (c.kind === K.DefaultClause) {
          if (vs.length) fail(c, "case and default together");
          r.default = body(c, i === cl.length - 1);
          return;
        }
        vs.push(expr(c.expression));
        if (!c.statements.length && i < cl.length - 1) return;
        r.cases.push({ v: vs, b: body(c, i === cl.length - 1) });
        vs = [];
      });
      function body(c, last) {
        const b = stmts(c.statements);
        if (!last && !ends(b)) fail(c, "fall through");
        return b;
      }
      return [r];
    }
    case K.TryStatement: {
      const r = { k: "tryc", b: block(s.tryBlock), h: null };
      if (s.catchClause) {
        r.h = block(s.catchClause.block);
        if (s.catchClause.variableDeclaration) r.n = s.catchClause.variableDeclaration.name.text;
      }
      if (s.finallyBlock) r.fin = block(s.finallyBlock);
      return [r];
    }
    case K.FunctionDeclaration: return [{ k: "decl", n: s.name.text, x: { k: "lam", fn: func(s) } }];
    default: fail(s, "statement");
  }
}

function ends(b) {
  if (!b.length) return false;
  const l = b[b.length - 1];
  if (["return", "throw", "break", "continue"].includes(l.k)) return true;
  if (l.k === "block") return ends(l.b);
  if (l.k === "if") return !!l.b && ends(l.a) && ends(l.b);
  return false;
}

function top(src) {
  sf = ts.createSourceFile("m.ts", src, ts.ScriptTarget.ES2022, true);
  if (sf.parseDiagnostics && sf.parseDiagnostics.length) return { error: ts.flattenDiagnosticMessageText(sf.parseDiagnostics[0].messageText, " ") };
  const m = { funcs: {}, methods: {}, types: {}, consts: {}, bad: {} };
  const guard = (n, f) => { try { f(); } catch (e) { m.bad[n] = String(e.message); } };
  function go(ss) {
    for (const s of ss) {
      switch (s.kind) {
        case K.FunctionDeclaration: if (s.body) guard(s.name.text, () => { m.funcs[s.name.text] = func(s); }); break;
        case K.VariableStatement:
          for (const d of s.declarationList.declarations) guard(d.name.text, () => { m.consts[d.name.text] = { x: expr(d.initializer), t: typ(d.type) }; });
          break;
        case K.EnumDeclaration: guard(s.name.text, () => {
          m.types[s.name.text] = { kind: "enum", members: s.members.map(x => [x.name.text, x.initializer ? expr(x.initializer) : null]) }; });
          break;
        case K.ClassDeclaration: {
          const c = s.name.text;
          const d = { kind: "struct", fields: [], ext: null, abstract: false };
          m.types[c] = d;
          for (const h of s.heritageClauses || []) if (h.token === K.ExtendsKeyword) d.ext = h.types[0].expression.getText(sf);
          for (const x of s.members) {
            const st = (x.modifiers || []).some(q => q.kind === K.StaticKeyword);
            if (x.kind === K.PropertyDeclaration) guard(c + "." + x.name.text, () => {
              if (st) { m.consts[c + "." + x.name.text] = { x: expr(x.initializer), t: typ(x.type) }; return; }
              d.fields.push({ n: x.name.text, t: typ(x.type), x: x.initializer ? expr(x.initializer) : null }); });
            else if (x.kind === K.MethodDeclaration) guard(c + "." + x.name.text, () => {
              if (!x.body) return;
              if (st) m.funcs[c + "." + x.name.text] = func(x);
              else m.methods[c + "." + x.name.text] = Object.assign(func(x), { recv: "this" }); });
            else if (x.kind === K.GetAccessor) guard(c + "." + x.name.text, () => { m.methods[c + ".get " + x.name.text] = Object.assign(func(x), { recv: "this" }); });
            else if (x.kind === K.Constructor) guard(c + ".constructor", () => { if (x.body) m.methods[c + ".constructor"] = Object.assign(func(x), { recv: "this" }); });
            else if (x.kind !== K.SemicolonClassElement) m.bad[c + "." + (x.name ? x.name.getText(sf) : "?")] = "class member";
          }
          break;
        }
        case K.ModuleDeclaration: go(s.body.statements); break;
        case K.ImportDeclaration: m.imports = (m.imports || []).concat([s.getText(sf)]); break;
        case K.TypeAliasDeclaration: m.types[s.name.text] = { kind: "alias", t: typ(s.type) }; break;
        case K.InterfaceDeclaration: case K.ExportDeclaration: case K.EmptyStatement: break;
        default: m.bad["line " + (sf.getLineAndCharacterOfPosition(s.getStart(sf)).line + 1)] = K[s.kind];
      }
    }
  }
  go(sf.statements);
  return m;
}

const out = [];
for (const f of fs.readFileSync(0, "utf-8").split("\n").filter(x => x)) {
  try { out.push(JSON.stringify(top(fs.readFileSync(f, "utf-8")))); }
  catch (e) { out.push(JSON.stringify({ error: String(e.message) })); }
}
process.stdout.write(out.join("\n") + "\n");
