// Front end: Go source (go/parser) to the common intermediate form, as JSON.  One line of output per file named on stdin.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type N = map[string]any

var fset *token.FileSet

func fail(n ast.Node, what string) {
	panic(fmt.Sprintf("%s: %s", fset.Position(n.Pos()), what))
}

func typ(e ast.Expr) any {
	switch t := e.(type) {
	case nil:
		return nil
	case *ast.Ident:
		return t.Name
	case *ast.ParenExpr:
		return typ(t.X)
	case *ast.StarExpr:
		return []any{"ptr", typ(t.X)}
	case *ast.ArrayType:
		if t.Len != nil {
			return []any{"array", typ(t.Elt), expr(t.Len)}
		}
		return []any{"slice", typ(t.Elt)}
	case *ast.SelectorExpr:
		return typ(t.X).(string) + "." + t.Sel.Name
	case *ast.InterfaceType:
		return "interface"
	case *ast.MapType:
		return []any{"map", typ(t.Key), typ(t.Value)}
	case *ast.Ellipsis:
		return []any{"slice", typ(t.Elt)}
	case *ast.FuncType:
		return "func"
	}
	fail(e, "type")
	return nil
}

func exprs(es []ast.Expr) []any {
	r := []any{}
	for _, e := range es {
		r = append(r, expr(e))
	}
	return r
}

func expr(e ast.Expr) any {
	switch x := e.(type) {
	case *ast.Ident:
		switch x.Name {
		case "true", "false":
			return N{"k": "bool", "v": x.Name == "true"}
		case "nil":
			return N{"k": "null"}
		}
		return N{"k": "var", "n": x.Name}
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			v, err := strconv.ParseInt(x.Value, 0, 64)
			if err != nil {
				u, err := strconv.ParseUint(x.Value, 0, 64)
				if err != nil {
					fail(e, "number")
				}
				return N{"k": "int", "v": strconv.FormatUint(u, 10)}
			}
			return N{"k": "int", "v": strconv.FormatInt(v, 10)}
		case token.STRING:
			s, _ := strconv.Unquote(x.Value)
			return N{"k": "str", "v": s}
		case token.CHAR:
			c, _, _, _ := strconv.UnquoteChar(x.Value[1:], '\'')
			return N{"k": "int", "v": strconv.Itoa(int(c))}
		case token.FLOAT:
			return N{"k": "flt", "v": x.Value}
		}
	case *ast.ParenExpr:
		switch x.X.(type) {
		case *ast.StarExpr, *ast.ArrayType:
		}
		return N{"k": "paren", "x": expr(x.X)}
	case *ast.SelectorExpr:
		return N{"k": "field", "x": expr(x.X), "n": x.Sel.Name}
	case *ast.IndexExpr:
		return N{"k": "index", "x": expr(x.X), "i": expr(x.Index)}
	case *ast.SliceExpr:
		n := N{"k": "slice", "x": expr(x.X)}
		if x.Low != nil {
			n["lo"] = expr(x.Low)
		}
		if x.High != nil {
			n["hi"] = expr(x.High)
		}
		return n
	case *ast.CallExpr:
		return N{"k": "call", "f": expr(x.Fun), "a": exprs(x.Args), "spread": x.Ellipsis.IsValid()}
	case *ast.StarExpr:
		return N{"k": "deref", "x": expr(x.X)}
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			return N{"k": "addr", "x": expr(x.X)}
		}
		o := x.Op.String()
		if o == "^" {
			o = "~"
		}
		return N{"k": "un", "o": o, "x": expr(x.X)}
	case *ast.BinaryExpr:
		return N{"k": "bin", "o": x.Op.String(), "x": expr(x.X), "y": expr(x.Y)}
	case *ast.ArrayType, *ast.MapType, *ast.InterfaceType:
		return N{"k": "typ", "t": typ(e)}
	case *ast.TypeAssertExpr:
		return N{"k": "is", "x": expr(x.X), "t": typ(x.Type)}
	case *ast.CompositeLit:
		n := N{"k": "new", "t": typ(x.Type)}
		fs, els := []any{}, []any{}
		for _, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if id, ok := kv.Key.(*ast.Ident); ok {
					fs = append(fs, []any{id.Name, expr(kv.Value)})
					continue
				}
				fail(e, "keyed literal")
			}
			els = append(els, expr(el))
		}
		n["f"] = fs
		n["els"] = els
		return n
	case *ast.FuncLit:
		return N{"k": "lam", "fn": fun(x.Type, x.Body, nil)}
	}
	fail(e, fmt.Sprintf("expression %T", e))
	return nil
}

func block(b *ast.BlockStmt) []any {
	if b == nil {
		return []any{}
	}
	return stmts(b.List)
}

func stmts(l []ast.Stmt) []any {
	r := []any{}
	for _, s := range l {
		r = append(r, stmt(s)...)
	}
	return r
}

func decl(d *ast.GenDecl) []any {
	r := []any{}
	for _, sp := range d.Specs {
		vs, ok := sp.(*ast.ValueSpec)
		if !ok {
			fail(d, "local declaration")
		}
		if len(vs.Values) == 1 && len(vs.Names) > 1 {
			ns := []any{}
			for _, n := range vs.Names {
				ns = append(ns, n.Name)
			}
			r = append(r, N{"k": "decl", "ns": ns, "x": expr(vs.Values[0])})
			continue
		}
		for i, n := range vs.Names {
			q := N{"k": "decl", "n": n.Name, "t": typ(vs.Type)}
			if i < len(vs.Values) {
				q["x"] = expr(vs.Values[i])
			}
			r = append(r, q)
		}
	}
	return r
}

// names declared so far, innermost block last: := redeclares in its own block only
var scopes []map[string]bool

func push()         { scopes = append(scopes, map[string]bool{}) }
func pop()          { scopes = scopes[:len(scopes)-1] }
func known(n string) bool { return len(scopes) > 0 && scopes[len(scopes)-1][n] }
func declare(n string) {
	if len(scopes) > 0 {
		scopes[len(scopes)-1][n] = true
	}
}

func stmt(s ast.Stmt) []any {
	one := func(n N) []any { return []any{n} }
	switch x := s.(type) {
	case *ast.ExprStmt:
		return one(N{"k": "expr", "x": expr(x.X)})
	case *ast.EmptyStmt:
		return nil
	case *ast.DeclStmt:
		r := decl(x.Decl.(*ast.GenDecl))
		for _, d := range r {
			if n, ok := d.(N)["n"]; ok {
				declare(n.(string))
			}
		}
		return r
	case *ast.AssignStmt:
		if x.Tok == token.DEFINE {
			if len(x.Lhs) == 1 {
				n := x.Lhs[0].(*ast.Ident).Name
				declare(n)
				return one(N{"k": "decl", "n": n, "x": expr(x.Rhs[0]), "infer": true})
			}
			ns, re := []any{}, []any{}
			for _, l := range x.Lhs {
				n := l.(*ast.Ident).Name
				ns = append(ns, n)
				re = append(re, known(n))
				declare(n)
			}
			if len(x.Rhs) == 1 {
				return one(N{"k": "decl", "ns": ns, "re": re, "x": expr(x.Rhs[0])})
			}
			return one(N{"k": "decl", "ns": ns, "re": re, "x": N{"k": "tuple", "els": exprs(x.Rhs)}})
		}
		if len(x.Lhs) == 1 {
			return one(N{"k": "expr", "x": N{"k": "asg", "o": x.Tok.String(), "l": expr(x.Lhs[0]), "r": expr(x.Rhs[0])}})
		}
		var r any
		if len(x.Rhs) == 1 {
			r = expr(x.Rhs[0])
		} else {
			r = N{"k": "tuple", "els": exprs(x.Rhs)}
		}
		return one(N{"k": "expr", "x": N{"k": "asg", "o": "=", "l": N{"k": "tuple", "els": exprs(x.Lhs)}, "r": r}})
	case *ast.IncDecStmt:
		return one(N{"k": "expr", "x": N{"k": "inc", "o": x.Tok.String(), "pre": true, "x": expr(x.X)}})
	case *ast.BlockStmt:
		push()
		defer pop()
		return one(N{"k": "block", "b": block(x)})
	case *ast.IfStmt:
		push()
		defer pop()
		n := N{"k": "if"}
		if x.Init != nil {
			n["init"] = stmt(x.Init)[0]
		}
		n["c"] = expr(x.Cond)
		push()
		n["a"] = block(x.Body)
		pop()
		if x.Else != nil {
			push()
			if b, ok := x.Else.(*ast.BlockStmt); ok {
				n["b"] = block(b)
			} else {
				n["b"] = stmt(x.Else)
			}
			pop()
		}
		return one(n)
	case *ast.ForStmt:
		push()
		defer pop()
		n := N{"k": "while"}
		if x.Init != nil {
			n["init"] = stmt(x.Init)
		}
		if x.Cond != nil {
			n["c"] = expr(x.Cond)
		}
		if x.Post != nil {
			st := []any{}
			for _, p := range stmt(x.Post) {
				st = append(st, p.(N)["x"])
			}
			n["step"] = st
		}
		push()
		n["b"] = block(x.Body)
		pop()
		return one(n)
	case *ast.RangeStmt:
		push()
		defer pop()
		n := N{"k": "foreach", "x": expr(x.X)}
		if x.Tok != token.DEFINE && (x.Key != nil || x.Value != nil) {
			fail(s, "range assignment")
		}
		if id, ok := x.Key.(*ast.Ident); ok && id.Name != "_" {
			n["idx"] = id.Name
		}
		if id, ok := x.Value.(*ast.Ident); ok && id.Name != "_" {
			n["n"] = id.Name
		}
		push()
		n["b"] = block(x.Body)
		pop()
		return one(n)
	case *ast.SwitchStmt:
		push()
		defer pop()
		n := N{"k": "switch"}
		pre := []any{}
		if x.Init != nil {
			pre = stmt(x.Init)
		}
		if x.Tag != nil {
			n["x"] = expr(x.Tag)
		}
		cs := []any{}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			push()
			b := stmts(cc.Body)
			pop()
			for _, q := range cc.Body {
				if br, ok := q.(*ast.BranchStmt); ok && br.Tok == token.FALLTHROUGH {
					fail(s, "fallthrough")
				}
			}
			if cc.List == nil {
				n["default"] = b
			} else {
				cs = append(cs, N{"v": exprs(cc.List), "b": b})
			}
		}
		n["cases"] = cs
		if len(pre) > 0 {
			return one(N{"k": "block", "b": append(pre, n)})
		}
		return one(n)
	case *ast.ReturnStmt:
		n := N{"k": "return"}
		if len(x.Results) == 1 {
			n["x"] = expr(x.Results[0])
		} else if len(x.Results) > 1 {
			n["x"] = N{"k": "tuple", "els": exprs(x.Results)}
		}
		return one(n)
	case *ast.BranchStmt:
		n := N{}
		switch x.Tok {
		case token.BREAK:
			n["k"] = "break"
		case token.CONTINUE:
			n["k"] = "continue"
		case token.FALLTHROUGH:
			return nil
		default:
			fail(s, "goto")
		}
		if x.Label != nil {
			n["label"] = x.Label.Name
		}
		return one(n)
	case *ast.LabeledStmt:
		r := stmt(x.Stmt)
		r[len(r)-1].(N)["label"] = x.Label.Name
		return r
	case *ast.DeferStmt:
		return one(N{"k": "defer", "b": []any{N{"k": "expr", "x": expr(x.Call)}}})
	}
	fail(s, fmt.Sprintf("statement %T", s))
	return nil
}

func fun(t *ast.FuncType, body *ast.BlockStmt, recv *ast.FieldList) N {
	scopes = nil
	push()
	n := N{}
	ps := []any{}
	if t.Params != nil {
		for _, f := range t.Params.List {
			_, rest := f.Type.(*ast.Ellipsis)
			for _, id := range f.Names {
				declare(id.Name)
				ps = append(ps, N{"n": id.Name, "t": typ(f.Type), "rest": rest})
			}
			if len(f.Names) == 0 {
				ps = append(ps, N{"n": "_", "t": typ(f.Type)})
			}
		}
	}
	n["params"] = ps
	rs, rn := []any{}, []any{}
	if t.Results != nil {
		for _, f := range t.Results.List {
			if len(f.Names) == 0 {
				rs = append(rs, typ(f.Type))
			}
			for _, id := range f.Names {
				rs = append(rs, typ(f.Type))
				rn = append(rn, id.Name)
				declare(id.Name)
			}
		}
	}
	n["results"] = rs
	n["rnames"] = rn
	if recv != nil && len(recv.List) > 0 {
		if len(recv.List[0].Names) > 0 {
			n["recv"] = recv.List[0].Names[0].Name
		}
		n["recvt"] = typ(recv.List[0].Type)
	}
	n["body"] = block(body)
	return n
}

func file(path string) (out N) {
	defer func() {
		if r := recover(); r != nil {
			out = N{"error": fmt.Sprint(r)}
		}
	}()
	fset = token.NewFileSet()
	f, err := parser.ParseFile(fset, path, nil, 0)
	if err != nil {
		return N{"error": err.Error()}
	}
	funcs, methods, types, consts := N{}, N{}, N{}, N{}
	bad := N{}
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			func() {
				name := x.Name.Name
				dest := funcs
				if x.Recv != nil {
					t := x.Recv.List[0].Type
					if st, ok := t.(*ast.StarExpr); ok {
						t = st.X
					}
					name = t.(*ast.Ident).Name + "." + name
					dest = methods
				}
				defer func() {
					if r := recover(); r != nil {
						bad[name] = fmt.Sprint(r)
					}
				}()
				n := fun(x.Type, x.Body, x.Recv)
				n["name"] = name
				if x.Recv != nil {
					_, isptr := x.Recv.List[0].Type.(*ast.StarExpr)
					n["recvptr"] = isptr
				}
				dest[name] = n
			}()
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				continue
			}
			var last []ast.Expr
			var lastT ast.Expr
			for i, sp := range x.Specs {
				switch y := sp.(type) {
				case *ast.TypeSpec:
					switch t := y.Type.(type) {
					case *ast.StructType:
						fs := []any{}
						for _, fl := range t.Fields.List {
							for _, id := range fl.Names {
								fs = append(fs, N{"n": id.Name, "t": typ(fl.Type)})
							}
						}
						types[y.Name.Name] = N{"kind": "struct", "fields": fs}
					case *ast.InterfaceType:
						types[y.Name.Name] = N{"kind": "iface"}
					default:
						types[y.Name.Name] = N{"kind": "alias", "t": typ(y.Type)}
					}
				case *ast.ValueSpec:
					vals := y.Values
					t := y.Type
					if len(vals) == 0 && x.Tok == token.CONST {
						vals, t = last, lastT
					}
					last, lastT = vals, t
					for j, id := range y.Names {
						c := N{"t": typ(t), "iota": i}
						if j < len(vals) {
							c["x"] = expr(vals[j])
						}
						consts[id.Name] = c
					}
				}
			}
		}
	}
	return N{"funcs": funcs, "methods": methods, "types": types, "consts": consts, "bad": bad}
}

func main() {
	sc := bufio.NewScanner(os.Stdin)
	w := json.NewEncoder(os.Stdout)
	w.SetEscapeHTML(false)
	for sc.Scan() {
		w.Encode(file(sc.Text()))
	}
}
