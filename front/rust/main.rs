// Typed bodies of a Rust module, one JSON object per file named on standard input.
// The compiler's own typed tree (THIR: every dereference, borrow, coercion and call target explicit) is written out node by node.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_errors;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_hir::{BindingMode, ByRef, MatchSource};
use rustc_middle::thir::*;
use rustc_middle::ty::util::IntTypeExt;
use rustc_middle::ty::{self, Ty, TyCtxt};
use std::io::{BufRead, Write};

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}
fn node(k: &str, f: &[(&str, String)]) -> String {
    let mut o = format!("{{\"k\":{}", q(k));
    for (a, b) in f {
        o.push_str(&format!(",{}:{}", q(a), b));
    }
    o.push('}');
    o
}
fn un(why: &str) -> String {
    node("unsup", &[("why", q(why))])
}
fn opt(x: Option<String>) -> String {
    x.unwrap_or_else(|| "null".to_string())
}

fn tyj<'t>(tcx: TyCtxt<'t>, t: Ty<'t>) -> String {
    match t.kind() {
        ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => q(&t.to_string()),
        ty::Adt(d, a) => {
            if Some(d.did()) == tcx.lang_items().string() {
                return q("String");
            }
            let r = d.repr();
            let rep = if d.is_enum() { q(&discr_ty(tcx, *d)) } else { "null".into() };
            let _ = r;
            arr(vec![q("adt"), q(tcx.item_name(d.did()).as_str()), arr(a.types().map(|x| tyj(tcx, x)).collect()), d.did().is_local().to_string(), rep])
        }
        ty::Ref(_, x, m) => arr(vec![q("ref"), m.is_mut().to_string(), tyj(tcx, *x)]),
        ty::RawPtr(x, m) => arr(vec![q("ptr"), m.is_mut().to_string(), tyj(tcx, *x)]),
        ty::Slice(x) => arr(vec![q("slice"), tyj(tcx, *x)]),
        ty::Array(x, n) => arr(vec![q("arr"), tyj(tcx, *x), n.try_to_target_usize(tcx).map(|n| n.to_string()).unwrap_or("null".into())]),
        ty::Tuple(x) => arr(vec![q("tuple"), arr(x.iter().map(|x| tyj(tcx, x)).collect())]),
        ty::FnDef(d, _) => arr(vec![q("fn"), q(tcx.opt_item_name(*d).map(|s| s.to_string()).unwrap_or_default().as_str())]),
        ty::Closure(..) => arr(vec![q("closure")]),
        ty::Param(p) => arr(vec![q("param"), q(p.name.as_str())]),
        _ => arr(vec![q("other"), q(&t.to_string())]),
    }
}
fn discr_ty<'t>(tcx: TyCtxt<'t>, d: ty::AdtDef<'t>) -> String {
    d.repr().discr_type().to_ty(tcx).to_string()
}
fn fieldless(d: ty::AdtDef<'_>) -> bool {
    d.is_enum() && d.variants().iter().all(|v| v.fields.is_empty())
}
fn discr<'t>(tcx: TyCtxt<'t>, d: ty::AdtDef<'t>, i: rustc_abi::VariantIdx) -> String {
    let x = d.discriminant_for_variant(tcx, i);
    bits(tcx, x.ty, x.val)
}
/// the number a bit pattern of an integer type stands for
fn bits<'t>(tcx: TyCtxt<'t>, t: Ty<'t>, v: u128) -> String {
    match t.kind() {
        ty::Int(i) => {
            let w = i.bit_width().unwrap_or(tcx.sess_width());
            let s = 128 - w as u32;
            (((v << s) as i128) >> s).to_string()
        }
        _ => v.to_string(),
    }
}
trait Width {
    fn sess_width(&self) -> u64;
}
impl<'t> Width for TyCtxt<'t> {
    fn sess_width(&self) -> u64 {
        self.data_layout.pointer_size().bits()
    }
}

struct Cx<'a, 't> {
    tcx: TyCtxt<'t>,
    th: &'a Thir<'t>,
    owner: LocalDefId,
}

impl<'a, 't> Cx<'a, 't> {
    fn var(&self, v: LocalVarId) -> String {
        q(&format!("{}#{}", self.tcx.hir_name(v.0), v.0.local_id.as_u32()))
    }
    fn t(&self, t: Ty<'t>) -> String {
        tyj(self.tcx, t)
    }
    fn strip(&self, mut e: ExprId) -> ExprId {
        loop {
            match &self.th[e].kind {
                ExprKind::Scope { value, .. } => e = *value,
                ExprKind::ValueExpr { source } | ExprKind::NeverToAny { source } => e = *source,
                ExprKind::PlaceTypeAscription { source, .. } | ExprKind::ValueTypeAscription { source, .. } => e = *source,
                _ => return e,
            }
        }
    }
    fn es(&self, v: &[ExprId]) -> String {
        arr(v.iter().map(|e| self.e(*e)).collect())
    }
    fn block(&self, b: BlockId, label: Option<u32>) -> String {
        let b = &self.th[b];
        let mut ss = vec![];
        for s in b.stmts.iter() {
            ss.push(match &self.th[*s].kind {
                StmtKind::Expr { expr, .. } => node("expr", &[("x", self.e(*expr))]),
                StmtKind::Let { pattern, initializer, else_block, .. } => node(
                    "rlet",
                    &[("p", self.pat(pattern)), ("x", opt(initializer.map(|e| self.e(e)))), ("t", self.t(pattern.ty)), ("else", opt(else_block.map(|b| self.block(b, None))))],
                ),
            });
        }
        node("rblock", &[("ss", arr(ss)), ("x", opt(b.expr.map(|e| self.e(e)))), ("label", opt(if b.targeted_by_break { label.map(|l| l.to_string()) } else { None }))])
    }
    fn callee(&self, t: Ty<'t>) -> String {
        let tcx = self.tcx;
        let ty::FnDef(did, args) = t.kind() else { return "null".into() };
        let (mut did, mut args) = (*did, args.no_bound_vars().unwrap_or_else(|| panic!("late bound")));
        let name = |d: DefId| tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        let env = ty::TypingEnv::non_body_analysis(tcx, self.owner);
        let mut f: Vec<(&str, String)> = vec![];
        // x.into() and x.try_into() are U::from(x) and U::try_from(x)
        if let Some(tr) = tcx.trait_of_assoc(did) {
            let n = tcx.item_name(tr).to_string();
            let to = match n.as_str() {
                "Into" => tcx.get_diagnostic_item(rustc_span::Symbol::intern("From")),
                "TryInto" => tcx.get_diagnostic_item(rustc_span::Symbol::intern("TryFrom")),
                _ => None,
            };
            if let Some(to) = to {
                if !tr.is_local() {
                    let m = tcx.associated_items(to).in_definition_order().find(|i| matches!(i.kind, ty::AssocKind::Fn { .. })).unwrap().def_id;
                    args = tcx.mk_args(&[args[1], args[0]]);
                    did = m;
                }
            }
        }
        if let Some(tr) = tcx.trait_of_assoc(did) {
            f.push(("tr", q(&name(tr))));
            f.push(("self", self.t(args.type_at(0))));
            f.push(("targs", arr(args.types().skip(1).map(|t| self.t(t)).collect())));
        } else if let Some(im) = tcx.inherent_impl_of_assoc(did) {
            let st = tcx.type_of(im).instantiate(tcx, args).skip_norm_wip();
            f.push(("self", self.t(st)));
            f.push(("targs", arr(args.types().map(|t| self.t(t)).collect())));
        } else {
            f.push(("targs", arr(args.types().map(|t| self.t(t)).collect())));
        }
        f.push(("n", q(&name(did))));
        f.push(("crate", q(tcx.crate_name(did.krate).as_str())));
        let k = tcx.def_kind(did);
        if matches!(k, DefKind::Fn | DefKind::AssocFn) {
            match ty::Instance::try_resolve(tcx, env, did, args) {
                Ok(Some(i)) => {
                    if let ty::InstanceKind::Item(d) = i.def {
                        if d.is_local() {
                            f.push(("id", d.index.as_u32().to_string()));
                            if let Some(im) = tcx.impl_of_assoc(d) {
                                f.push(("derived", tcx.is_automatically_derived(im).to_string()));
                            }
                        }
                    }
                }
                _ => {
                    if did.is_local() {
                        f.push(("open", "true".into()));
                    }
                }
            }
        } else if let DefKind::Ctor(of, _) = k {
            let p = tcx.parent(did);
            let _ = of;
            f.push(("ctor", q(&name(p))));
            if let ty::FnPtr(..) | ty::FnDef(..) = t.kind() {
                let sig = tcx.fn_sig(did).instantiate(tcx, args).skip_norm_wip().output().skip_binder();
                if let ty::Adt(d, _) = sig.kind() {
                    f.push(("t", self.t(sig)));
                    f.push(("enum", d.is_enum().to_string()));
                }
            }
        }
        node("fun", &f)
    }
    fn lit(&self, t: Ty<'t>, v: u128) -> String {
        match t.kind() {
            ty::Bool => node("bool", &[("v", (v != 0).to_string())]),
            ty::Int(_) | ty::Uint(_) => node("int", &[("v", bits(self.tcx, t, v)), ("t", self.t(t))]),
            ty::Float(f) => node("fbits", &[("v", v.to_string()), ("w", (f.bit_width() / 8).to_string())]),
            _ => un("constant"),
        }
    }
    fn value(&self, v: ty::Value<'t>) -> String {
        if let Some(b) = v.try_to_raw_bytes(self.tcx) {
            let s = matches!(v.ty.peel_refs().kind(), ty::Str);
            return node(if s { "strb" } else { "bytes" }, &[("v", arr(b.iter().map(|x| x.to_string()).collect()))]);
        }
        match v.try_to_leaf() {
            Some(s) => self.lit(v.ty, s.to_bits(s.size())),
            None => un("constant"),
        }
    }
    fn pat(&self, p: &Pat<'t>) -> String {
        let tcx = self.tcx;
        let n = |k: &str, f: &[(&str, String)]| {
            let mut o = format!("{{\"p\":{}", q(k));
            for (a, b) in f {
                o.push_str(&format!(",{}:{}", q(a), b));
            }
            o + "}"
        };
        match &p.kind {
            PatKind::Wild => n("wild", &[]),
            PatKind::Binding { mode: BindingMode(by, _), var, subpattern, .. } => n(
                "bind",
                &[
                    ("n", self.var(*var)),
                    ("ref", (!matches!(by, ByRef::No)).to_string()),
                    ("mut", matches!(by, ByRef::Yes(_, m) if m.is_mut()).to_string()),
                    ("sub", opt(subpattern.as_ref().map(|s| self.pat(s)))),
                ],
            ),
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                let v = adt_def.variant(*variant_index);
                n(
                    "variant",
                    &[
                        ("e", q(tcx.item_name(adt_def.did()).as_str())),
                        ("v", q(v.name.as_str())),
                        ("d", discr(tcx, *adt_def, *variant_index)),
                        ("plain", fieldless(*adt_def).to_string()),
                        ("f", arr(subpatterns.iter().map(|f| arr(vec![f.field.as_u32().to_string(), self.pat(&f.pattern)])).collect())),
                    ],
                )
            }
            PatKind::Leaf { subpatterns } => {
                let names: Vec<String> = match p.ty.kind() {
                    ty::Adt(d, _) if d.is_struct() => d.non_enum_variant().fields.iter().map(|f| f.name.to_string()).collect(),
                    _ => vec![],
                };
                n(
                    "leaf",
                    &[(
                        "f",
                        arr(subpatterns
                            .iter()
                            .map(|f| {
                                let i = f.field.as_usize();
                                arr(vec![if names.len() > i { q(&names[i]) } else { i.to_string() }, self.pat(&f.pattern)])
                            })
                            .collect()),
                    )],
                )
            }
            PatKind::Deref { subpattern, .. } => n("deref", &[("sub", self.pat(subpattern))]),
            PatKind::Constant { value } => n("const", &[("x", self.value(*value))]),
            PatKind::Range(r) => {
                let b = |b: &PatRangeBoundary<'t>| match b {
                    PatRangeBoundary::Finite(v) => self.lit(r.ty, v.to_leaf().to_bits(v.to_leaf().size())),
                    _ => "null".into(),
                };
                n("range", &[("lo", b(&r.lo)), ("hi", b(&r.hi)), ("incl", matches!(r.end, rustc_hir::RangeEnd::Included).to_string())])
            }
            PatKind::Or { pats } => n("or", &[("ps", arr(pats.iter().map(|p| self.pat(p)).collect()))]),
            PatKind::Array { prefix, slice, suffix } | PatKind::Slice { prefix, slice, suffix } => n(
                "slice",
                &[
                    ("pre", arr(prefix.iter().map(|p| self.pat(p)).collect())),
                    ("mid", opt(slice.as_ref().map(|p| self.pat(p)))),
                    ("suf", arr(suffix.iter().map(|p| self.pat(p)).collect())),
                ],
            ),
            _ => n("unsup", &[]),
        }
    }
    fn has_let(&self, e: ExprId) -> bool {
        match &self.th[self.strip(e)].kind {
            ExprKind::Let { .. } => true,
            ExprKind::LogicalOp { lhs, rhs, .. } => self.has_let(*lhs) || self.has_let(*rhs),
            _ => false,
        }
    }
    fn lop(&self, b: ExprId, label: Option<u32>) -> String {
        let l = opt(label.map(|l| l.to_string()));
        let s = self.strip(b);
        if let ExprKind::Block { block } = &self.th[s].kind {
            let bl = &self.th[*block];
            if let (true, Some(x)) = (bl.stmts.is_empty(), bl.expr) {
                if let ExprKind::If { cond, then, else_opt: Some(el), .. } = &self.th[self.strip(x)].kind {
                    if !self.has_let(*cond) && self.is_break(*el, label) {
                        return node("rwhile", &[("c", self.e(*cond)), ("b", self.e(*then)), ("label", l)]);
                    }
                }
            }
        }
        node("rloop", &[("b", self.e(b)), ("label", l)])
    }
    fn is_break(&self, e: ExprId, label: Option<u32>) -> bool {
        match &self.th[self.strip(e)].kind {
            ExprKind::Break { label: l, value: None } => Some(l.local_id.as_u32()) == label,
            ExprKind::Block { block } => {
                let b = &self.th[*block];
                match (b.stmts.len(), b.expr) {
                    (0, Some(x)) => self.is_break(x, label),
                    (1, None) => match &self.th[b.stmts[0]].kind {
                        StmtKind::Expr { expr, .. } => self.is_break(*expr, label),
                        _ => false,
                    },
                    _ => false,
                }
            }
            _ => false,
        }
    }
    fn forloop(&self, scrut: ExprId, arm: ArmId) -> Option<String> {
        let ExprKind::Call { args, .. } = &self.th[self.strip(scrut)].kind else { return None };
        let head = args[0];
        let mut lp = self.th[arm].body;
        let mut label = None;
        loop {
            match &self.th[lp].kind {
                ExprKind::Scope { value, region_scope, .. } => {
                    label = Some(region_scope.local_id.as_u32());
                    lp = *value;
                }
                ExprKind::ValueExpr { source } | ExprKind::NeverToAny { source } => lp = *source,
                _ => break,
            }
        }
        let ExprKind::Loop { body } = &self.th[lp].kind else { return None };
        let ExprKind::Block { block } = &self.th[self.strip(*body)].kind else { return None };
        let b = &self.th[*block];
        let m = match (b.stmts.len(), b.expr) {
            (0, Some(x)) => x,
            (1, None) => match &self.th[b.stmts[0]].kind {
                StmtKind::Expr { expr, .. } => *expr,
                _ => return None,
            },
            _ => return None,
        };
        let ExprKind::Match { arms, match_source: MatchSource::ForLoopDesugar, .. } = &self.th[self.strip(m)].kind else { return None };
        let some = &self.th[arms[1]];
        let PatKind::Variant { subpatterns, .. } = &some.pattern.kind else { return None };
        Some(node(
            "rfor",
            &[("x", self.e(head)), ("xt", self.t(self.th[head].ty)), ("p", self.pat(&subpatterns[0].pattern)), ("b", self.e(some.body)), ("label", opt(label.map(|l| l.to_string())))],
        ))
    }
    fn e(&self, id: ExprId) -> String {
        let x = &self.th[id];
        let ty = || self.t(x.ty);
        match &x.kind {
            ExprKind::Scope { value, region_scope, .. } => match &self.th[*value].kind {
                ExprKind::Loop { body } => self.lop(*body, Some(region_scope.local_id.as_u32())),
                ExprKind::Block { block } => self.block(*block, Some(region_scope.local_id.as_u32())),
                _ => self.e(*value),
            },
            ExprKind::Loop { body } => self.lop(*body, None),
            ExprKind::Block { block } => self.block(*block, None),
            ExprKind::ValueExpr { source } | ExprKind::NeverToAny { source } => self.e(*source),
            ExprKind::PlaceTypeAscription { source, .. } | ExprKind::ValueTypeAscription { source, .. } => self.e(*source),
            ExprKind::If { cond, then, else_opt, .. } => node("rif", &[("c", self.e(*cond)), ("x", self.e(*then)), ("y", opt(else_opt.map(|e| self.e(e))))]),
            ExprKind::Let { expr, pat } => node("ifletc", &[("x", self.e(*expr)), ("p", self.pat(pat))]),
            ExprKind::Call { ty: ft, fun, args, .. } => {
                let f = self.callee(*ft);
                if f == "null" {
                    return node("dcall", &[("fx", self.e(*fun)), ("a", self.es(args)), ("t", ty())]);
                }
                node("rcall", &[("f", f), ("a", self.es(args)), ("t", ty()), ("at", arr(args.iter().map(|a| self.t(self.th[*a].ty)).collect()))])
            }
            ExprKind::Deref { arg } => node("deref", &[("x", self.e(*arg))]),
            ExprKind::Borrow { arg, borrow_kind } => node("addr", &[("x", self.e(*arg)), ("mut", (!matches!(borrow_kind, rustc_middle::mir::BorrowKind::Shared)).to_string())]),
            ExprKind::Reborrow { source, .. } => self.e(*source),
            ExprKind::Binary { op, lhs, rhs } => {
                use rustc_middle::mir::BinOp::*;
                let o = match op {
                    Add => "+", Sub => "-", Mul => "*", Div => "/", Rem => "%", BitXor => "^", BitAnd => "&", BitOr => "|", Shl => "<<", Shr => ">>",
                    Eq => "==", Lt => "<", Le => "<=", Ne => "!=", Ge => ">=", Gt => ">", _ => return un("operator"),
                };
                node("bin", &[("o", q(o)), ("x", self.e(*lhs)), ("y", self.e(*rhs)), ("t", ty())])
            }
            ExprKind::LogicalOp { op, lhs, rhs } => node("bin", &[("o", q(if matches!(op, LogicalOp::And) { "&&" } else { "||" })), ("x", self.e(*lhs)), ("y", self.e(*rhs)), ("lets", self.has_let(id).to_string())]),
            ExprKind::Unary { op, arg } => match op {
                rustc_middle::mir::UnOp::Not if x.ty.is_bool() => node("un", &[("o", q("!")), ("x", self.e(*arg))]),
                rustc_middle::mir::UnOp::Not => node("un", &[("o", q("~")), ("x", self.e(*arg))]),
                rustc_middle::mir::UnOp::Neg => node("un", &[("o", q("-")), ("x", self.e(*arg))]),
                _ => un("operator"),
            },
            ExprKind::Cast { source } => node("cast", &[("x", self.e(*source)), ("t", ty()), ("from", self.t(self.th[*source].ty))]),
            ExprKind::PointerCoercion { cast, source, .. } => match cast {
                ty::adjustment::PointerCoercion::Unsize => node("unsize", &[("x", self.e(*source)), ("t", ty())]),
                _ => un("pointer coercion"),
            },
            ExprKind::Match { scrutinee, arms, match_source } => {
                match match_source {
                    MatchSource::TryDesugar(_) => {
                        if let ExprKind::Call { args, .. } = &self.th[self.strip(*scrutinee)].kind {
                            let t = self.th[args[0]].ty;
                            return node("try", &[("x", self.e(args[0])), ("t", self.t(t)), ("rt", self.ret())]);
                        }
                    }
                    MatchSource::ForLoopDesugar => {
                        if let Some(s) = self.forloop(*scrutinee, arms[0]) {
                            return s;
                        }
                    }
                    _ => {}
                }
                let a = arms
                    .iter()
                    .map(|a| {
                        let a = &self.th[*a];
                        node("arm", &[("p", self.pat(&a.pattern)), ("g", opt(a.guard.map(|g| self.e(g)))), ("x", self.e(a.body))])
                    })
                    .collect();
                node("rmatch", &[("x", self.e(*scrutinee)), ("arms", arr(a))])
            }
            ExprKind::Assign { lhs, rhs } => node("asg", &[("o", q("=")), ("l", self.e(*lhs)), ("r", self.e(*rhs))]),
            ExprKind::AssignOp { op, lhs, rhs } => {
                let o = format!("{:?}", op);
                let o = match o.as_str() {
                    "AddAssign" => "+=", "SubAssign" => "-=", "MulAssign" => "*=", "DivAssign" => "/=", "RemAssign" => "%=", "BitXorAssign" => "^=", "BitAndAssign" => "&=",
                    "BitOrAssign" => "|=", "ShlAssign" => "<<=", "ShrAssign" => ">>=", _ => return un("operator"),
                };
                node("asg", &[("o", q(o)), ("l", self.e(*lhs)), ("r", self.e(*rhs))])
            }
            ExprKind::Field { lhs, variant_index, name } => match self.th[*lhs].ty.kind() {
                ty::Adt(d, _) if !d.is_enum() => node("field", &[("x", self.e(*lhs)), ("n", q(d.variant(*variant_index).fields[*name].name.as_str()))]),
                _ => node("tfield", &[("x", self.e(*lhs)), ("n", name.as_u32().to_string())]),
            },
            ExprKind::Index { lhs, index } => node("index", &[("x", self.e(*lhs)), ("i", self.e(*index))]),
            ExprKind::VarRef { id } => node("var", &[("n", self.var(*id))]),
            ExprKind::UpvarRef { var_hir_id, .. } => node("var", &[("n", self.var(*var_hir_id))]),
            ExprKind::Break { label, value } => node("rbreak", &[("label", label.local_id.as_u32().to_string()), ("x", opt(value.map(|v| self.e(v))))]),
            ExprKind::Continue { label } => node("rcontinue", &[("label", label.local_id.as_u32().to_string())]),
            ExprKind::Return { value } => node("rreturn", &[("x", opt(value.map(|v| self.e(v))))]),
            ExprKind::Repeat { value, count } => node("repeat", &[("x", self.e(*value)), ("c", count.try_to_target_usize(self.tcx).map(|c| c.to_string()).unwrap_or("null".into()))]),
            ExprKind::Array { fields } => node("arrlit", &[("els", self.es(fields)), ("t", ty())]),
            ExprKind::Tuple { fields } => node("tuple", &[("els", self.es(fields))]),
            ExprKind::Adt(a) => {
                let v = a.adt_def.variant(a.variant_index);
                let fs = a.fields.iter().map(|f| arr(vec![q(v.fields[f.name].name.as_str()), self.e(f.expr)])).collect();
                let mut f = vec![("t", ty()), ("v", q(v.name.as_str())), ("n", q(self.tcx.item_name(a.adt_def.did()).as_str())), ("f", arr(fs)), ("enum", a.adt_def.is_enum().to_string())];
                if a.adt_def.is_enum() {
                    f.push(("d", discr(self.tcx, a.adt_def, a.variant_index)));
                    f.push(("rep", q(&discr_ty(self.tcx, a.adt_def))));
                    f.push(("plain", fieldless(a.adt_def).to_string()));
                }
                match &a.base {
                    AdtExprBase::None => {}
                    AdtExprBase::Base(b) => f.push(("base", self.e(b.base))),
                    _ => return un("default fields"),
                }
                node("adt", &f)
            }
            ExprKind::Closure(c) => {
                let caps = self.tcx.closure_captures(c.closure_id);
                let mut vals = vec![];
                let mut refs = vec![];
                for (p, u) in caps.iter().zip(c.upvars.iter()) {
                    let rustc_middle::hir::place::PlaceBase::Upvar(up) = p.place.base else { return un("closure") };
                    let v = self.var(LocalVarId(up.var_path.hir_id));
                    if p.is_by_ref() || matches!(self.th[*u].kind, ExprKind::Borrow { .. }) {
                        refs.push(v);
                    } else {
                        vals.push(v);
                    }
                }
                vals.retain(|v| !refs.contains(v));
                closure(self.tcx, c.closure_id, vals)
            }
            ExprKind::Literal { lit, neg } => {
                use rustc_ast::ast::LitKind::*;
                match &lit.node {
                    Int(v, _) => {
                        let v = v.get();
                        if let ty::Float(f) = x.ty.kind() {
                            let _ = f;
                            return un("number");
                        }
                        node("int", &[("v", if *neg { format!("-{}", v) } else { v.to_string() }), ("t", ty())])
                    }
                    Byte(b) => node("int", &[("v", b.to_string()), ("t", ty())]),
                    Bool(b) => node("bool", &[("v", b.to_string())]),
                    Str(s, _) => node("strb", &[("v", arr(s.as_str().bytes().map(|x| x.to_string()).collect()))]),
                    ByteStr(s, _) => node("bytes", &[("v", arr(s.as_byte_str().iter().map(|x| x.to_string()).collect()))]),
                    Float(s, _) => {
                        let t = format!("{}{}", if *neg { "-" } else { "" }, s.as_str().replace('_', ""));
                        match x.ty.to_string().as_str() {
                            "f32" => node("fbits", &[("v", t.parse::<f32>().unwrap().to_bits().to_string()), ("w", "4".into())]),
                            "f64" => node("fbits", &[("v", t.parse::<f64>().unwrap().to_bits().to_string()), ("w", "8".into())]),
                            _ => un("number"),
                        }
                    }
                    _ => un("literal"),
                }
            }
            ExprKind::NonHirLiteral { lit, .. } => self.lit(x.ty, lit.to_bits(lit.size())),
            ExprKind::ZstLiteral { .. } => {
                let f = self.callee(x.ty);
                if f == "null" { un("literal") } else { node("fnval", &[("f", f)]) }
            }
            ExprKind::NamedConst { def_id, args, .. } => {
                let env = ty::TypingEnv::non_body_analysis(self.tcx, self.owner);
                if x.ty.is_integral() || x.ty.is_bool() {
                    let u = rustc_middle::mir::UnevaluatedConst::new(*def_id, args);
                    if let Ok(v) = self.tcx.const_eval_resolve(env, u, x.span) {
                        if let Some(s) = v.try_to_scalar_int() {
                            return self.lit(x.ty, s.to_bits(s.size()));
                        }
                    }
                }
                if def_id.is_local() && args.types().next().is_none() {
                    return node("rconst", &[("id", def_id.index.as_u32().to_string()), ("n", q(self.tcx.item_name(*def_id).as_str()))]);
                }
                un("constant")
            }
            ExprKind::ConstBlock { .. } => un("const block"),
            _ => un("expression"),
        }
    }
    fn ret(&self) -> String {
        match &self.th.body_type {
            BodyTy::Fn(s) => self.t(s.output()),
            BodyTy::Const(t) => self.t(*t),
            _ => "null".into(),
        }
    }
}

fn params<'t>(cx: &Cx<'_, 't>, skip: usize) -> String {
    arr(cx.th.params.iter().skip(skip).map(|p| node("param", &[("p", opt(p.pat.as_ref().map(|x| cx.pat(x)))), ("t", cx.t(p.ty))])).collect())
}

fn closure<'t>(tcx: TyCtxt<'t>, id: LocalDefId, vals: Vec<String>) -> String {
    let Ok((th, root)) = tcx.thir_body(id) else { return un("closure") };
    let th = th.borrow();
    let cx = Cx { tcx, th: &th, owner: id };
    node("closure", &[("params", params(&cx, 1)), ("b", cx.e(root)), ("vals", arr(vals)), ("ret", cx.ret())])
}

struct CB {
    out: Option<String>,
}

impl rustc_driver::Callbacks for CB {
    fn after_expansion<'t>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'t>) -> Compilation {
        let mut fns = vec![];
        let mut types = vec![];
        let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        let mut bad = false;
        for id in owners.iter() {
            let k = tcx.def_kind(*id);
            if !matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Const { .. } | DefKind::AssocConst { .. }) {
                continue;
            }
            let Ok((th, root)) = tcx.thir_body(*id) else {
                bad = true;
                continue;
            };
            let th = th.borrow();
            let cx = Cx { tcx, th: &th, owner: *id };
            let d = id.to_def_id();
            let mut f = vec![("id", d.index.as_u32().to_string()), ("n", q(tcx.item_name(d).as_str())), ("const", (!matches!(k, DefKind::Fn | DefKind::AssocFn)).to_string())];
            if let Some(im) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                f.push(("self", cx.t(st)));
                if tcx.impl_opt_trait_id(im).is_some() {
                    let r = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
                    f.push(("tr", q(tcx.item_name(r.def_id).as_str())));
                    f.push(("targs", arr(r.args.types().skip(1).map(|t| cx.t(t)).collect())));
                    f.push(("derived", tcx.is_automatically_derived(im).to_string()));
                }
            } else if let Some(tr) = tcx.trait_of_assoc(d) {
                f.push(("dtr", q(tcx.item_name(tr).as_str())));
            }
            f.push(("generic", (tcx.generics_of(d).own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime))).to_string()));
            f.push(("params", params(&cx, 0)));
            f.push(("ret", cx.ret()));
            f.push(("b", cx.e(root)));
            fns.push(node("fn", &f));
        }
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
                let a = tcx.adt_def(d);
                let vs = a
                    .variants()
                    .iter_enumerated()
                    .map(|(i, v)| {
                        let fs = v.fields.iter().map(|f| arr(vec![q(f.name.as_str()), tyj(tcx, tcx.type_of(f.did).instantiate_identity().skip_norm_wip())])).collect();
                        arr(vec![q(v.name.as_str()), if a.is_enum() { discr(tcx, a, i) } else { "null".into() }, arr(fs)])
                    })
                    .collect();
                types.push(node("type", &[("n", q(tcx.item_name(d).as_str())), ("enum", a.is_enum().to_string()), ("rep", if a.is_enum() { q(&discr_ty(tcx, a)) } else { "null".into() }), ("vs", arr(vs))]));
            }
        }
        if bad || tcx.dcx().has_errors().is_some() {
            self.out = Some("{\"error\":\"does not compile\"}".into());
        } else {
            self.out = Some(format!("{{\"fns\":{},\"types\":{}}}", arr(fns), arr(types)));
        }
        Compilation::Stop
    }
}

fn main() {
    let sysroot = std::env::args().nth(1).unwrap();
    let so = std::io::stdout();
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        if l.trim().is_empty() {
            continue;
        }
        let args: Vec<String> = ["rustc", &l, "--crate-type=lib", "--crate-name=m", "--edition=2021", "-Awarnings", "--sysroot", &sysroot].iter().map(|s| s.to_string()).collect();
        let mut cb = CB { out: None };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let _ = rustc_driver::catch_fatal_errors(|| rustc_driver::compiler_entrypoint(&args, &mut cb));
        }));
        let mut o = so.lock();
        match (r, cb.out) {
            (Ok(_), Some(s)) => writeln!(o, "{}", s).unwrap(),
            _ => writeln!(o, "{{\"error\":\"does not compile\"}}").unwrap(),
        }
        o.flush().unwrap();
    }
}
