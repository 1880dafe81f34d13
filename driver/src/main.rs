//! Dumps the type-checked program (THIR bodies, signatures, impls, ADTs) of one crate as JSON.
//! Used as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc, the rest its arguments.
//! A dump is written to $THIRDUMP_OUT/<crate name>.json for non-test library crates.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::thir::*;
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Ty, TyCtxt};
use std::collections::HashMap;
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: ToString>(x: T) -> J {
    J::S(x.to_string())
}
impl J {
    fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(n) => {
                let _ = write!(o, "{}", n);
            }
            J::S(t) => {
                o.push('"');
                for c in t.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    J::S(k.to_string()).write(o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let p = ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(self
            .tcx
            .def_path_str(d)));
        if d.is_local() {
            format!("{}::{}", self.tcx.crate_name(d.krate), p)
        } else {
            p
        }
    }
    fn id(&self, d: DefId) -> J {
        s(format!("{}:{}", self.tcx.crate_name(d.krate), d.index.as_u32()))
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for g in a.iter() {
            match g.kind() {
                GenericArgKind::Type(t) => v.push(self.ty(t)),
                GenericArgKind::Const(c) => v.push(J::O(vec![("const", s(format!("{:?}", c)))])),
                _ => {}
            }
        }
        J::A(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        if let Some(i) = self.tymap.get(&t) {
            return J::N(*i as i128);
        }
        let i = self.types.len();
        self.types.push(J::Null);
        self.tymap.insert(t, i);
        let j = match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                J::O(vec![("k", s("prim")), ("name", s(format!("{}", t)))])
            }
            ty::Adt(d, a) => {
                let p = self.path(d.did());
                let a = self.args(a);
                J::O(vec![("k", s("adt")), ("path", s(p)), ("id", self.id(d.did())), ("args", a)])
            }
            ty::Ref(_, u, m) => {
                let u2 = self.ty(*u);
                J::O(vec![("k", s("ref")), ("mut", J::B(m.is_mut())), ("ty", u2)])
            }
            ty::RawPtr(u, m) => {
                let u2 = self.ty(*u);
                J::O(vec![("k", s("ptr")), ("mut", J::B(m.is_mut())), ("ty", u2)])
            }
            ty::Slice(u) => {
                let u2 = self.ty(*u);
                J::O(vec![("k", s("slice")), ("ty", u2)])
            }
            ty::Array(u, n) => {
                let u2 = self.ty(*u);
                J::O(vec![("k", s("array")), ("ty", u2), ("len", s(format!("{}", n)))])
            }
            ty::Tuple(ts) => {
                let v = ts.iter().map(|x| self.ty(x)).collect();
                J::O(vec![("k", s("tuple")), ("args", J::A(v))])
            }
            ty::Param(p) => J::O(vec![("k", s("param")), ("name", s(p.name))]),
            ty::Closure(d, _) => {
                J::O(vec![("k", s("closure")), ("id", self.id(*d))])
            }
            ty::FnDef(d, a) => {
                let did: DefId = (*d).into();
                let p = self.path(did);
                let a = self.args(a.skip_binder());
                J::O(vec![("k", s("fndef")), ("path", s(p)), ("id", self.id(did)), ("args", a)])
            }
            ty::Alias(..) => self.alias(t),
            _ => J::O(vec![("k", s("other")), ("repr", s(format!("{}", t)))]),
        };
        self.types[i] = j;
        J::N(i as i128)
    }
    fn alias(&mut self, t: Ty<'tcx>) -> J {
        if let ty::Alias(_, al) = t.kind() {
            if let ty::AliasTyKind::Projection { def_id } = al.kind {
                let did: DefId = def_id.into();
                let p = self.path(did);
                let name = self.tcx.item_name(did).to_string();
                let tr = self.tcx.parent(did);
                let trp = self.path(tr);
                let a = self.args(al.args);
                return J::O(vec![
                    ("k", s("proj")),
                    ("path", s(p)),
                    ("name", s(name)),
                    ("trait", s(trp)),
                    ("args", a),
                ]);
            }
        }
        J::O(vec![("k", s("other")), ("repr", s(format!("{}", t)))])
    }
    fn line(&self, sp: rustc_span::Span) -> J {
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.source_callsite().lo());
        J::A(vec![s(lo.file.name.prefer_local_unconditionally()), J::N(lo.line as i128)])
    }
    fn var(&self, v: LocalVarId) -> J {
        s(format!("{}.{}", v.0.owner.def_id.local_def_index.as_u32(), v.0.local_id.as_u32()))
    }
}

struct Body<'a, 'tcx> {
    cx: &'a mut Cx<'tcx>,
    thir: &'a Thir<'tcx>,
    env: ty::TypingEnv<'tcx>,
    closures: Vec<rustc_hir::def_id::LocalDefId>,
}

impl<'a, 'tcx> Body<'a, 'tcx> {
    fn exprs(&mut self, v: &[ExprId]) -> J {
        J::A(v.iter().map(|e| self.expr(*e)).collect())
    }
    fn opt(&mut self, e: Option<ExprId>) -> J {
        match e {
            Some(e) => self.expr(e),
            None => J::Null,
        }
    }
    fn scope(&self, r: rustc_middle::middle::region::Scope) -> J {
        s(format!("{:?}", r.local_id.as_u32()))
    }
    fn callee(&mut self, t: Ty<'tcx>) -> J {
        if let ty::FnDef(d, a) = t.kind() {
            let did: DefId = (*d).into();
            let a = a.skip_binder();
            let tcx = self.cx.tcx;
            let mut o = vec![
                ("path", s(self.cx.path(did))),
                ("id", self.cx.id(did)),
                ("name", s(tcx.opt_item_name(did).map(|x| x.to_string()).unwrap_or_default())),
                ("args", self.cx.args(a)),
            ];
            if let Some(tr) = tcx.trait_of_assoc(did) {
                o.push(("trait", s(self.cx.path(tr))));
                let er = tcx.erase_and_anonymize_regions(a);
                if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, self.env, did, er) {
                    let rd = inst.def_id();
                    if rd != did {
                        o.push((
                            "res",
                            J::O(vec![
                                ("path", s(self.cx.path(rd))),
                                ("id", self.cx.id(rd)),
                                ("args", self.cx.args(inst.args)),
                            ]),
                        ));
                    }
                }
            } else if let Some(im) = tcx.inherent_impl_of_assoc(did) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                o.push(("impl_self", self.cx.ty(st)));
            }
            return J::O(o);
        }
        J::Null
    }
    fn expr(&mut self, id: ExprId) -> J {
        let e = &self.thir[id];
        let tcx = self.cx.tcx;
        let mut o: Vec<(&'static str, J)> = vec![];
        let k = match &e.kind {
            ExprKind::Scope { region_scope, value, .. } => {
                let sc = self.scope(*region_scope);
                let mut j = self.expr(*value);
                if let J::O(fields) = &mut j {
                    let is_target = matches!(&fields[0].1, J::S(k) if k == "Loop" || k == "Block");
                    if is_target {
                        match fields.iter_mut().find(|(n, _)| *n == "scopes") {
                            Some((_, J::A(v))) => v.push(sc),
                            _ => fields.push(("scopes", J::A(vec![sc]))),
                        }
                    }
                }
                return j;
            }
            ExprKind::If { cond, then, else_opt, .. } => {
                o.push(("c", self.expr(*cond)));
                o.push(("t", self.expr(*then)));
                o.push(("f", self.opt(*else_opt)));
                "If"
            }
            ExprKind::Call { ty, fun, args, .. } => {
                let c = self.callee(*ty);
                let isnull = matches!(c, J::Null);
                o.push(("fn", c));
                if isnull {
                    o.push(("fun", self.expr(*fun)));
                }
                o.push(("args", self.exprs(args)));
                "Call"
            }
            ExprKind::ByUse { expr, .. } => return self.expr(*expr),
            ExprKind::Deref { arg } => {
                o.push(("e", self.expr(*arg)));
                "Deref"
            }
            ExprKind::Binary { op, lhs, rhs } => {
                o.push(("op", s(format!("{:?}", op))));
                o.push(("l", self.expr(*lhs)));
                o.push(("r", self.expr(*rhs)));
                "Binary"
            }
            ExprKind::LogicalOp { op, lhs, rhs } => {
                o.push(("op", s(format!("{:?}", op))));
                o.push(("l", self.expr(*lhs)));
                o.push(("r", self.expr(*rhs)));
                "Logical"
            }
            ExprKind::Unary { op, arg } => {
                o.push(("op", s(format!("{:?}", op))));
                o.push(("e", self.expr(*arg)));
                "Unary"
            }
            ExprKind::Cast { source } => {
                o.push(("e", self.expr(*source)));
                "Cast"
            }
            ExprKind::ValueExpr { source } => return self.expr(*source),
            ExprKind::NeverToAny { source } => {
                o.push(("e", self.expr(*source)));
                "NeverToAny"
            }
            ExprKind::PointerCoercion { cast, source, .. } => {
                o.push(("cast", s(format!("{:?}", cast))));
                o.push(("e", self.expr(*source)));
                "PtrCoerce"
            }
            ExprKind::Loop { body } => {
                o.push(("b", self.expr(*body)));
                "Loop"
            }
            ExprKind::Let { expr, pat } => {
                o.push(("e", self.expr(*expr)));
                o.push(("p", self.pat(pat)));
                "Let"
            }
            ExprKind::Match { scrutinee, arms, match_source } => {
                o.push(("e", self.expr(*scrutinee)));
                o.push(("src", s(format!("{:?}", match_source))));
                let arms = arms
                    .iter()
                    .map(|a| {
                        let a = &self.thir[*a];
                        J::O(vec![
                            ("p", self.pat(&a.pattern)),
                            ("g", self.opt(a.guard)),
                            ("b", self.expr(a.body)),
                        ])
                    })
                    .collect();
                o.push(("arms", J::A(arms)));
                "Match"
            }
            ExprKind::Block { block } => return self.block(*block, e.ty),
            ExprKind::Assign { lhs, rhs } => {
                o.push(("l", self.expr(*lhs)));
                o.push(("r", self.expr(*rhs)));
                "Assign"
            }
            ExprKind::AssignOp { op, lhs, rhs } => {
                o.push(("op", s(format!("{:?}", op))));
                o.push(("l", self.expr(*lhs)));
                o.push(("r", self.expr(*rhs)));
                "AssignOp"
            }
            ExprKind::Field { lhs, variant_index, name } => {
                let lt = self.thir[*lhs].ty;
                let mut nm = format!("{}", name.as_u32());
                let mut adt = J::Null;
                if let ty::Adt(d, _) = lt.kind() {
                    nm = d.variant(*variant_index).fields[*name].name.to_string();
                    adt = s(self.cx.path(d.did()));
                }
                o.push(("e", self.expr(*lhs)));
                o.push(("name", s(nm)));
                o.push(("idx", J::N(name.as_u32() as i128)));
                o.push(("adt", adt));
                "Field"
            }
            ExprKind::Index { lhs, index } => {
                o.push(("e", self.expr(*lhs)));
                o.push(("i", self.expr(*index)));
                "Index"
            }
            ExprKind::VarRef { id } => {
                o.push(("id", self.cx.var(*id)));
                "Var"
            }
            ExprKind::UpvarRef { var_hir_id, .. } => {
                o.push(("id", self.cx.var(*var_hir_id)));
                o.push(("up", J::B(true)));
                "Var"
            }
            ExprKind::Borrow { borrow_kind, arg } => {
                let m = matches!(borrow_kind, rustc_middle::mir::BorrowKind::Mut { .. });
                o.push(("mut", J::B(m)));
                o.push(("e", self.expr(*arg)));
                "Borrow"
            }
            ExprKind::RawBorrow { mutability, arg } => {
                o.push(("mut", J::B(mutability.is_mut())));
                o.push(("e", self.expr(*arg)));
                "RawBorrow"
            }
            ExprKind::Break { label, value } => {
                o.push(("label", self.scope(*label)));
                o.push(("e", self.opt(*value)));
                "Break"
            }
            ExprKind::Continue { label } => {
                o.push(("label", self.scope(*label)));
                "Continue"
            }
            ExprKind::Return { value } => {
                o.push(("e", self.opt(*value)));
                "Return"
            }
            ExprKind::Repeat { value, count } => {
                o.push(("e", self.expr(*value)));
                o.push(("n", s(format!("{}", count))));
                "Repeat"
            }
            ExprKind::Array { fields } => {
                o.push(("es", self.exprs(fields)));
                "Array"
            }
            ExprKind::Tuple { fields } => {
                o.push(("es", self.exprs(fields)));
                "Tuple"
            }
            ExprKind::Adt(a) => {
                let v = a.adt_def.variant(a.variant_index);
                o.push(("path", s(self.cx.path(a.adt_def.did()))));
                o.push(("variant", s(v.name)));
                o.push(("enum", J::B(a.adt_def.is_enum())));
                let fs = a
                    .fields
                    .iter()
                    .map(|f| J::A(vec![s(v.fields[f.name].name), self.expr(f.expr)]))
                    .collect();
                o.push(("fields", J::A(fs)));
                if let AdtExprBase::Base(b) = &a.base {
                    o.push(("base", self.expr(b.base)));
                } else if let AdtExprBase::DefaultFields(_) = &a.base {
                    o.push(("deffields", J::B(true)));
                }
                "Adt"
            }
            ExprKind::PlaceTypeAscription { source, .. }
            | ExprKind::ValueTypeAscription { source, .. } => return self.expr(*source),
            ExprKind::Closure(c) => {
                o.push(("id", self.cx.id(c.closure_id.to_def_id())));
                self.closures.push(c.closure_id);
                o.push(("up", self.exprs(&c.upvars)));
                "Closure"
            }
            ExprKind::Literal { lit, neg } => {
                use rustc_ast::LitKind::*;
                o.push(("neg", J::B(*neg)));
                match lit.node {
                    Int(n, _) => {
                        o.push(("lit", s("int")));
                        o.push(("v", s(n.get())));
                    }
                    Float(sym, _) => {
                        o.push(("lit", s("float")));
                        o.push(("v", s(sym)));
                    }
                    Bool(b) => {
                        o.push(("lit", s("bool")));
                        o.push(("v", J::B(b)));
                    }
                    Str(sym, _) => {
                        o.push(("lit", s("str")));
                        o.push(("v", s(sym)));
                    }
                    Char(c) => {
                        o.push(("lit", s("char")));
                        o.push(("v", s(c)));
                    }
                    _ => o.push(("lit", s("other"))),
                }
                "Lit"
            }
            ExprKind::NonHirLiteral { lit, .. } => {
                o.push(("v", s(format!("{:?}", lit))));
                "NonHirLit"
            }
            ExprKind::ZstLiteral { .. } => {
                let c = self.callee(e.ty);
                o.push(("fn", c));
                "Zst"
            }
            ExprKind::NamedConst { def_id, args, .. } => {
                o.push(("path", s(self.cx.path(*def_id))));
                o.push(("id", self.cx.id(*def_id)));
                o.push(("args", self.cx.args(args)));
                "Const"
            }
            ExprKind::StaticRef { def_id, .. } => {
                o.push(("path", s(self.cx.path(*def_id))));
                o.push(("id", self.cx.id(*def_id)));
                o.push(("mutable", J::B(tcx.is_mutable_static(*def_id))));
                "Static"
            }
            ExprKind::ThreadLocalRef(d) => {
                o.push(("path", s(self.cx.path(*d))));
                "ThreadLocal"
            }
            ExprKind::InlineAsm(_) => "InlineAsm",
            ExprKind::Reborrow { source, mutability, .. } => {
                o.push(("mut", J::B(mutability.is_mut())));
                o.push(("e", self.expr(*source)));
                "Reborrow"
            }
            other => {
                let d = format!("{:?}", other);
                o.push(("what", s(d.split(|c: char| !c.is_alphanumeric()).next().unwrap_or(""))));
                "Unknown"
            }
        };
        let mut r = vec![("k", s(k)), ("ty", self.cx.ty(e.ty)), ("sp", self.cx.line(e.span))];
        r.extend(o);
        J::O(r)
    }
    fn block(&mut self, b: BlockId, t: Ty<'tcx>) -> J {
        let b = &self.thir[b];
        let mut v = vec![];
        for st in b.stmts.iter() {
            match &self.thir[*st].kind {
                StmtKind::Expr { expr, .. } => v.push(J::O(vec![("k", s("E")), ("e", self.expr(*expr))])),
                StmtKind::Let { pattern, initializer, else_block, span, .. } => {
                    let mut o = vec![("k", s("L")), ("p", self.pat(pattern)), ("sp", self.cx.line(*span))];
                    o.push(("e", self.opt(*initializer)));
                    if let Some(eb) = else_block {
                        let never = self.cx.tcx.types.never;
                        o.push(("else", self.block(*eb, never)));
                    }
                    v.push(J::O(o));
                }
            }
        }
        let mut o = vec![
            ("k", s("Block")),
            ("ty", self.cx.ty(t)),
            ("sp", self.cx.line(b.span)),
            ("ss", J::A(v)),
            ("e", self.opt(b.expr)),
        ];
        if b.targeted_by_break {
            o.push(("label", self.scope(b.region_scope)));
        }
        if let BlockSafety::ExplicitUnsafe(_) = b.safety_mode {
            o.push(("unsafe", J::B(!b.span.from_expansion())));
            o.push(("unsafe_exp", J::B(b.span.from_expansion())));
            let ed = b.span.ctxt().outer_expn_data();
            if let Some(m) = ed.macro_def_id {
                o.push(("macro", s(self.cx.path(m))));
                o.push(("macro_local", J::B(m.is_local())));
            }
        }
        J::O(o)
    }
    fn pat(&mut self, p: &Pat<'tcx>) -> J {
        let mut o: Vec<(&'static str, J)> = vec![];
        let k = match &p.kind {
            PatKind::Wild => "Wild",
            PatKind::Binding { name, mode, var, subpattern, .. } => {
                o.push(("name", s(name)));
                o.push(("id", self.cx.var(*var)));
                let r = format!("{:?}", mode.0);
                o.push(("byref", J::B(!r.starts_with("No"))));
                o.push(("bymut", J::B(r.contains("Mut"))));
                if let Some(sp) = subpattern {
                    o.push(("sub", self.pat(sp)));
                }
                "Bind"
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                let v = adt_def.variant(*variant_index);
                o.push(("path", s(self.cx.path(adt_def.did()))));
                o.push(("variant", s(v.name)));
                let fs = subpatterns
                    .iter()
                    .map(|f| J::A(vec![s(v.fields[f.field].name), self.pat(&f.pattern)]))
                    .collect();
                o.push(("fields", J::A(fs)));
                "Variant"
            }
            PatKind::Leaf { subpatterns } => {
                let fs = subpatterns
                    .iter()
                    .map(|f| {
                        let mut nm = format!("{}", f.field.as_u32());
                        if let ty::Adt(d, _) = p.ty.kind() {
                            nm = d.non_enum_variant().fields[f.field].name.to_string();
                        }
                        J::A(vec![s(nm), self.pat(&f.pattern)])
                    })
                    .collect();
                o.push(("fields", J::A(fs)));
                "Leaf"
            }
            PatKind::Deref { subpattern, .. } => {
                o.push(("sub", self.pat(subpattern)));
                "Deref"
            }
            PatKind::Constant { value } => {
                o.push(("v", s(format!("{}", value))));
                "Const"
            }
            PatKind::Range(r) => {
                o.push(("v", s(format!("{}", r))));
                "Range"
            }
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                o.push(("pre", J::A(prefix.iter().map(|x| self.pat(x)).collect())));
                if let Some(x) = slice {
                    o.push(("slice", self.pat(x)));
                }
                o.push(("suf", J::A(suffix.iter().map(|x| self.pat(x)).collect())));
                "Slice"
            }
            PatKind::Or { pats } => {
                o.push(("ps", J::A(pats.iter().map(|x| self.pat(x)).collect())));
                "Or"
            }
            PatKind::Never => "Never",
            _ => "Unknown",
        };
        let mut r = vec![("k", s(k)), ("ty", self.cx.ty(p.ty))];
        r.extend(o);
        J::O(r)
    }
}

fn vis<'tcx>(cx: &Cx<'tcx>, d: DefId) -> J {
    match cx.tcx.visibility(d) {
        ty::Visibility::Public => s("pub"),
        ty::Visibility::Restricted(m) => s(format!("in {}", cx.path(m.into()))),
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> String {
    let mut cx = Cx { tcx, types: vec![], tymap: HashMap::new() };
    let mut fns = vec![];
    let mut work: Vec<rustc_hir::def_id::LocalDefId> = tcx.hir_body_owners().collect();
    work.sort_by_key(|d| d.local_def_index.as_u32());
    for ld in work {
        let did = ld.to_def_id();
        let kind = tcx.def_kind(did);
        let mut o = vec![
            ("id", cx.id(did)),
            ("path", s(cx.path(did))),
            ("kind", s(format!("{:?}", kind))),
            ("name", s(tcx.opt_item_name(did).map(|x| x.to_string()).unwrap_or_default())),
            ("sp", cx.line(tcx.def_span(did))),
            ("exp", J::B(tcx.def_span(did).from_expansion())),
            ("derived", J::B(derived(tcx, did))),
        ];
        if !matches!(kind, DefKind::Closure) {
            let g = tcx.generics_of(did);
            let mut gs = vec![];
            for i in 0..g.count() {
                let p = g.param_at(i, tcx);
                if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                    gs.push(s(p.name));
                }
            }
            o.push(("generics", J::A(gs)));
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
            let ins = sig.inputs().iter().map(|t| cx.ty(*t)).collect();
            o.push(("inputs", J::A(ins)));
            o.push(("output", cx.ty(sig.output())));
            o.push(("unsafe", J::B(!sig.safety().is_safe())));
            o.push(("vis", vis(&cx, did)));
            if let Some(p) = tcx.opt_parent(did) {
                match tcx.def_kind(p) {
                    DefKind::Impl { .. } => o.push(("impl", cx.id(p))),
                    DefKind::Trait => o.push(("in_trait", s(cx.path(p)))),
                    _ => {}
                }
            }
        }
        if let Ok((thir, root)) = tcx.thir_body(ld) {
            let thir = thir.borrow();
            let env = ty::TypingEnv::post_analysis(tcx, did);
            let mut b = Body { cx: &mut cx, thir: &thir, env, closures: vec![] };
            let ps = thir
                .params
                .iter()
                .map(|p| {
                    let pt = match &p.pat {
                        Some(x) => b.pat(x),
                        None => J::Null,
                    };
                    J::O(vec![("p", pt), ("ty", b.cx.ty(p.ty)), ("self", J::B(p.self_kind.is_some()))])
                })
                .collect();
            let body = b.expr(root);
            o.push(("params", J::A(ps)));
            o.push(("body", body));
        }
        fns.push(J::O(o));
    }
    // items: adts, impls, traits, statics
    let mut adts = vec![];
    let mut impls = vec![];
    let mut traits = vec![];
    let mut statics = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let a = tcx.adt_def(did);
                let vs = a
                    .variants()
                    .iter()
                    .map(|v| {
                        let fs = v
                            .fields
                            .iter()
                            .map(|f| {
                                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                                J::O(vec![("name", s(f.name)), ("ty", cx.ty(t)), ("vis", vis(&cx, f.did))])
                            })
                            .collect();
                        J::O(vec![("name", s(v.name)), ("fields", J::A(fs))])
                    })
                    .collect();
                adts.push(J::O(vec![
                    ("path", s(cx.path(did))),
                    ("id", cx.id(did)),
                    ("kind", s(format!("{:?}", tcx.def_kind(did)))),
                    ("vis", vis(&cx, did)),
                    ("variants", J::A(vs)),
                    ("sp", cx.line(tcx.def_span(did))),
                ]));
            }
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let mut o = vec![
                    ("id", cx.id(did)),
                    ("self", cx.ty(st)),
                    ("sp", cx.line(tcx.def_span(did))),
                    ("derived", J::B(derived(tcx, did))),
                ];
                let g = tcx.generics_of(did);
                let mut gs = vec![];
                for i in 0..g.count() {
                    let p = g.param_at(i, tcx);
                    if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                        gs.push(s(p.name));
                    }
                }
                o.push(("generics", J::A(gs)));
                if of_trait {
                    let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                    o.push(("trait", s(cx.path(tr.def_id))));
                    o.push(("targs", cx.args(tr.args)));
                }
                // projection predicates (T: Trait<Assoc = X>)
                let mut prs = vec![];
                let mut bounds = vec![];
                for (c, _) in tcx.clauses_of(did).instantiate_identity(tcx).into_iter() {
                    let c = c.skip_norm_wip();
                    match c.kind().skip_binder() {
                        ty::ClauseKind::Projection(p) => {
                            let pd: DefId = p.projection_term.expect_projection_def_id().into();
                            let nm = tcx.item_name(pd).to_string();
                            let a = cx.args(p.projection_term.args);
                            if let Some(t) = p.term.as_type() {
                                prs.push(J::O(vec![("name", s(nm)), ("args", a), ("ty", cx.ty(t))]));
                            }
                        }
                        ty::ClauseKind::Trait(t) => {
                            let a = cx.args(t.trait_ref.args);
                            bounds.push(J::O(vec![("trait", s(cx.path(t.trait_ref.def_id))), ("args", a)]));
                        }
                        _ => {}
                    }
                }
                o.push(("projs", J::A(prs)));
                o.push(("bounds", J::A(bounds)));
                let mut items = vec![];
                let mut assoc = vec![];
                for it in tcx.associated_items(did).in_definition_order() {
                    if it.is_fn() {
                        items.push(J::A(vec![s(it.name()), cx.id(it.def_id)]));
                    } else if it.is_type() {
                        let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                        assoc.push(J::A(vec![s(it.name()), cx.ty(t)]));
                    }
                }
                o.push(("items", J::A(items)));
                o.push(("assoc", J::A(assoc)));
                impls.push(J::O(o));
            }
            DefKind::Trait => {
                let mut items = vec![];
                for it in tcx.associated_items(did).in_definition_order() {
                    if it.is_fn() {
                        items.push(J::A(vec![s(it.name()), cx.id(it.def_id), J::B(it.defaultness(tcx).has_value())]));
                    }
                }
                traits.push(J::O(vec![("path", s(cx.path(did))), ("items", J::A(items))]));
            }
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                statics.push(J::O(vec![
                    ("path", s(cx.path(did))),
                    ("mutable", J::B(mutability.is_mut())),
                    ("ty", cx.ty(t)),
                    ("freeze", J::B(t.is_freeze(tcx, ty::TypingEnv::fully_monomorphized()))),
                ]));
            }
            _ => {}
        }
    }
    let root = J::O(vec![
        ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE))),
        ("fns", J::A(fns)),
        ("adts", J::A(adts)),
        ("impls", J::A(impls)),
        ("traits", J::A(traits)),
        ("statics", J::A(statics)),
        ("types", J::A(cx.types.clone())),
    ]);
    let mut out = String::new();
    root.write(&mut out);
    out
}

fn derived(tcx: TyCtxt<'_>, d: DefId) -> bool {
    let mut d = d;
    loop {
        if tcx.def_kind(d) == (DefKind::Impl { of_trait: true }) {
            return tcx.is_automatically_derived(d);
        }
        match tcx.opt_parent(d) {
            Some(p) => d = p,
            None => return false,
        }
    }
}

struct Cb {
    out: Option<String>,
}
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::Config) {
        c.opts.unstable_opts.no_steal_thir = true;
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(dir) = &self.out {
            let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE);
            let txt = dump(tcx);
            let f = format!("{}/{}.json", dir, name);
            let tmp = format!("{}.tmp{}", f, std::process::id());
            std::fs::write(&tmp, txt).unwrap();
            std::fs::rename(&tmp, &f).unwrap();
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // wrapper mode: drop our own name, keep the rustc path as argv[0]
    args.remove(0);
    let is_build_script = args.windows(2).any(|w| w[0] == "--crate-name" && w[1].starts_with("build_script"));
    let is_test = args.iter().any(|a| a == "--test");
    let has_crate = args.iter().any(|a| a == "--crate-name");
    let out = if is_build_script || is_test || !has_crate { None } else { std::env::var("THIRDUMP_OUT").ok() };
    let mut cb = Cb { out };
    rustc_driver::compiler_entrypoint(&args, &mut cb);
}
