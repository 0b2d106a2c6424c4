//! T21: a function of the tree that has no contract (a helper that was split off a function under contract) is inlined at its calls,
//! so that the caller is still verified as a whole.  Calls are inlined only where this keeps the meaning:
//!  - in tail position (or as the operand of `return`): the body as it is;
//!  - under `?`, when helper and caller have the same error type: `return Err(e)` and `?` of the body keep their meaning;
//!  - elsewhere: when the body has no `return` and no `?` (after turning `if c { return x; } rest` into `if c { x } else { rest }`).
use crate::contracts::Contracts;
use crate::FnItem;
use quote::{format_ident, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn err_class(out: &ReturnType) -> Option<String> {
    let s = match out { ReturnType::Type(_, t) => t.to_token_stream().to_string().replace(' ', ""), _ => return None };
    let s = s.as_str();
    for a in ["BerResult<", "DerResult<"] { if s.starts_with(a) || s.contains(&format!("::{}", a)) { return Some("Err<BerError>".into()); } }
    if s == "BerResult" || s == "DerResult" { return Some("Err<BerError>".into()); }
    if s.starts_with("IResult<") || s.starts_with("ParseResult<") { 
        return if s.contains("BerError") || s.starts_with("ParseResult<") || s.contains(",Error>") { Some("Err<BerError>".into()) } else { Some(s.rsplit(',').next().unwrap().trim_end_matches('>').to_string()) };
    }
    if s.starts_with("Result<") || s.contains("::Result<") {
        // split the arguments at top level
        let inner = &s[s.find("Result<").unwrap() + 7..s.len() - 1];
        let (mut d, mut cut) = (0i32, None);
        for (k, c) in inner.char_indices() {
            match c { '<' | '(' | '[' => d += 1, '>' | ')' | ']' => d -= 1, ',' if d == 0 => { cut = Some(k); break; } _ => {} }
        }
        return Some(match cut {
            None => "BerError".into(),
            Some(k) => {
                let e = inner[k + 1..].replace("nom::", "").replace("Error>", "BerError>").replace("BerBer", "Ber");
                if e == "Error" { "BerError".into() } else { e }
            }
        });
    }
    None
}

struct Scan { ret: bool, bad_ret: bool, try_: bool }
impl VisitMut for Scan {
    fn visit_expr_return_mut(&mut self, r: &mut ExprReturn) {
        self.ret = true;
        let ok = match r.expr.as_deref() {
            Some(Expr::Call(c)) => match &*c.func { Expr::Path(p) => p.path.segments.last().map_or(false, |s| s.ident == "Err") && c.args.len() == 1, _ => false },
            _ => false,
        };
        if !ok { self.bad_ret = true; }
        visit_mut::visit_expr_return_mut(self, r);
    }
    fn visit_expr_try_mut(&mut self, t: &mut ExprTry) { self.try_ = true; visit_mut::visit_expr_try_mut(self, t); }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// `if c { ..; return x; } rest` -> `if c { ..; x } else { rest }`, and a final `return x;` -> `x`
fn structure(b: &mut Block) {
    let n = b.stmts.len();
    for k in 0..n {
        let last = k + 1 == n;
        let hit = match &b.stmts[k] {
            Stmt::Expr(Expr::If(i), _) if i.else_branch.is_none() && !last => ends_in_return(&i.then_branch),
            _ => false,
        };
        if hit {
            let rest: Vec<Stmt> = b.stmts.drain(k + 1..).collect();
            let mut rest = Block { brace_token: Default::default(), stmts: rest };
            structure(&mut rest);
            if let Stmt::Expr(Expr::If(i), semi) = &mut b.stmts[k] {
                structure(&mut i.then_branch);
                i.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: rest }))));
                *semi = None;
            }
            return;
        }
    }
    if let Some(Stmt::Expr(Expr::Return(r), semi)) = b.stmts.last_mut() {
        if let Some(e) = r.expr.take() {
            let _ = semi;
            b.stmts.pop();
            b.stmts.push(Stmt::Expr(*e, None));
        }
    }
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() { structure_expr(e); }
}
fn structure_expr(e: &mut Expr) {
    match e {
        Expr::Block(x) => structure(&mut x.block),
        Expr::If(i) => { structure(&mut i.then_branch); if let Some((_, x)) = &mut i.else_branch { structure_expr(x); } }
        Expr::Match(m) => for a in &mut m.arms { structure_expr(&mut a.body); },
        Expr::Return(r) => if let Some(x) = r.expr.take() { *e = *x; structure_expr(e); },
        _ => {}
    }
}
fn ends_in_return(b: &Block) -> bool { matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(r), _)) if r.expr.is_some()) }

struct Helper { item: FnItemLite }
struct FnItemLite { path: String, sig: Signature, block: Block, self_ty: Option<String> }

struct Inliner<'a> {
    helpers: &'a BTreeMap<String, Helper>, // by path
    owner: String,
    self_ty: Option<String>,
    err: Option<String>, // error class of the enclosing function, None inside a closure
    used: BTreeSet<String>,
    changed: bool,
    n: usize,
}
impl<'a> Inliner<'a> {
    fn find(&self, e: &Expr) -> Option<(&'a FnItemLite, Vec<Expr>)> {
        match e {
            Expr::Call(c) => {
                let p = match &*c.func { Expr::Path(p) if p.qself.is_none() => p, _ => return None };
                let seg: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let n = seg.len();
                let name = &seg[n - 1];
                let ty = if n >= 2 && seg[n - 2].starts_with(|c: char| c.is_uppercase()) {
                    Some(if seg[n - 2] == "Self" { self.self_ty.clone()? } else { seg[n - 2].clone() })
                } else { None };
                let mut c2: Vec<&'a FnItemLite> = self.helpers.values().map(|h| &h.item)
                    .filter(|h| h.path.rsplit("::").next() == Some(name.as_str()) && h.self_ty == ty && h.sig.receiver().is_none() && h.path != self.owner).collect();
                if c2.len() > 1 {
                    let m = self.owner.rsplit_once("::").map(|x| x.0.to_string()).unwrap_or_default();
                    c2.retain(|h| h.path.rsplit_once("::").map(|x| x.0.to_string()).unwrap_or_default() == m);
                }
                if c2.len() != 1 || c2[0].sig.inputs.len() != c.args.len() { return None; }
                Some((c2[0], c.args.iter().cloned().collect()))
            }
            Expr::MethodCall(m) => {
                // only on `self`, so that `self` keeps its meaning in the body
                match &*m.receiver { Expr::Path(p) if p.path.is_ident("self") => {} , _ => return None }
                let ty = self.self_ty.clone()?;
                let c2: Vec<&'a FnItemLite> = self.helpers.values().map(|h| &h.item)
                    .filter(|h| h.sig.ident == m.method && h.self_ty.as_deref() == Some(ty.as_str()) && h.sig.receiver().map_or(false, |r| r.reference.is_some()) && h.path != self.owner).collect();
                if c2.len() != 1 || c2[0].sig.inputs.len() != m.args.len() + 1 { return None; }
                Some((c2[0], m.args.iter().cloned().collect()))
            }
            _ => None,
        }
    }
    fn build(&mut self, h: &FnItemLite, args: Vec<Expr>, body: Block) -> Option<Expr> {
        let generic = h.sig.generics.params.iter().any(|p| !matches!(p, GenericParam::Lifetime(_)));
        let mut pre: Vec<Stmt> = vec![];
        let mut bind: Vec<Stmt> = vec![];
        for (k, (p, a)) in h.sig.inputs.iter().filter(|p| matches!(p, FnArg::Typed(_))).zip(args).enumerate() {
            let t = match p { FnArg::Typed(t) => t, _ => return None };
            let tmp = format_ident!("vp_in{}_{}", self.n, k);
            let pat = &t.pat;
            let ty = &t.ty;
            let tys = ty.to_token_stream().to_string();
            pre.push(parse_quote!(let #tmp = #a;));
            let ann = !generic && !tys.contains('\'') && !tys.contains("impl ") && !tys.contains("Self");
            if let Pat::Ident(pi) = &**pat {
                if ann { bind.push(parse_quote!(let #pi : #ty = #tmp;)); } else { bind.push(parse_quote!(let #pi = #tmp;)); }
            } else { bind.push(parse_quote!(let #pat = #tmp;)); }
        }
        self.n += 1;
        self.changed = true;
        self.used.insert(h.path.clone());
        let mut stmts = pre;
        stmts.extend(bind);
        stmts.extend(body.stmts);
        Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts } }))
    }
    fn tail(&mut self, e: &mut Expr) {
        match e {
            Expr::Block(b) => self.body(&mut b.block),
            Expr::If(i) => {
                self.visit_expr_mut(&mut i.cond);
                self.body(&mut i.then_branch);
                if let Some((_, x)) = &mut i.else_branch { self.tail(x); }
            }
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                for a in &mut m.arms { if let Some((_, g)) = &mut a.guard { self.visit_expr_mut(g); } self.tail(&mut a.body); }
            }
            Expr::Paren(p) => self.tail(&mut p.expr),
            _ => {
                if let Some((h, args)) = self.find(e) {
                    if let Some(x) = self.build(h, args, h.block.clone()) { *e = x; return; }
                }
                self.visit_expr_mut(e);
            }
        }
    }
    fn body(&mut self, b: &mut Block) {
        let n = b.stmts.len();
        for (k, s) in b.stmts.iter_mut().enumerate() {
            match s {
                Stmt::Expr(e, None) if k + 1 == n => self.tail(e),
                s => self.visit_stmt_mut(s),
            }
        }
    }
}
impl VisitMut for Inliner<'_> {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        let e = self.err.take();
        self.tail(&mut c.body);
        self.err = e;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Return(r) = e {
            if let Some(x) = &mut r.expr { self.tail(x); }
            return;
        }
        if let Expr::Try(t) = e {
            if let Some((h, args)) = self.find(&t.expr) {
                let mut b = h.block.clone();
                structure(&mut b);
                let mut s = Scan { ret: false, bad_ret: false, try_: false };
                s.visit_block_mut(&mut b.clone());
                let same = self.err.is_some() && err_class(&h.sig.output) == self.err;
                if (!s.ret && !s.try_) || (same && !s.bad_ret) {
                    if let Some(x) = self.build(h, args, b) {
                        // an unconditional Ok at the end needs no `?`
                        *t.expr = x;
                        return;
                    }
                }
            }
        }
        if let Some((h, args)) = self.find(e) {
            let mut b = h.block.clone();
            structure(&mut b);
            let mut s = Scan { ret: false, bad_ret: false, try_: false };
            s.visit_block_mut(&mut b.clone());
            if !s.ret && !s.try_ {
                if let Some(x) = self.build(h, args, b) { *e = x; return; }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn calls_self(f: &FnItem) -> bool {
    struct V<'a>(&'a str, bool);
    impl VisitMut for V<'_> {
        fn visit_path_mut(&mut self, p: &mut Path) { if p.segments.last().map_or(false, |s| s.ident == self.0) { self.1 = true; } visit_mut::visit_path_mut(self, p); }
        fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) { if m.method == self.0 { self.1 = true; } visit_mut::visit_expr_method_call_mut(self, m); }
    }
    let mut v = V(&f.name, false);
    v.visit_block_mut(&mut f.block.clone());
    v.1
}

/// inlined helpers per function
pub fn apply(fns: &mut [FnItem], cs: &Contracts) -> BTreeMap<String, Vec<String>> {
    let mut helpers = BTreeMap::new();
    for f in fns.iter() {
        let never = cs.never.iter().any(|n| n == &f.path || (n.ends_with("::*") && f.path.starts_with(&n[..n.len() - 1])));
        let plain = f.recv_impl.as_ref().map_or(true, |c| c.trait_.is_none() && c.in_trait.is_none());
        if cs.map.contains_key(&f.path) || never || !plain || calls_self(f) { continue; }
        helpers.insert(f.path.clone(), Helper { item: FnItemLite {
            path: f.path.clone(), sig: f.sig.clone(), block: f.block.clone(),
            self_ty: f.recv_impl.as_ref().map(|c| crate::ty_name(&c.self_ty)),
        } });
    }
    let mut out = BTreeMap::new();
    for f in fns.iter_mut() {
        if !cs.map.contains_key(&f.path) { continue; }
        let mut used = BTreeSet::new();
        for round in 0..4 {
            let mut v = Inliner {
                helpers: &helpers, owner: f.path.clone(),
                self_ty: f.recv_impl.as_ref().map(|c| crate::ty_name(&c.self_ty)),
                err: err_class(&f.sig.output), used: BTreeSet::new(), changed: false, n: round * 1000,
            };
            v.body(&mut f.block);
            used.extend(v.used.clone());
            if !v.changed { break; }
        }
        if !used.is_empty() {
            f.pre_rules.push("T21".into());
            out.insert(f.path.clone(), used.into_iter().collect());
        }
    }
    out
}
