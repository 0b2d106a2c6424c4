//! The mechanical rewrites (rules T1..T12 of DESIGN.md) and the placement of contracts.
use crate::contracts::Contract;
use crate::printer::{toks, Out};
use crate::FnItem;
use proc_macro2::{Ident, Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

const EXTERN: [&str; 7] = ["nom", "asn1_rs", "cookie_factory", "rusticata_macros", "num_bigint", "num_traits", "bitvec"];

// ---------------------------------------------------------------- use items
fn leaves(t: &UseTree, pre: Vec<String>, out: &mut Vec<(Vec<String>, String)>) {
    match t {
        UseTree::Path(p) => { let mut q = pre; q.push(p.ident.to_string()); leaves(&p.tree, q, out) }
        UseTree::Name(n) => out.push((pre, n.ident.to_string())),
        UseTree::Rename(n) => out.push((pre, format!("{} as {}", n.ident, n.rename))),
        UseTree::Glob(_) => out.push((pre, "*".into())),
        UseTree::Group(g) => for x in &g.items { leaves(x, pre.clone(), out) },
    }
}
/// `known(kind, name)`: does the generated crate define it; `unused`: modules not emitted
pub fn use_texts(u: &ItemUse, unused: &BTreeSet<String>, known: &dyn Fn(&str) -> bool, root: bool) -> Vec<String> {
    let mut ls = vec![];
    leaves(&u.tree, vec![], &mut ls);
    let mut out = vec![];
    let vis = if matches!(u.vis, Visibility::Inherited) { "" } else { "pub " };
    for (mut pre, name) in ls {
        let bare = name.split(' ').next().unwrap().to_string();
        if pre.is_empty() { continue; }
        if EXTERN.contains(&pre[0].as_str()) { pre.insert(0, "crate".into()); }
        let full = pre.join("::");
        if pre[0] == "alloc" {
            if pre[1..].join("") == "borrow" { continue; }
            if bare == "format" || bare == "vec" || (pre.len() == 1 && bare != "*") { continue; }
            out.push(format!("{}use {}::{};", vis, full, name));
            continue;
        }
        let rel = full.trim_start_matches("crate::").to_string();
        if unused.contains(&rel) || unused.iter().any(|m| rel.starts_with(&format!("{}::", m))) { continue; }
        if bare != "*" && bare != "self" && !known(&bare) { continue; }
        if root && !["ber", "der"].contains(&pre[0].as_str()) { continue; }
        out.push(format!("{}use {}::{};", vis, full, name));
    }
    out
}

// ---------------------------------------------------------------- types
pub fn type_text(t: &Item) -> String {
    let mut t = t.clone();
    match &mut t {
        Item::Struct(s) => {
            s.attrs.clear();
            s.vis = Visibility::Public(Default::default());
            for f in s.fields.iter_mut() { f.attrs.clear(); f.vis = Visibility::Public(Default::default()); }
        }
        Item::Enum(e) => {
            e.attrs.clear();
            e.vis = Visibility::Public(Default::default());
            for v in e.variants.iter_mut() { v.attrs.clear(); for f in v.fields.iter_mut() { f.attrs.clear(); } }
        }
        Item::Type(e) => { e.attrs.clear(); e.vis = Visibility::Public(Default::default()); }
        Item::Const(e) => { e.attrs.clear(); e.vis = Visibility::Public(Default::default()); }
        _ => {}
    }
    let mut rw = PathRw;
    rw.visit_item_mut(&mut t);
    toks(t.to_token_stream())
}

pub fn trait_text(t: &ItemTrait, txt: &str) -> String {
    // signatures are taken from the source; `txt` gives, per method, its contract:
    //   "spec-items ..." first, then lines "METHOD :: ensures ..."
    let mut head = String::new();
    let mut map = std::collections::BTreeMap::new();
    let mut cur: Option<String> = None;
    for l in txt.lines() {
        if let Some((a, b)) = l.split_once(" :: ") {
            let n = a.trim().to_string();
            map.insert(n.clone(), b.to_string() + "\n");
            cur = Some(n);
        } else if let Some(n) = &cur {
            let e = map.get_mut(n).unwrap();
            e.push_str(l);
            e.push('\n');
        } else {
            head.push_str(l);
            head.push('\n');
        }
    }
    let mut s = String::new();
    let g = &t.generics;
    s.push_str(&format!("pub trait {} {} {{\n{}", t.ident, toks(g.to_token_stream()), head));
    for it in &t.items {
        if let TraitItem::Fn(f) = it {
            let n = f.sig.ident.to_string();
            if let Some(c) = map.get(&n) {
                let mut sig = f.sig.clone();
                let mut rw = PathRw;
                rw.visit_signature_mut(&mut sig);
                { let unit = matches!(sig.output, ReturnType::Default); MutLife(false, unit).visit_signature_mut(&mut sig); }
                // parameter names, positionally, for the contract text
                let mut text = c.clone();
                for (k, a) in sig.inputs.iter().skip(1).enumerate() {
                    if let FnArg::Typed(p) = a {
                        text = text.replace(&format!("${}", k), &toks(p.pat.to_token_stream()));
                    }
                }
                s.push_str(&format!("{}\n  {};\n", toks(sig.to_token_stream()), text));
            }
        }
    }
    s.push_str("}\n");
    s
}

// ---------------------------------------------------------------- paths
struct PathRw;
impl VisitMut for PathRw {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let s0 = segs[0].as_str();
        if EXTERN.contains(&s0) && p.segments.len() > 1 {
            p.leading_colon = None;
            let rest = p.segments.clone();
            let mut np: Path = parse_quote!(crate);
            for s in rest { np.segments.push(s); }
            *p = np;
            return;
        }
        let joined = segs.join("::");
        let joined = joined.trim_start_matches("::").to_string();
        let shim = match joined.as_str() {
            "core::str::from_utf8" | "std::str::from_utf8" | "str::from_utf8" => Some("vp_from_utf8"),
            "core::panicking::panic" | "std::rt::begin_panic" | "core::panicking::panic_fmt" | "std::rt::panic_fmt"
            | "core::panicking::unreachable_display" => Some("vp_panic"),
            "String::from_utf16" => Some("vp_from_utf16"),
            "u16::from_be_bytes" => Some("vp_u16_from_be_bytes"),
            _ => None,
        };
        if let Some(s) = shim {
            let id = Ident::new(s, Span::call_site());
            *p = parse_quote!(crate::shim::#id);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // <u64>::from_be_bytes(x)  ->  crate::shim::vp_u64_from_be_bytes(x)
        if let Expr::Path(ep) = e {
            if let Some(q) = &ep.qself {
                let t = q.ty.to_token_stream().to_string();
                let m = ep.path.segments.last().unwrap().ident.to_string();
                if m == "from_be_bytes" && ["u64", "i64", "u32", "i32", "u16"].contains(&t.as_str()) {
                    let id = format_ident!("vp_{}_from_be_bytes", t);
                    *e = parse_quote!(crate::shim::#id);
                    return;
                }
            } else if ep.path.segments.len() == 2 {
                let t = ep.path.segments[0].ident.to_string();
                let m = ep.path.segments[1].ident.to_string();
                if m == "from_be_bytes" && ["u64", "i64", "u32", "i32"].contains(&t.as_str()) {
                    let id = format_ident!("vp_{}_from_be_bytes", t);
                    *e = parse_quote!(crate::shim::#id);
                    return;
                }
            }
        }
        // T22: uN::from(x) -> (x) as uN (the From impls between primitive types are the lossless casts)
        if let Expr::Call(c) = e {
            if let Expr::Path(ep) = &*c.func {
                let s: Vec<String> = ep.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if s.len() == 2 && s[1] == "from" && c.args.len() == 1 && ep.qself.is_none() && ["u8", "u16", "u32", "u64", "i32", "i64", "usize"].contains(&s[0].as_str()) {
                    let (t, x) = (format_ident!("{}", s[0]), c.args[0].clone());
                    *e = parse_quote!(((#x) as #t));
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------- function bodies
#[derive(Default)]
pub struct Info {
    pub loops: usize,
    pub kinds: String,
    pub closures: usize,
    pub lost: Vec<String>,
    pub unannotated: Vec<String>,
    pub rules: BTreeSet<String>,
}

struct BodyRw<'c> {
    c: &'c Contract,
    loops: usize,
    closures: usize,
    fors: BTreeMap<usize, String>, // loop index -> termination measure of a rewritten `for`
    info: Info,
    heads: Vec<(usize, String, String)>, // closure index, head text, body prefix
    self_to: Option<String>,
    mut_drop: BTreeSet<String>,
    opt_ret: bool,
}

fn has_slice_pat(p: &Pat) -> bool {
    match p {
        Pat::Slice(_) => true,
        Pat::Or(o) => o.cases.iter().any(has_slice_pat),
        Pat::Paren(p) => has_slice_pat(&p.pat),
        Pat::Reference(r) => has_slice_pat(&r.pat),
        _ => false,
    }
}

/// condition and bindings of a slice pattern over `s`
fn slice_pat(p: &Pat, s: &Ident, by_ref: bool) -> Option<(TokenStream, TokenStream)> {
    match p {
        Pat::Reference(r) => slice_pat(&r.pat, s, false),
        Pat::Paren(r) => slice_pat(&r.pat, s, by_ref),
        Pat::Wild(_) => Some((quote!(true), quote!())),
        Pat::Slice(sl) => {
            let n = sl.elems.len();
            let rest = sl.elems.iter().position(|e| match e {
                Pat::Rest(_) => true,
                Pat::Ident(pi) => pi.subpat.as_ref().map_or(false, |x| matches!(*x.1, Pat::Rest(_))),
                _ => false,
            });
            let mut conds: Vec<TokenStream> = vec![];
            let mut binds = TokenStream::new();
            let fixed = if rest.is_some() { n - 1 } else { n };
            conds.push(if rest.is_some() { quote!(#s.len() >= #fixed) } else { quote!(#s.len() == #fixed) });
            for (k, e) in sl.elems.iter().enumerate() {
                let idx: TokenStream = match rest {
                    Some(r) if k > r => { let back = n - k; quote!(#s.len() - #back) }
                    _ => quote!(#k),
                };
                match e {
                    Pat::Rest(_) | Pat::Wild(_) => {}
                    Pat::Ident(pi) if pi.subpat.is_some() => {
                        let id = &pi.ident;
                        let back = n - 1 - k;
                        binds.extend(quote!(let #id = &#s[#k..#s.len() - #back];));
                    }
                    Pat::Ident(pi) if pi.by_ref.is_none() => {
                        let id = &pi.ident;
                        if by_ref { binds.extend(quote!(let #id = &#s[#idx];)) } else { binds.extend(quote!(let #id = #s[#idx];)) }
                    }
                    Pat::Lit(l) => conds.push(quote!(#s[#idx] == #l)),
                    Pat::Or(o) if o.cases.iter().all(|c| matches!(c, Pat::Lit(_))) => {
                        let mut it = o.cases.iter();
                        let c0 = it.next().unwrap();
                        let any = it.fold(quote!(#s[#idx] == #c0), |a, c| quote!(#a || #s[#idx] == #c));
                        conds.push(quote!((#any)));
                    }
                    Pat::Range(r) => {
                        if let Some(lo) = &r.start { conds.push(quote!(#s[#idx] >= #lo)); }
                        if let Some(hi) = &r.end {
                            conds.push(match r.limits { RangeLimits::Closed(_) => quote!(#s[#idx] <= #hi), _ => quote!(#s[#idx] < #hi) });
                        }
                    }
                    _ => return None,
                }
            }
            let mut it = conds.into_iter();
            let c0 = it.next().unwrap();
            let cond = it.fold(quote!(#c0), |a, b| quote!(#a && #b));
            Some((cond, binds))
        }
        Pat::Or(o) => {
            let mut cs = vec![];
            for c in &o.cases {
                let (c, b) = slice_pat(c, s, by_ref)?;
                if !b.is_empty() { return None; }
                cs.push(c);
            }
            let mut it = cs.into_iter();
            let c0 = it.next().unwrap();
            Some((it.fold(quote!((#c0)), |a, b| quote!(#a || (#b))), quote!()))
        }
        Pat::Ident(i) if i.subpat.is_none() => {
            let id = &i.ident;
            Some((quote!(true), quote!(let #id = #s;)))
        }
        _ => None,
    }
}

/// T15: bindings of a pattern; turns `ref x` into `x`, returns the by-copy bindings
struct RefPat { refs: usize, copies: Vec<Ident> }
impl VisitMut for RefPat {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if p.by_ref.is_some() && p.mutability.is_none() { p.by_ref = None; self.refs += 1; }
        else if p.by_ref.is_none() && p.subpat.is_none() && p.ident.to_string().starts_with(|c: char| c.is_lowercase() || c == '_') {
            if !self.copies.contains(&p.ident) { self.copies.push(p.ident.clone()); }
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
}
fn has_ref(p: &Pat) -> bool {
    struct V(bool);
    impl<'a> visit::Visit<'a> for V {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) { if p.by_ref.is_some() && p.mutability.is_none() { self.0 = true; } visit::visit_pat_ident(self, p); }
    }
    let mut v = V(false);
    visit::Visit::visit_pat(&mut v, p);
    v.0
}
fn has_ref_mut(p: &Pat) -> bool {
    struct V(bool);
    impl<'a> visit::Visit<'a> for V {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) { if p.by_ref.is_some() && p.mutability.is_some() { self.0 = true; } visit::visit_pat_ident(self, p); }
    }
    let mut v = V(false);
    visit::Visit::visit_pat(&mut v, p);
    v.0
}
/// T20: the lifetime of a mutable reference plays no role at run time
/// (0: something dropped; 1: drop those of shared references too - the methods of a trait that return nothing)
struct MutLife(bool, bool);
impl VisitMut for MutLife {
    fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
        if (self.1 || r.mutability.is_some()) && r.lifetime.is_some() { r.lifetime = None; self.0 = true; }
        visit_mut::visit_type_reference_mut(self, r);
    }
}
/// X.as_mut() of an Option<Box<_>> followed by .map(|b| b.as_mut()), or .as_deref_mut()
fn opt_box_mut(m: &ExprMethodCall) -> Option<Expr> {
    let recv = if m.method == "as_deref_mut" && m.args.is_empty() { &m.receiver }
    else if m.method == "map" && m.args.len() == 1 {
        match (&*m.receiver, &m.args[0]) {
            (Expr::MethodCall(r), Expr::Closure(c)) if r.method == "as_mut" && r.args.is_empty() && c.inputs.len() == 1 => {
                let (p, b) = (c.inputs[0].to_token_stream().to_string(), c.body.to_token_stream().to_string());
                if b.replace(' ', "") == format!("{}.as_mut()", p) { &r.receiver } else { return None; }
            }
            _ => return None,
        }
    } else { return None; };
    Some((**recv).clone())
}
fn by_reference(e: &Expr) -> Expr {
    match e {
        Expr::Paren(p) => by_reference(&p.expr),
        Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) if matches!(&**expr, Expr::Path(_)) => (**expr).clone(),
        o => parse_quote!(&#o),
    }
}

impl<'c> BodyRw<'c> {
    fn rule(&mut self, r: &str) { self.info.rules.insert(r.to_string()); }
    fn mark_loop(&mut self, k: usize, body: &mut Block) {
        let m = format_ident!("__VP_LOOP_{}", k);
        let e = format_ident!("__VP_LOOPEND_{}", k);
        let mut stmts: Vec<Stmt> = vec![parse_quote!(#m;)];
        stmts.append(&mut body.stmts);
        // only when the body is a statement list
        stmts.push(parse_quote!(#e;));
        body.stmts = stmts;
        if !self.c.loops.contains_key(&k) && !self.fors.contains_key(&k) { self.info.unannotated.push(format!("loop {}", k)); }
    }
}

fn body_tail_to_stmt(b: &mut Block) {
    if let Some(Stmt::Expr(_, semi)) = b.stmts.last_mut() {
        if semi.is_none() { *semi = Some(Default::default()); }
    }
}

impl<'c> VisitMut for BodyRw<'c> {
    fn visit_item_mut(&mut self, _i: &mut Item) {}
    fn visit_local_mut(&mut self, l: &mut Local) {
        l.attrs.clear();
        if let Pat::Ident(pi) = &mut l.pat {
            if pi.mutability.is_some() && self.mut_drop.contains(&pi.ident.to_string()) {
                pi.mutability = None;
                self.rule("T2");
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Match(m) if m.arms.iter().any(|a| has_slice_pat(&a.pat)) => {
                self.rule("T4");
                let id = format_ident!("__m{}", self.info.rules.len() * 10 + m.arms.len());
                let scrut = &m.expr;
                let is_ref_scrut = !matches!(**scrut, Expr::Index(_));
                let mut arms = vec![];
                let mut ok = true;
                for a in &m.arms {
                    match slice_pat(&a.pat, &id, is_ref_scrut) {
                        Some((c, b)) => {
                            let body = &a.body;
                            match &a.guard {
                                Some((_, g)) => arms.push((quote!(#c && { #b #g }), quote!({ #b #body }))),
                                None => arms.push((c, quote!({ #b #body }))),
                            }
                        }
                        None => ok = false,
                    }
                }
                if ok {
                    let mut chain = quote!({ crate::shim::vp_panic("no arm") });
                    for (c, b) in arms.into_iter().rev() {
                        if c.to_string() == "true" { chain = quote!({ #b }); } else { chain = quote!({ if #c #b else #chain }); }
                    }
                    let bind = if is_ref_scrut { quote!(let #id = #scrut;) } else { quote!(let #id = &#scrut;) };
                    let ne: Expr = parse2(quote!({ #bind #chain })).expect("slice pattern chain");
                    *e = ne;
                }
            }
            _ => {}
        }
        match e {
            Expr::Match(m) if m.arms.iter().any(|a| has_ref_mut(&a.pat)) => {
                // T15 with `ref mut`: the scrutinee is borrowed mutably
                self.rule("T15");
                let sc = m.expr.clone();
                *m.expr = parse_quote!(&mut #sc);
                for a in m.arms.iter_mut() {
                    struct S;
                    impl VisitMut for S { fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { if p.by_ref.is_some() { p.by_ref = None; p.mutability = None; } visit_mut::visit_pat_ident_mut(self, p); } }
                    S.visit_pat_mut(&mut a.pat);
                }
            }
            Expr::Match(m) if m.arms.iter().any(|a| has_ref(&a.pat)) => {
                self.rule("T15");
                let sc = by_reference(&m.expr);
                *m.expr = sc;
                for a in m.arms.iter_mut() {
                    let mut v = RefPat { refs: 0, copies: vec![] };
                    v.visit_pat_mut(&mut a.pat);
                    if !v.copies.is_empty() {
                        let c = &v.copies;
                        let b = &a.body;
                        *a.body = parse_quote!({ #(let #c = *#c;)* #b });
                        if let Some((_, g)) = &mut a.guard { let gg = g.clone(); **g = parse_quote!({ #(let #c = *#c;)* #gg }); }
                    }
                }
            }
            Expr::If(i) => {
                if let Expr::Let(l) = &mut *i.cond {
                    if has_ref(&l.pat) {
                        let sc = by_reference(&l.expr);
                        *l.expr = sc;
                        let mut v = RefPat { refs: 0, copies: vec![] };
                        v.visit_pat_mut(&mut l.pat);
                        for c in v.copies.iter().rev() { i.then_branch.stmts.insert(0, parse_quote!(let #c = *#c;)); }
                        self.info.rules.insert("T15".into());
                    }
                }
            }
            _ => {}
        }
        match e {
            Expr::Loop(l) => {
                let k = self.loops;
                self.info.kinds.push('L');
                self.loops += 1;
                visit_mut::visit_block_mut(self, &mut l.body);
                body_tail_to_stmt(&mut l.body);
                self.mark_loop(k, &mut l.body);
                return;
            }
            Expr::While(w) => {
                let k = self.loops;
                self.info.kinds.push('W');
                self.loops += 1;
                visit_mut::visit_expr_mut(self, &mut w.cond);
                visit_mut::visit_block_mut(self, &mut w.body);
                body_tail_to_stmt(&mut w.body);
                self.mark_loop(k, &mut w.body);
                return;
            }
            Expr::ForLoop(f) => {
                self.rule("T5");
                let k = self.loops;
                self.info.kinds.push('F');
                self.loops += 1;
                visit_mut::visit_block_mut(self, &mut f.body);
                body_tail_to_stmt(&mut f.body);
                let (s, kk) = (format_ident!("__s{}", k), format_ident!("__k{}", k));
                let label = &f.label;
                let mut it = (*f.expr).clone();
                while let Expr::Paren(p) = it { it = *p.expr; }
                self.visit_expr_mut(&mut it);
                let pat = (*f.pat).clone();
                let ne: Expr;
                if let Expr::Range(r) = &it {
                    let lo = r.start.clone().expect("range start");
                    let hi = r.end.clone().expect("range end");
                    let mut body = f.body.clone();
                    let bindp: Stmt = match &pat { Pat::Wild(_) => parse_quote!(();), p => parse_quote!(let #p = #kk;) };
                    body.stmts.insert(0, bindp);
                    body.stmts.insert(1, parse_quote!(#kk = #kk + 1;));
                    self.fors.insert(k, match r.limits {
                        RangeLimits::HalfOpen(_) => format!("decreases (if __k{k} < __s{k} {{ __s{k} as int - __k{k} as int }} else {{ 0 }}) as int,\n"),
                        _ => format!("decreases (if __k{k} <= __s{k} {{ __s{k} as int + 1 - __k{k} as int }} else {{ 0 }}) as int,\n"),
                    });
                    self.mark_loop(k, &mut body);
                    let op = match r.limits { RangeLimits::HalfOpen(_) => quote!(<), _ => quote!(<=) };
                    let bm = format_ident!("__VP_BEFORE_{}", k);
                    ne = parse_quote!({ let mut #kk = #lo; let #s = #hi; #bm; #label while #kk #op #s #body });
                } else {
                    // by-reference iteration over something with a slice view
                    let (mut is_mut, mut by_value) = (false, false);
                    let recv: Expr = match &it {
                        // by value: the elements are copied out (anything that is not Copy is refused by the compiler)
                        Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() => { by_value = true; (*m.receiver).clone() }
                        Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => (*m.receiver).clone(),
                        Expr::MethodCall(m) if m.method == "iter_mut" && m.args.is_empty() => { is_mut = true; (*m.receiver).clone() }
                        Expr::Reference(r) if r.mutability.is_none() => (*r.expr).clone(),
                        o => o.clone(),
                    };
                    let mut body = f.body.clone();
                    if is_mut {
                        body.stmts.insert(0, parse_quote!(let #pat = &mut #recv[#kk];));
                    } else {
                        match &pat {
                            p if by_value => body.stmts.insert(0, parse_quote!(let #p = #s[#kk];)),
                            Pat::Reference(r) => { let p = &r.pat; body.stmts.insert(0, parse_quote!(let #p = #s[#kk];)); }
                            p => body.stmts.insert(0, parse_quote!(let #p = &#s[#kk];)),
                        }
                    }
                    body.stmts.insert(1, parse_quote!(#kk = #kk + 1;));
                    if !is_mut { self.fors.insert(k, format!("decreases __s{k}@.len() - __k{k},\n")); }
                    self.mark_loop(k, &mut body);
                    if is_mut {
                        let bm = format_ident!("__VP_BEFORE_{}", k);
                        ne = parse_quote!({ let mut #kk: usize = 0; #bm; #label while #kk < #recv.len() #body });
                    } else {
                        let bm = format_ident!("__VP_BEFORE_{}", k);
                        ne = parse_quote!({ let #s = (#recv).vp_slice(); let mut #kk: usize = 0; #bm; #label while #kk < #s.len() #body });
                    }
                }
                *e = ne;
                return;
            }
            Expr::Closure(cl) => {
                let k = self.closures;
                self.closures += 1;
                let mut names = vec![];
                let mut prefix = TokenStream::new();
                for (n, p) in cl.inputs.iter().enumerate() {
                    let (pat, _ty) = match p { Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())), o => (o.clone(), None) };
                    match &pat {
                        Pat::Ident(pi) if pi.by_ref.is_none() && pi.subpat.is_none() => names.push(pi.ident.clone()),
                        Pat::Reference(r) => {
                            let id = format_ident!("__p{}", n);
                            let inner = &r.pat;
                            prefix.extend(quote!(let #inner = *#id;));
                            names.push(id);
                            self.rule("T6");
                        }
                        Pat::Wild(_) => names.push(format_ident!("__p{}", n)),
                        o => {
                            let id = format_ident!("__p{}", n);
                            prefix.extend(quote!(let #o = #id;));
                            names.push(id);
                            self.rule("T6");
                        }
                    }
                }
                self.visit_expr_mut(&mut cl.body);
                PathRw.visit_expr_mut(&mut cl.body);
                let chosen = self.c.closures.get(&k).or_else(|| self.c.closures_any.iter().find(|(h, _)| {
                    let close = h[1..].find('|').expect("closure head") + 1;
                    split_top(&h[1..close]).len() == names.len()
                }));
                if let Some((head, _)) = chosen {
                    let close = head[1..].find('|').expect("closure head") + 1;
                    for (n, p) in split_top(&head[1..close]).iter().enumerate() {
                        let t = p.split(':').nth(1).unwrap_or("").trim().to_string();
                        if ["&u8", "&u16", "&u32", "&u64", "&usize", "&i32", "&i64"].contains(&t.as_str()) && n < names.len() {
                            DerefOps(names[n].to_string()).visit_expr_mut(&mut cl.body);
                            self.rule("T17");
                        }
                    }
                }
                let body = &cl.body;
                if let Some((head, ens)) = chosen {
                    // contract names -> actual names
                    let close = head[1..].find('|').expect("closure head") + 1;
                    let mut cn = vec![];
                    for p in split_top(&head[1..close]) {
                        let n = p.split(':').next().unwrap().trim().to_string();
                        if !n.is_empty() { cn.push(n); }
                    }
                    if cn.len() != names.len() {
                        self.info.lost.push(format!("closure {}", k));
                    } else {
                        let map: Vec<(String, String)> = cn.iter().cloned().zip(names.iter().map(|x| x.to_string())).collect();
                        let mv = if cl.capture.is_some() { "move " } else { "" };
                        let head = format!("{}{} {}", mv, subst(head, &map), subst(ens, &map));
                        let pre = self.c.closurebody.get(&k).map(|x| subst(x, &map)).unwrap_or_default();
                        self.heads.push((k, head, pre));
                        let m = format_ident!("__VP_CLH_{}", k);
                        let mb = format_ident!("__VP_CLB_{}", k);
                        *e = Expr::Verbatim(quote!(#m { #mb; #prefix #body }));
                        return;
                    }
                } else {
                    self.info.unannotated.push(format!("closure {}", k));
                }
                if !prefix.is_empty() {
                    let cap = &cl.capture;
                    *e = parse_quote!(#cap |#(#names),*| { #prefix #body });
                }
                return;
            }
            Expr::MethodCall(m) => {
                // T11: iterator adaptor chains go through the contracted model iterators
                if matches!(&*m.receiver, Expr::MethodCall(r) if r.args.is_empty() && r.method == "iter")
                    && m.method != "next" {
                    if let Expr::MethodCall(r) = &mut *m.receiver { r.method = format_ident!("vp_iter"); }
                    self.info.rules.insert("T11".into());
                }
                if m.method == "chunks_exact" { m.method = format_ident!("vp_chunks_exact"); self.info.rules.insert("T11".into()); }
                if m.method == "as_ref" && m.args.is_empty() { m.method = format_ident!("vp_as_ref"); self.info.rules.insert("T12".into()); }
                if let Some(x) = opt_box_mut(m) {
                    *e = parse_quote!(#x.vp_opt_box_mut());
                    self.info.rules.insert("T12".into());
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
                if m.method == "as_mut" && m.args.is_empty() { m.method = format_ident!("vp_as_mut"); self.info.rules.insert("T12".into()); }
                if m.method == "into" && m.args.is_empty() { m.method = format_ident!("vp_into"); self.info.rules.insert("T12".into()); }
                if m.method == "to_be_bytes" { m.method = format_ident!("vp_to_be_bytes"); }
                // T16: X[a..].copy_from_slice(y)
                if m.method == "copy_from_slice" && m.args.len() == 1 {
                    if let Expr::Index(ix) = &*m.receiver {
                        if let Expr::Range(r) = &*ix.index {
                            if let (Some(lo), None) = (&r.start, &r.end) {
                                let (x, y) = (&ix.expr, &m.args[0]);
                                let lo = lo.clone();
                                *e = parse_quote!(crate::shim::vp_copy_tail(&mut #x, #lo, #y));
                                self.info.rules.insert("T16".into());
                                visit_mut::visit_expr_mut(self, e);
                                return;
                            }
                        }
                    }
                }
            }
            Expr::Call(c) => {
                // T10: formatting is opaque
                if let Expr::Path(p) = &*c.func {
                    let s = p.path.to_token_stream().to_string().replace(' ', "");
                    if s.ends_with("box_assume_init_into_vec_unsafe") {
                        // T19: vec![a, b] back from its expansion
                        struct A(Option<ExprArray>);
                        impl<'a> visit::Visit<'a> for A { fn visit_expr_array(&mut self, a: &'a ExprArray) { if self.0.is_none() { self.0 = Some(a.clone()); } } }
                        let mut a = A(None);
                        visit::Visit::visit_expr_call(&mut a, c);
                        if let Some(a) = a.0 {
                            let xs = a.elems.iter();
                            self.rule("T19");
                            *e = parse_quote!({ let mut __v = Vec::new(); #(__v.push(#xs);)* __v });
                            visit_mut::visit_expr_mut(self, e);
                            return;
                        }
                    }
                    if s.ends_with("fmt::format") || s.ends_with("__export::must_use") {
                        // format!("{}", x) is the Display text of x
                        let t = c.args.to_token_stream().to_string();
                        if let Some(p) = t.find("format_args !") {
                            let r = t[p..].trim_start_matches("format_args !").trim();
                            if let Some(r) = r.strip_prefix("(\"{0}\" ,") {
                                if let Some(r) = r.split(')').next() {
                                    if let Ok(x) = parse_str::<ExprPath>(r.trim()) {
                                        self.rule("T10");
                                        *e = parse_quote!(crate::shim::vp_display(#x));
                                        return;
                                    }
                                }
                            }
                        }
                        self.rule("T10");
                        *e = parse_quote!(crate::shim::vp_format_opaque());
                        return;
                    }
                    if s.ends_with("panicking::panic_fmt") || s.ends_with("rt::panic_fmt") || s.ends_with("panicking::panic")
                        || s.ends_with("rt::begin_panic") || s.ends_with("panicking::panic_display") || s.ends_with("panicking::unreachable_display") {
                        *e = match &self.c.panics {
                            Some(g) => { let g = format_ident!("{}", g); self.rule("T26"); parse_quote!(crate::shim::vp_refuse(Ghost(#g))) }
                            None => parse_quote!(crate::shim::vp_panic("panic")),
                        };
                        return;
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        // T14: `e?` is its language-defined match (the error goes through From)
        if let (Expr::Try(t), false) = (&*e, self.opt_ret) {
            let x = t.expr.clone();
            self.info.rules.insert("T14".into());
            let mut m: ExprMatch = parse_quote!(match __x { Ok(__v) => __v, Err(__e) => return Err(crate::shim::VpFrom::vp_from(__e)) });
            m.expr = x; // (not re-parsed: it may hold annotated closures)
            *e = Expr::Paren(ExprParen { attrs: vec![], paren_token: Default::default(), expr: Box::new(Expr::Match(m)) });
        }
        if let Expr::Path(p) = e {
            if let (Some(n), true) = (&self.self_to, p.path.is_ident("self")) {
                let id = format_ident!("{}", n);
                *e = parse_quote!(#id);
            }
        }
    }
}

/// T17: an operator on a reference to a number is the operator on the number
struct DerefOps(String);
impl VisitMut for DerefOps {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Binary(b) = e {
            for x in [&mut b.left, &mut b.right] {
                if let Expr::Path(p) = &**x {
                    if p.path.is_ident(self.0.as_str()) { let p = p.clone(); **x = parse_quote!((*#p)); }
                }
            }
        }
    }
}

fn split_top(s: &str) -> Vec<String> {
    let mut d = 0i32;
    let mut out = vec![];
    let mut cur = String::new();
    for c in s.chars() {
        match c {
            '<' | '(' | '[' => d += 1,
            '>' | ')' | ']' => d -= 1,
            _ => {}
        }
        if c == ',' && d == 0 { out.push(std::mem::take(&mut cur)); } else { cur.push(c); }
    }
    if !cur.trim().is_empty() { out.push(cur); }
    out
}

/// simultaneous substitution of whole identifiers
pub fn subst(s: &str, map: &[(String, String)]) -> String {
    let mut out = String::new();
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_alphabetic() || b[i] == '_' {
            let st = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') { i += 1; }
            let w: String = b[st..i].iter().collect();
            // not a field access, not a lifetime
            let prev = if st > 0 { b[st - 1] } else { ' ' };
            let dd = st > 1 && b[st - 1] == '.' && b[st - 2] == '.';
            if (prev == '.' && !dd) || prev == '\'' { out.push_str(&w); continue; }
            match map.iter().find(|(k, _)| *k == w) { Some((_, v)) => out.push_str(v), None => out.push_str(&w) }
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

// T2: FnMut -> Fn
struct FnMutRw;
impl VisitMut for FnMutRw {
    fn visit_path_mut(&mut self, p: &mut Path) {
        for s in p.segments.iter_mut() {
            if s.ident == "FnMut" || s.ident == "FnOnce" { s.ident = format_ident!("Fn"); }
        }
        visit_mut::visit_path_mut(self, p);
    }
}

struct AssocRw<'a>(&'a [(String, Type)]);
impl<'a> VisitMut for AssocRw<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                let n = p.path.segments[1].ident.to_string();
                if let Some((_, ty)) = self.0.iter().find(|(k, _)| *k == n) {
                    *t = ty.clone();
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

fn fn_bounded(g: &Generics) -> bool {
    g.to_token_stream().to_string().contains("FnMut") || g.where_clause.as_ref().map_or(false, |w| w.to_token_stream().to_string().contains("FnMut"))
}

/// `let mut x` whose x is only ever called: the mutability comes from FnMut (T2)
fn only_called(b: &Block) -> BTreeSet<String> {
    struct V { muts: BTreeSet<String>, bad: BTreeSet<String> }
    impl<'a> visit::Visit<'a> for V {
        fn visit_local(&mut self, l: &'a Local) {
            if let Pat::Ident(p) = &l.pat { if p.mutability.is_some() { self.muts.insert(p.ident.to_string()); } }
            visit::visit_local(self, l);
        }
        fn visit_expr_call(&mut self, c: &'a ExprCall) {
            if !matches!(&*c.func, Expr::Path(_)) { self.visit_expr(&c.func); }
            for a in &c.args { self.visit_expr(a); }
        }
        fn visit_expr_path(&mut self, p: &'a ExprPath) {
            if let Some(i) = p.path.get_ident() { self.bad.insert(i.to_string()); }
        }
    }
    let mut v = V { muts: Default::default(), bad: Default::default() };
    visit::Visit::visit_block(&mut v, b);
    v.muts.difference(&v.bad).cloned().collect()
}

/// T25: local names that are words of the verifier get a suffix
struct KwRw(bool);
impl KwRw {
    fn word(&mut self, i: &mut Ident) {
        let s = i.to_string();
        if ["int", "nat", "real", "forall", "exists", "choose", "proof", "spec", "exec", "ghost", "tracked", "requires", "ensures", "invariant", "decreases", "final",
            "old", "has", "is", "assume", "broadcast", "open", "closed", "global"].contains(&s.as_str()) {
            *i = Ident::new(&format!("{}_vp", s), i.span());
            self.0 = true;
        }
    }
}
impl VisitMut for KwRw {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { self.word(&mut p.ident); visit_mut::visit_pat_ident_mut(self, p); }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_none() && p.path.leading_colon.is_none() && p.path.segments.len() == 1 && p.path.segments[0].arguments.is_empty() { self.word(&mut p.path.segments[0].ident); }
    }
}

pub fn emit_fn(f: &FnItem, c: &Contract, ext: bool, out: &mut Out) -> Info {
    let mut sig = f.sig.clone();
    let mut block = f.block.clone();
    let mut kw = KwRw(false);
    kw.visit_block_mut(&mut block);
    let mut_drop = only_called(&block);
    let had_fnmut = fn_bounded(&sig.generics) || sig.output.to_token_stream().to_string().contains("FnMut");
    sig.constness = None;
    let in_trait = f.recv_impl.as_ref().and_then(|r| r.in_trait.clone());
    let mut rw = BodyRw {
        c, loops: 0, closures: 0, fors: BTreeMap::new(), info: Info::default(), heads: vec![],
        self_to: in_trait.as_ref().map(|_| "vp_self".to_string()), mut_drop,
        opt_ret: sig.output.to_token_stream().to_string().replace(' ', "").starts_with("->Option<"),
    };
    rw.visit_block_mut(&mut block);
    if had_fnmut { rw.rule("T2"); }
    if kw.0 { rw.rule("T25"); }
    for r in &f.pre_rules { rw.rule(r); }
    for k in c.loops.keys().chain(c.loopbody.keys()) {
        if *k >= rw.loops { rw.info.lost.push(format!("loop {}", k)); }
    }
    for k in c.closures.keys() {
        if *k >= rw.closures { rw.info.lost.push(format!("closure {}", k)); }
    }
    FnMutRw.visit_signature_mut(&mut sig);
    FnMutRw.visit_block_mut(&mut block);
    if let Some(r) = &f.recv_impl {
        AssocRw(&r.assoc).visit_signature_mut(&mut sig);
        AssocRw(&r.assoc).visit_block_mut(&mut block);
    }
    PathRw.visit_signature_mut(&mut sig);
    PathRw.visit_block_mut(&mut block);
    let mut ml = MutLife(false, false);
    ml.visit_signature_mut(&mut sig);
    if ml.0 { rw.rule("T20"); }
    if c.lifetime {
        // T18: the elided lifetime of the signature gets its name
        struct L(bool);
        impl VisitMut for L {
            fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
                if r.lifetime.is_none() { r.lifetime = Some(parse_quote!('a)); self.0 = true; }
                visit_mut::visit_type_reference_mut(self, r);
            }
            fn visit_lifetime_mut(&mut self, l: &mut Lifetime) { if l.ident == "_" { *l = parse_quote!('a); self.0 = true; } }
            fn visit_parenthesized_generic_arguments_mut(&mut self, _: &mut ParenthesizedGenericArguments) {}
            fn visit_generics_mut(&mut self, _: &mut Generics) {}
        }
        let mut l = L(false);
        l.visit_signature_mut(&mut sig);
        if l.0 {
            sig.generics.params.insert(0, parse_quote!('a));
            rw.rule("T18");
        }
    }
    // parameters
    let mut actual = vec![];
    for a in sig.inputs.iter_mut() {
        match a {
            FnArg::Receiver(r) => { r.attrs.clear(); actual.push("self".to_string()); }
            FnArg::Typed(t) => {
                t.attrs.clear();
                if let Pat::Ident(pi) = &mut *t.pat {
                    if had_fnmut && pi.mutability.is_some() { pi.mutability = None; }
                    actual.push(pi.ident.to_string());
                } else {
                    actual.push("_".to_string());
                }
            }
        }
    }
    let mut map: Vec<(String, String)> = vec![];
    if !c.params.is_empty() {
        if c.params.len() != actual.len() { rw.info.lost.push("params".into()); }
        for (a, b) in c.params.iter().zip(actual.iter()) { if b != "_" { map.push((a.clone(), b.clone())); } }
    }
    let sub = |s: &str| subst(s, &map);
    // header text
    let mut name = f.name.clone();
    let mut pre = String::new();
    let mut post = String::new();
    let mut generics = sig.generics.clone();
    if let Some(r) = &f.recv_impl {
        if let Some((tn, tg)) = &in_trait {
            name = format!("{}__{}", tn, name);
            let tid = format_ident!("{}", tn);
            let (_, tgen, _) = tg.split_for_impl();
            let mut g2 = tg.clone();
            g2.params.push(parse_quote!(VpSelf: #tid #tgen + ?Sized));
            for p in generics.params.iter() { g2.params.push(p.clone()); }
            generics = g2;
            if let Some(FnArg::Receiver(rc)) = sig.inputs.first().cloned() {
                let arg: FnArg = match (&rc.reference, &rc.mutability) {
                    (Some(_), Some(_)) => parse_quote!(vp_self: &mut VpSelf),
                    (Some(_), None) => parse_quote!(vp_self: &VpSelf),
                    _ => parse_quote!(vp_self: VpSelf),
                };
                sig.inputs[0] = arg;
            }
            rw.info.rules.insert("T8".into());
        } else {
            let mut g = r.generics.clone();
            PathRw.visit_generics_mut(&mut g);
            let (ig, _, wc) = g.split_for_impl();
            let mut st = r.self_ty.clone();
            PathRw.visit_type_mut(&mut st);
            pre = format!("impl {} {} {} {{\n", toks(ig.to_token_stream()), toks(st.to_token_stream()), toks(wc.to_token_stream()));
            post = "}\n".into();
            if crate::dep::on() && r.trait_.is_none() { name = format!("dep_{}", name); }
            if let Some(t) = &r.trait_ {
                let _ = t;
                // <T as From_X>::from -> vp_From_X_from
                let tn: String = f.path.split(" as ").last().unwrap().split(">::").next().unwrap()
                    .chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).collect();
                name = format!("vp_{}_{}", tn, name);
                if crate::dep::free_impl(f) {
                    pre.clear();
                    post.clear();
                    if crate::dep::on() {
                        name = format!("{}_{}", crate::ty_name(&r.self_ty), name);
                        let mut g2 = r.generics.clone();
                        for p in generics.params.iter() { g2.params.push(p.clone()); }
                        generics = g2;
                        if let Some(w) = &r.generics.where_clause { for p in &w.predicates { sig.generics.make_where_clause().predicates.push(p.clone()); } }
                    }
                }
                if let Type::Reference(_) = r.self_ty { pre.clear(); post.clear(); }
                rw.info.rules.insert("T8".into());
            }
        }
    }
    let gp = &generics.params;
    let wc = sig.generics.where_clause.as_ref().map(|w| {
        let mut w = w.clone();
        FnMutRw.visit_where_clause_mut(&mut w);
        PathRw.visit_where_clause_mut(&mut w);
        let s = toks(w.to_token_stream());
        let t = s.trim_end();
        if t.ends_with(',') { t.to_string() } else { format!("{},", t) }
    }).unwrap_or_default();
    let ret = match (&sig.output, &c.ret) {
        (ReturnType::Default, _) => String::new(),
        (ReturnType::Type(_, t), Some(r)) => format!("-> ({}: {})", r, c.rettype.clone().unwrap_or(toks(t.to_token_stream()))),
        (ReturnType::Type(_, t), None) => format!("-> {}", toks(t.to_token_stream())),
    };
    let inputs = &sig.inputs;
    let gtxt = if gp.is_empty() { String::new() } else { format!("<{}>", toks(gp.to_token_stream())) };
    let mut text = String::new();
    text.push_str(&pre);
    if ext || c.trusted { text.push_str("#[verifier::external_body]\n"); }
    text.push_str("#[verifier::loop_isolation(false)]\n");
    if !c.attrs.is_empty() { text.push_str(&c.attrs); text.push('\n'); }
    text.push_str(&format!("pub fn {}{}({}) {}\n{}\n{}", name, gtxt, toks(inputs.to_token_stream()), ret, wc, sub(&c.spec)));
    if ext || c.trusted {
        text.push_str("{ unimplemented!() }\n");
        // an opaque return type needs a body of that type: handled by --drop instead
    } else {
        // vacuity canaries (never used for a verdict): an obligation that must fail in every function
        match std::env::var("VP_CANARY").as_deref() {
            Ok("entry") => block.stmts.insert(0, parse_quote!(assert(false);)),
            Ok("end") => match block.stmts.pop() {
                Some(Stmt::Expr(e, None)) if sig.output.to_token_stream().to_string().contains("impl ") => {
                    block.stmts.push(parse_quote!(assert(false);));
                    block.stmts.push(Stmt::Expr(e, None));
                }
                Some(Stmt::Expr(e, None)) => {
                    let st = match &sig.output {
                        ReturnType::Type(..) if c.rettype.is_some() && crate::dep::on() => {
                            let t: Type = parse_str(c.rettype.as_ref().unwrap()).expect("rettype");
                            quote::quote!(let vp_canary: #t = #e)
                        }
                        ReturnType::Type(_, t) if !t.to_token_stream().to_string().contains("impl ") => quote::quote!(let vp_canary: #t = #e),
                        _ => quote::quote!(let vp_canary = #e),
                    };
                    block.stmts.push(Stmt::Expr(Expr::Verbatim(st), Some(Default::default())));
                    block.stmts.push(parse_quote!(assert(false);));
                    block.stmts.push(Stmt::Expr(parse_quote!(vp_canary), None));
                }
                last => {
                    block.stmts.extend(last);
                    block.stmts.push(parse_quote!(assert(false);));
                }
            },
            _ => {}
        }
        let mut b = toks(block.to_token_stream());
        b = b.trim_end().to_string();
        assert!(b.starts_with("{\n"));
        let mut body = format!("{{\n{}\n{}", sub(&c.entry), &b[2..]);
        for k in 0..rw.loops {
            let mut spec = c.loops.get(&k).map(|s| sub(s)).unwrap_or_default();
            if let Some(d) = rw.fors.get(&k) { spec.push_str(d); }
            let lb = c.loopbody.get(&k).map(|s| sub(s)).unwrap_or_default();
            let bf = c.before.get(&k).map(|s| sub(s)).unwrap_or_default();
            body = body.replacen(&format!("__VP_BEFORE_{} ;\n", k), &bf, 1);
            let le = c.loopend.get(&k).map(|s| sub(s)).unwrap_or_default();
            body = body.replacen(&format!("{{\n__VP_LOOP_{} ;\n", k), &format!("\n{}{{\n{}", spec, lb), 1);
            body = body.replacen(&format!("__VP_LOOPEND_{} ;\n", k), &le, 1);
        }
        for (k, head, pre) in &rw.heads {
            body = body.replacen(&format!("__VP_CLH_{} {{\n__VP_CLB_{} ;\n", k, k), &format!("{} {{\n{}", sub(head), sub(pre)), 1);
        }
        text.push_str(&body);
        text.push('\n');
    }
    text.push_str(&post);
    out.text(&text);
    let mut info = rw.info;
    info.loops = rw.loops;
    info.closures = rw.closures;
    info
}
