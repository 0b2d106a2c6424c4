//! Extraction of a dependency (asn1-rs): rules D1..D5 of DESIGN.md, applied before the common rules.
use crate::FnItem;
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, Ordering};
use syn::visit_mut::{self, VisitMut};
use syn::*;

static ON: AtomicBool = AtomicBool::new(false);
pub fn set() { ON.store(true, Ordering::Relaxed) }
pub fn on() -> bool { ON.load(Ordering::Relaxed) }

pub const PRIMS: [&str; 8] = ["u8", "u16", "u32", "u64", "i32", "i64", "bool", "usize"];

/// the impl cannot be an inherent impl here: primitive type or bare type parameter
pub fn free_impl(f: &FnItem) -> bool {
    if f.path.contains(" as TestValidCharset>") { return true; }
    f.recv_impl.as_ref().map_or(false, |r| match &r.self_ty {
        Type::Path(p) => p.path.get_ident().map_or(false, |i| PRIMS.contains(&i.to_string().as_str()) || r.generics.type_params().any(|t| t.ident == *i)),
        _ => false,
    })
}

struct DepRw { self_ty: Option<Type>, tag: Option<Expr>, inst: BTreeMap<String, Type>, rules: Vec<String> }
impl DepRw { fn rule(&mut self, r: &str) { if !self.rules.iter().any(|x| x == r) { self.rules.push(r.into()) } } }
impl VisitMut for DepRw {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() {
                if let Some(s) = p.path.segments.last() {
                    if s.ident == "Cow" {
                        // D1: a Cow is represented by the slice it dereferences to
                        if let PathArguments::AngleBracketed(a) = &s.arguments {
                            let lt = a.args.iter().find_map(|x| if let GenericArgument::Lifetime(l) = x { Some(l.clone()) } else { None });
                            let ty = a.args.iter().find_map(|x| if let GenericArgument::Type(l) = x { Some(l.clone()) } else { None });
                            if let Some(ty) = ty { *t = match lt { Some(lt) => parse_quote!(&#lt #ty), None => parse_quote!(&#ty) }; self.rule("D1"); }
                        }
                    }
                }
            }
        }
        if let Type::Path(p) = t {
            if let Some(i) = p.path.get_ident() {
                if let (Some(st), true) = (&self.self_ty, i == "Self") { *t = st.clone(); self.rule("D5"); return; }
                if let Some(x) = self.inst.get(&i.to_string()) { *t = x.clone(); self.rule("D4"); return; }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        // D2: the crate's modules are flattened, names are unique
        let s0 = p.segments[0].ident.to_string();
        if p.segments.len() > 1 && (s0 == "crate" || s0 == "self" || p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::").starts_with("core::convert::")) {
            let k = p.segments.iter().position(|s| s.ident.to_string().starts_with(|c: char| c.is_uppercase())).unwrap_or(p.segments.len() - 1);
            let segs: Vec<PathSegment> = p.segments.iter().skip(k).cloned().collect();
            p.leading_colon = None;
            p.segments = segs.into_iter().collect();
        }
        if p.segments.len() > 1 && p.segments[0].ident == "Self" {
            if let Some(Type::Path(t)) = &self.self_ty { if let Some(i) = t.path.get_ident() { p.segments[0].ident = i.clone(); } }
        }
        if p.segments.len() > 1 {
            if let Some(Type::Path(t)) = self.inst.get(&p.segments[0].ident.to_string()) { p.segments[0].ident = t.path.segments.last().unwrap().ident.clone(); self.rule("D4"); }
        }
        // D7: TryFrom and TryInto are the traits of the prelude
        if p.segments.len() > 1 { if let Some(l) = p.segments.last_mut() { if l.ident == "try_from" { l.ident = format_ident!("vp_try_from"); self.rule("D7"); } } }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            let s = p.path.to_token_stream().to_string().replace(' ', "");
            if s == "Self::TAG" { if let Some(t) = &self.tag { *e = t.clone(); self.rule("D3"); return; } }
            if s == "u8::is_ascii" { *e = parse_quote!(crate::depsup::vp_is_ascii); return; }
        }
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let s = p.path.to_token_stream().to_string().replace(' ', "");
                if s.ends_with("Cow::Borrowed") && c.args.len() == 1 {
                    let x = c.args[0].clone();
                    *e = x;
                    self.rule("D1");
                    return self.visit_expr_mut(e);
                }
                if s.contains("any::type_name") { *e = parse_quote!(""); self.rule("D6"); return; }
                if s.ends_with("panicking::unreachable_default_msg") { *e = parse_quote!(crate::shim::vp_panic("unreachable")); return; }
                // T22
                if s == "u8::from" && c.args.len() == 1 && c.args.to_token_stream().to_string().contains("!=") {
                    let x = c.args[0].clone();
                    *e = parse_quote!((if #x { 1u8 } else { 0u8 }));
                    return self.visit_expr_mut(e);
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        // D10: a cast to a signed type wraps
        if let Expr::Cast(c) = e {
            let ty = c.ty.to_token_stream().to_string();
            if (ty == "i32" || ty == "i64") && matches!(&*c.expr, Expr::Path(_)) {
                let (x, n) = (&c.expr, format_ident!("vp_wrap_{}", ty));
                *e = parse_quote!(crate::depsup::#n(#x));
                self.rule("D10");
                return;
            }
        }
        if let Expr::Path(p) = e {
            if let (Some(q), true) = (&p.qself, p.path.is_ident("MAX")) { let ty = &q.ty; *e = parse_quote!(#ty::MAX); }
        }
        if let Expr::MethodCall(m) = e {
            let r = m.receiver.clone();
            if m.args.is_empty() && m.method == "is_ascii_digit" { *e = parse_quote!(crate::depsup::vp_is_ascii_digit(#r)); }
            else if m.args.is_empty() && m.method == "to_string" { *e = parse_quote!(crate::depsup::vp_to_string(#r)); }
        }
        if let Expr::MethodCall(m) = e { if m.method == "windows" { m.method = format_ident!("vp_windows"); } }
        if let Expr::MethodCall(m) = e { if m.method == "try_into" { m.method = format_ident!("vp_try_into"); self.rule("D7"); } }
        // D6: Result::map_err and Result::or, by their definition
        if let Expr::MethodCall(m) = e {
            if m.args.len() == 1 {
                let a = m.args[0].clone();
                let r = m.receiver.clone();
                let mut ne: Option<ExprMatch> = None;
                if m.method == "map_err" {
                    match &a {
                        Expr::Path(_) => ne = Some(parse_quote!(match __x { Ok(__v) => Ok(__v), Err(__e) => Err(#a(__e)) })),
                        Expr::Closure(c) if c.inputs.len() == 1 => {
                            let (p, b) = (&c.inputs[0], &c.body);
                            ne = Some(parse_quote!(match __x { Ok(__v) => Ok(__v), Err(#p) => Err(#b) }));
                        }
                        _ => {}
                    }
                } else if m.method == "or" { ne = Some(parse_quote!(match __x { Ok(__v) => Ok(__v), Err(_) => #a })); }
                if let Some(mut x) = ne {
                    x.expr = r;
                    self.rule("D6");
                    *e = Expr::Paren(ExprParen { attrs: vec![], paren_token: Default::default(), expr: Box::new(Expr::Match(x)) });
                }
            }
        }
    }
    fn visit_generics_mut(&mut self, g: &mut Generics) {
        let inst = self.inst.clone();
        let keep: Vec<GenericParam> = g.params.iter().filter(|p| match p { GenericParam::Type(t) => !inst.contains_key(&t.ident.to_string()), _ => true }).cloned().collect();
        g.params = keep.into_iter().collect();
        if let Some(w) = &mut g.where_clause {
            let keep: Vec<WherePredicate> = w.predicates.iter().filter(|p| match p {
                WherePredicate::Type(t) => !inst.contains_key(&t.bounded_ty.to_token_stream().to_string()),
                _ => true,
            }).cloned().collect();
            w.predicates = keep.into_iter().collect();
        }
        visit_mut::visit_generics_mut(self, g);
    }
}

pub fn tags(items: &[Item], out: &mut BTreeMap<String, Expr>) {
    for it in items {
        match it {
            Item::Mod(m) => if let Some((_, its)) = &m.content { tags(its, out) },
            Item::Impl(im) => {
                if im.trait_.as_ref().map_or(false, |t| t.1.segments.last().unwrap().ident == "Tagged") {
                    for ii in &im.items {
                        if let ImplItem::Const(c) = ii { out.insert(crate::ty_name(&im.self_ty), c.expr.clone()); }
                    }
                }
            }
            _ => {}
        }
    }
}

/// `inst`: path -> (type parameter -> type)
pub fn apply(fns: &mut [FnItem], tags: &BTreeMap<String, Expr>, inst: &BTreeMap<String, BTreeMap<String, Type>>) {
    for f in fns.iter_mut() {
        let free = free_impl(f);
        let mut rw = DepRw {
            self_ty: if free { f.recv_impl.as_ref().map(|r| r.self_ty.clone()) } else { None },
            tag: f.recv_impl.as_ref().and_then(|r| tags.get(&crate::ty_name(&r.self_ty)).cloned()),
            inst: inst.get(&f.path).cloned().unwrap_or_default(),
            rules: vec![],
        };
        if tail_call(&mut f.block) { rw.rule("D8"); }
        rw.visit_signature_mut(&mut f.sig);
        rw.visit_block_mut(&mut f.block);
        if let Some(r) = &mut f.recv_impl {
            rw.visit_generics_mut(&mut r.generics);
            if !free { rw.visit_type_mut(&mut r.self_ty); }
        }
        f.pre_rules.extend(rw.rules);
    }
}

/// D8: a function that ends in `trace_generic(_, _, |p| body, x)` ends in `let p = x; body` (trace_generic calls its argument, which is proved)
fn tail_call(b: &mut Block) -> bool {
    if let Some(Stmt::Expr(Expr::Call(c), None)) = b.stmts.last() {
        if c.func.to_token_stream().to_string().replace(' ', "").ends_with("trace_generic") && c.args.len() == 4 {
            if let Expr::Closure(cl) = &c.args[2] {
                if cl.inputs.len() == 1 {
                    let (p, x, body) = (cl.inputs[0].clone(), c.args[3].clone(), cl.body.clone());
                    b.stmts.pop();
                    b.stmts.push(parse_quote!(let #p = #x;));
                    match *body {
                        Expr::Block(e) if e.label.is_none() => b.stmts.extend(e.block.stmts),
                        o => b.stmts.push(Stmt::Expr(o, None)),
                    }
                    return true;
                }
            }
        }
    }
    false
}

/// nested functions become functions of the module (they capture nothing)
pub fn hoist(fns: &mut Vec<FnItem>) {
    let mut extra = vec![];
    for f in fns.iter_mut() {
        let mut names = vec![];
        f.block.stmts.retain(|s| match s {
            Stmt::Item(Item::Fn(g)) => { names.push(g.clone()); false }
            Stmt::Item(Item::Use(_)) => false,
            _ => true,
        });
        for g in names {
            let base: String = f.recv_impl.as_ref().map(|r| crate::ty_name(&r.self_ty) + "_").unwrap_or_default();
            let new = format!("{}{}_{}", base, f.name, g.sig.ident);
            struct R(String, String);
            impl VisitMut for R {
                fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
                    if p.path.is_ident(self.0.as_str()) { let i = format_ident!("{}", self.1); p.path = parse_quote!(#i); }
                }
            }
            R(g.sig.ident.to_string(), new.clone()).visit_block_mut(&mut f.block);
            let mut sig = g.sig.clone();
            sig.ident = format_ident!("{}", new);
            extra.push(FnItem {
                path: format!("{}::{}", f.path, g.sig.ident), module: f.module.clone(), name: new, recv_impl: None, sig,
                block: (*g.block).clone(), pre_rules: vec!["T23".into()],
            });
            f.pre_rules.push("T23".into());
        }
    }
    fns.extend(extra);
}

/// type items of the dependency that the prelude repeats: they must be the same, tokens for tokens (visibility and attributes apart)
pub fn compare(items: &[Item], prelude: &str, want: &[String]) -> Vec<String> {
    let mut out = vec![];
    for w in want {
        let name = w.rsplit("::").next().unwrap();
        let mut src = None;
        find(items, "", w, &mut src);
        let Some(src) = src else { out.push(format!("{}: not in the dependency", w)); continue };
        let mine = ["struct", "enum"].iter().find_map(|k| grab(prelude, &format!("pub {} {}", k, name)));
        let Some(mine) = mine else { out.push(format!("{}: not in the prelude", w)); continue };
        match parse_str::<Item>(&mine) {
            Ok(m) => { let (a, b) = (norm(&src), norm(&m)); if a != b { out.push(format!("{}: {} / {}", w, a, b)); } }
            Err(e) => out.push(format!("{}: {}", w, e)),
        }
    }
    // associated constants of Tag
    let mut consts = vec![];
    tag_consts(items, &mut consts);
    for (n, e) in consts {
        let pat = format!("pub const {}: Tag = Tag({});", n, e);
        if !prelude.contains(&pat) { out.push(format!("missing in the prelude: {}", pat)); }
    }
    out
}
fn tag_consts(items: &[Item], out: &mut Vec<(String, String)>) {
    for it in items {
        match it {
            Item::Mod(m) => if let Some((_, its)) = &m.content { tag_consts(its, out) },
            Item::Impl(im) if im.trait_.is_none() && im.self_ty.to_token_stream().to_string() == "Tag" => {
                for ii in &im.items {
                    if let ImplItem::Const(c) = ii {
                        if let Expr::Call(x) = &c.expr { if c.ident.to_string().starts_with(|c: char| c.is_uppercase()) && c.ty.to_token_stream().to_string() == "Self" || c.ty.to_token_stream().to_string() == "Tag" { out.push((c.ident.to_string(), x.args.to_token_stream().to_string())) } }
                    }
                }
            }
            _ => {}
        }
    }
}
fn find(items: &[Item], path: &str, want: &str, out: &mut Option<Item>) {
    for it in items {
        let n = match it { Item::Struct(s) => s.ident.to_string(), Item::Enum(s) => s.ident.to_string(), _ => String::new() };
        if !n.is_empty() && format!("{}{}", path, n) == want { *out = Some(it.clone()); }
        if let Item::Mod(m) = it { if let Some((_, its)) = &m.content { find(its, &format!("{}{}::", path, m.ident), want, out) } }
    }
}
fn grab(s: &str, head: &str) -> Option<String> {
    let mut from = 0;
    while let Some(p) = s[from..].find(head) {
        let st = from + p;
        let next = s[st + head.len()..].chars().next().unwrap_or(' ');
        if !(next.is_alphanumeric() || next == '_') {
            let mut d = 0i32;
            for (k, c) in s[st..].char_indices() {
                match c {
                    '{' | '(' => d += 1,
                    '}' => { d -= 1; if d == 0 { return Some(s[st..st + k + 1].to_string()); } }
                    ')' => d -= 1,
                    ';' if d == 0 => return Some(s[st..st + k + 1].to_string()),
                    _ => {}
                }
            }
        }
        from = st + head.len();
    }
    None
}
fn norm(i: &Item) -> String {
    let mut i = i.clone();
    let mut rw = DepRw { self_ty: None, tag: None, inst: Default::default(), rules: vec![] };
    rw.visit_item_mut(&mut i);
    match &mut i {
        Item::Struct(s) => { s.attrs.clear(); s.vis = Visibility::Inherited; for f in s.fields.iter_mut() { f.attrs.clear(); f.vis = Visibility::Inherited; } }
        Item::Enum(s) => { s.attrs.clear(); s.vis = Visibility::Inherited; for v in s.variants.iter_mut() { v.attrs.clear(); for f in v.fields.iter_mut() { f.attrs.clear(); } } }
        _ => {}
    }
    let ts: TokenStream = quote!(#i);
    let flat: Vec<String> = ts.to_string().split_whitespace().map(|x| x.to_string()).collect();
    flat.join(" ").replace(", }", "}").replace(" }", "}").replace("nom :: Needed", "Needed").replace("nom :: error :: ErrorKind", "ErrorKind").replace("0b00", "0").replace("0b01", "1").replace("0b10", "2").replace("0b11", "3")
}
