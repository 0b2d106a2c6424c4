//! Mechanical extraction of der-parser functions into a Verus file.
//!
//! usage: vp-extract EXPANDED.rs CONTRACT_DIR PRELUDE.rs OUT.rs MAP.json [--external a,b] [--drop a,b]
//!
//! Input is the macro-expanded crate (rustc -Zunpretty=expanded), so the text that is
//! verified is the text rustc compiles.  Every rewrite is listed in DESIGN.md (rules T1..).
mod contracts;
mod dep;
mod inline;
mod rewrite;
mod serfn;
mod printer;

use contracts::{Contract, Contracts};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::*;

pub struct FnItem {
    pub path: String,       // ber::parser::parse_ber
    pub module: String,     // ber::parser
    pub name: String,
    pub recv_impl: Option<ImplCtx>,
    pub sig: Signature,
    pub block: Block,
    pub pre_rules: Vec<String>,
}
#[derive(Clone)]
pub struct ImplCtx {
    pub generics: Generics,
    pub self_ty: Type,
    pub trait_: Option<Path>,
    pub assoc: Vec<(String, Type)>,
    pub in_trait: Option<(String, Generics)>, // default method of a trait
}

struct Module {
    path: String,
    uses: Vec<ItemUse>,
    types: Vec<Item>, // struct, enum, type, const
    traits: Vec<ItemTrait>,
    children: Vec<String>,
}

fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => format!("ref_{}", ty_name(&r.elem)),
        _ => t.to_token_stream().to_string().replace(' ', ""),
    }
}

fn walk(items: &[Item], path: &str, mods: &mut BTreeMap<String, Module>, fns: &mut Vec<FnItem>) {
    let mut m = Module { path: path.to_string(), uses: vec![], types: vec![], traits: vec![], children: vec![] };
    let j = |n: &str| if path.is_empty() { n.to_string() } else { format!("{}::{}", path, n) };
    for it in items {
        match it {
            Item::Mod(mm) => {
                if let Some((_, its)) = &mm.content {
                    let n = mm.ident.to_string();
                    m.children.push(n.clone());
                    walk(its, &j(&n), mods, fns);
                }
            }
            Item::Use(u) => m.uses.push(u.clone()),
            Item::Struct(_) | Item::Enum(_) | Item::Type(_) | Item::Const(_) => m.types.push(it.clone()),
            Item::Fn(f) => fns.push(FnItem {
                path: j(&f.sig.ident.to_string()),
                module: path.to_string(),
                name: f.sig.ident.to_string(),
                recv_impl: None,
                sig: f.sig.clone(),
                block: (*f.block).clone(),
                pre_rules: vec![],
            }),
            Item::Impl(im) => {
                let mut tn = ty_name(&im.self_ty);
                // one impl per parser kind
                if dep::on() { for k in ["BerParser", "DerParser"] { if im.self_ty.to_token_stream().to_string().contains(k) && tn != k { tn = format!("{}_{}", tn, k) } } }
                let mut assoc = vec![];
                for ii in &im.items {
                    if let ImplItem::Type(t) = ii {
                        assoc.push((t.ident.to_string(), t.ty.clone()));
                    }
                }
                let trait_ = im.trait_.as_ref().map(|t| t.1.clone());
                let tname = match &trait_ {
                    Some(t) => {
                        let s = t.segments.last().unwrap();
                        let mut n = s.ident.to_string();
                        if let PathArguments::AngleBracketed(a) = &s.arguments {
                            let args: Vec<String> = a.args.iter().filter_map(|x| match x {
                                GenericArgument::Type(t) => Some(ty_name(t)), _ => None }).collect();
                            if !args.is_empty() { n = format!("{}_{}", n, args.join("_")); }
                        }
                        format!("<{} as {}>", tn, n)
                    }
                    None => tn.clone(),
                };
                for ii in &im.items {
                    if let ImplItem::Fn(f) = ii {
                        fns.push(FnItem {
                            path: j(&format!("{}::{}", tname, f.sig.ident)),
                            module: path.to_string(),
                            name: f.sig.ident.to_string(),
                            recv_impl: Some(ImplCtx {
                                generics: im.generics.clone(),
                                self_ty: (*im.self_ty).clone(),
                                trait_: trait_.clone(),
                                assoc: assoc.clone(),
                                in_trait: None,
                            }),
                            sig: f.sig.clone(),
                            block: f.block.clone(),
                            pre_rules: vec![],
                        });
                    }
                }
            }
            Item::Trait(t) => {
                m.traits.push(t.clone());
                for ti in &t.items {
                    if let TraitItem::Fn(f) = ti {
                        if let Some(b) = &f.default {
                            fns.push(FnItem {
                                path: j(&format!("{}::{}", t.ident, f.sig.ident)),
                                module: path.to_string(),
                                name: f.sig.ident.to_string(),
                                recv_impl: Some(ImplCtx {
                                    generics: t.generics.clone(),
                                    self_ty: parse_quote!(Self),
                                    trait_: None,
                                    assoc: vec![],
                                    in_trait: Some((t.ident.to_string(), t.generics.clone())),
                                }),
                                sig: f.sig.clone(),
                                block: b.clone(),
                                pre_rules: vec![],
                            });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    mods.insert(path.to_string(), m);
}

/// what a block mentions: free functions, `Type::f`, and method names
#[derive(Default)]
struct Mentions { free: BTreeSet<String>, assoc: BTreeSet<(String, String)>, methods: BTreeSet<String> }
fn mentioned(b: &Block) -> Mentions {
    struct V(Mentions);
    impl<'a> visit::Visit<'a> for V {
        fn visit_path(&mut self, p: &'a Path) {
            let s: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
            let n = s.len();
            if n == 1 || s[n - 2].starts_with(|c: char| c.is_lowercase()) { self.0.free.insert(s[n - 1].clone()); }
            else { self.0.assoc.insert((s[n - 2].clone(), s[n - 1].clone())); }
            visit::visit_path(self, p);
        }
        fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
            self.0.methods.insert(m.method.to_string());
            visit::visit_expr_method_call(self, m);
        }
    }
    let mut v = V(Default::default());
    visit::Visit::visit_block(&mut v, b);
    v.0
}
fn mentions(m: &Mentions, g: &FnItem, cs: &Contracts) -> bool {
    match &g.recv_impl {
        None => m.free.contains(&g.name),
        Some(c) => {
            let t = ty_name(&c.self_ty);
            m.assoc.contains(&(t.clone(), g.name.clone())) || m.assoc.contains(&("Self".to_string(), g.name.clone()))
                || (g.sig.receiver().is_some() && m.methods.contains(&g.name) && cs.types.iter().any(|x| x.rsplit("::").next() == Some(t.as_str())))
        }
    }
}

/// names of the items the prelude defines
fn prelude_names(p: &str) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    for kw in ["pub fn ", "pub struct ", "pub enum ", "pub trait ", "pub type ", "pub mod ", "pub const "] {
        for (i, _) in p.match_indices(kw) {
            let n: String = p[i + kw.len()..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
            s.insert(n);
        }
    }
    s
}

fn use_root(t: &UseTree) -> String {
    match t {
        UseTree::Path(p) => p.ident.to_string(),
        UseTree::Name(n) => n.ident.to_string(),
        UseTree::Rename(n) => n.ident.to_string(),
        UseTree::Glob(_) => "*".into(),
        UseTree::Group(_) => "{}".into(),
    }
}

fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&a[1]).expect("read expanded");
    let cs = Contracts::load(&a[2]);
    let prelude = std::fs::read_to_string(&a[3]).expect("read prelude");
    let mut external = BTreeSet::new();
    let mut dropped = BTreeSet::new();
    let mut i = 6;
    while i < a.len() {
        let set: BTreeSet<String> = a[i + 1].split(',').filter(|x| !x.is_empty()).map(|s| s.to_string()).collect();
        match a[i].as_str() {
            "--external" => external = set,
            "--drop" => dropped = set,
            "--dep" => dep::set(),
            o => panic!("unknown option {}", o),
        }
        i += 2;
    }
    let file = syn::parse_file(&src).expect("parse expanded");
    let mut mods = BTreeMap::new();
    let mut fns = vec![];
    walk(&file.items, "", &mut mods, &mut fns);
    dep::hoist(&mut fns);
    let mut same = vec![];
    if dep::on() {
        let mut tags = BTreeMap::new();
        dep::tags(&file.items, &mut tags);
        let inst = cs.map.iter().map(|(p, c)| (p.clone(), c.inst.iter().map(|(a, b)| (a.clone(), parse_str::<Type>(b).expect("inst"))).collect())).collect();
        dep::apply(&mut fns, &tags, &inst);
        same = dep::compare(&file.items, &prelude, &cs.same);
    }
    let inlined = if dep::on() { Default::default() } else { inline::apply(&mut fns, &cs) };
    if !dep::on() { serfn::apply(&mut fns); }

    // which functions to emit: those with a contract, then helpers they mention, transitively
    let mut emit: BTreeMap<String, bool> = BTreeMap::new(); // path -> is helper
    let mut work: Vec<usize> = vec![];
    for (k, f) in fns.iter().enumerate() {
        if cs.map.contains_key(&f.path) && !dropped.contains(&f.path) {
            emit.insert(f.path.clone(), false);
            work.push(k);
        }
    }
    let never: BTreeSet<&str> = cs.never.iter().map(|s| s.as_str()).collect();
    while let Some(k) = if dep::on() { None } else { work.pop() } {
        let m = mentioned(&fns[k].block);
        for (k2, g) in fns.iter().enumerate() {
            if mentions(&m, g, &cs) && !emit.contains_key(&g.path) && !dropped.contains(&g.path)
                && !never.contains(g.path.as_str())
                && !never.iter().any(|n| n.ends_with("::*") && g.path.starts_with(&n[..n.len() - 1]))
                && g.recv_impl.as_ref().map_or(true, |c| c.trait_.is_none() && c.in_trait.is_none())
            {
                emit.insert(g.path.clone(), true);
                work.push(k2);
            }
        }
    }

    let mut out = printer::Out::new();
    let mut report = vec![];
    out.text(&prelude);
    let unused = mods_used_filter(&mods, &fns, &emit, &cs);
    let mut names: BTreeSet<String> = prelude_names(&prelude);
    for f in &fns { if emit.contains_key(&f.path) { names.insert(f.name.clone()); } }
    for t in &cs.types { names.insert(t.rsplit("::").next().unwrap().to_string()); }
    for t in cs.traits.keys() { names.insert(t.rsplit("::").next().unwrap().to_string()); }
    for m in mods.keys() { if !m.is_empty() && !unused.contains(m) { names.insert(m.rsplit("::").next().unwrap().to_string()); } }
    let known = |n: &str| names.contains(n);
    if dep::on() {
        out = printer::Out::new();
        out.text("pub mod dep {\n");
        let ms: Vec<String> = mods.keys().filter(|m| mods[*m].types.iter().any(|t| keep_type(m, t, &cs)) || fns.iter().any(|f| &f.module == *m && emit.contains_key(&f.path))).cloned().collect();
        for m in &ms { out.text(&format!("pub use crate::dep::{}::*;\n", m.replace("::", "_"))); }
        for m in &ms { emit_mod(m, &mods, &fns, &emit, &cs, &external, &unused, &known, &inlined, &mut out, &mut report); }
        out.text("}\n");
    } else {
    emit_mod("", &mods, &fns, &emit, &cs, &external, &unused, &known, &inlined, &mut out, &mut report);
    out.text("\nfn main() {}\n");
    }
    let missing: Vec<String> = cs.map.keys().filter(|k| !fns.iter().any(|f| &f.path == *k)).cloned().collect();
    std::fs::write(&a[4], &out.buf).unwrap();
    let mut j = String::from("{\n \"functions\": [\n");
    for (n, r) in report.iter().enumerate() {
        j.push_str(&format!("  {}{}\n", r, if n + 1 < report.len() { "," } else { "" }));
    }
    j.push_str(" ],\n \"missing\": [");
    j.push_str(&missing.iter().map(|m| format!("{:?}", m)).collect::<Vec<_>>().join(", "));
    j.push_str("],\n \"without_contract\": [");
    let rest: Vec<String> = fns.iter().filter(|f| !emit.contains_key(&f.path)).map(|f| format!("{:?}", f.path)).collect();
    j.push_str(&if dep::on() { String::new() } else { rest.join(", ") });
    j.push_str("],\n \"differs\": [");
    j.push_str(&same.iter().map(|m| format!("{:?}", m)).collect::<Vec<_>>().join(", "));
    j.push_str("]\n}\n");
    std::fs::write(&a[5], j).unwrap();
}

#[allow(clippy::too_many_arguments)]
fn emit_mod(
    path: &str,
    mods: &BTreeMap<String, Module>,
    fns: &[FnItem],
    emit: &BTreeMap<String, bool>,
    cs: &Contracts,
    external: &BTreeSet<String>,
    unused: &BTreeSet<String>,
    known: &dyn Fn(&str) -> bool,
    inlined: &BTreeMap<String, Vec<String>>,
    out: &mut printer::Out,
    report: &mut Vec<String>,
) {
    let m = &mods[path];
    let has_types = m.types.iter().any(|t| keep_type(path, t, cs));
    let has_fns = fns.iter().any(|f| f.module == path && emit.contains_key(&f.path));
    if dep::on() {
        out.text(&format!("\npub mod {} {{\n#[allow(unused_imports)] use vstd::prelude::*;\n", path.replace("::", "_")));
        for u in ["vspec::*", "shim::*", "asn1_rs::*", "depsup::*", "depsup::{Boolean, TryFrom, TryInto}", "dep::*", "nom", "nom::{Err, Needed, Offset}", "nom::bytes::streaming::take"] {
            out.text(&format!("#[allow(unused_imports)] use crate::{};\n", u));
        }
        if path != "debug" { for n in ["trace", "trace_generic"] { if emit.contains_key(&format!("debug::{}", n)) { out.text(&format!("#[allow(unused_imports)] use crate::dep::debug::{};\n", n)); } } }
    } else if !path.is_empty() {
        let kids_any = m.children.iter().any(|c| mod_used(&format!("{}::{}", path, c), mods, fns, emit, cs));
        if !has_types && !has_fns && !kids_any && !cs.keep_mods.contains(&path.to_string()) {
            return;
        }
        let name = path.rsplit("::").next().unwrap();
        out.text(&format!("\npub mod {} {{\n#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::vspec::*;\n#[allow(unused_imports)] use crate::shim::*;\n", name));
    }
    for u in if dep::on() { &[][..] } else { &m.uses[..] } {
        let root = use_root(&u.tree);
        if u.leading_colon.is_some() || ["std", "core", "rusticata_macros", "debug"].contains(&root.as_str()) {
            continue;
        }
        for t in rewrite::use_texts(u, unused, known, path.is_empty()) {
            out.text(&format!("#[allow(unused_imports)] {}\n", t));
        }
    }
    for c in if dep::on() { &[][..] } else { &m.children[..] } {
        let p = if path.is_empty() { c.clone() } else { format!("{}::{}", path, c) };
        emit_mod(&p, mods, fns, emit, cs, external, unused, known, inlined, out, report);
    }
    if has_types || has_fns {
        out.text("verus! {\n");
        if has_fns { out.text("broadcast use crate::vspec::group_bits;\n"); }
        for t in &m.types {
            if keep_type(path, t, cs) {
                out.text(&rewrite::type_text(t));
                out.text("\n");
            }
        }
        for t in &m.traits {
            let p = format!("{}::{}", path, t.ident);
            if let Some(txt) = cs.traits.get(&p) {
                out.text(&rewrite::trait_text(t, txt));
            }
        }
        for f in fns.iter().filter(|f| f.module == path) {
            if let Some(helper) = emit.get(&f.path) {
                let start = out.line();
                let dflt = Contract::default();
                let c = cs.map.get(&f.path).unwrap_or(&dflt);
                let ext = external.contains(&f.path);
                let info = rewrite::emit_fn(f, c, ext, out);
                let end = out.line();
                report.push(format!(
                    "{{\"fn\": {:?}, \"start\": {}, \"end\": {}, \"helper\": {}, \"external\": {}, \"trusted\": {}, \"inlined\": [{}], \"hash\": \"{:016x}\", \"loops\": {:?}, \"closures\": {}, \"lost\": [{}], \"unannotated\": [{}], \"rules\": [{}]}}",
                    f.path, start, end, helper, ext, c.trusted,
                    inlined.get(&f.path).map(|v| v.iter().map(|s| format!("{:?}", s)).collect::<Vec<_>>().join(", ")).unwrap_or_default(),
                    fnv(&f.block.to_token_stream().to_string()), info.kinds, info.closures,
                    info.lost.iter().map(|s| format!("{:?}", s)).collect::<Vec<_>>().join(", "),
                    info.unannotated.iter().map(|s| format!("{:?}", s)).collect::<Vec<_>>().join(", "),
                    info.rules.iter().map(|s| format!("{:?}", s)).collect::<Vec<_>>().join(", "),
                ));
            }
        }
        out.text("} // verus!\n");
    }
    if !path.is_empty() {
        out.text("}\n");
    }
}

fn mod_used(p: &str, mods: &BTreeMap<String, Module>, fns: &[FnItem], emit: &BTreeMap<String, bool>, cs: &Contracts) -> bool {
    let m = &mods[p];
    m.types.iter().any(|t| keep_type(p, t, cs))
        || fns.iter().any(|f| f.module == p && emit.contains_key(&f.path))
        || cs.keep_mods.contains(&p.to_string())
        || m.children.iter().any(|c| mod_used(&format!("{}::{}", p, c), mods, fns, emit, cs))
}

/// modules (crate::...) that will exist in the output
fn mods_used_filter(mods: &BTreeMap<String, Module>, fns: &[FnItem], emit: &BTreeMap<String, bool>, cs: &Contracts) -> BTreeSet<String> {
    mods.keys().filter(|k| !k.is_empty() && !mod_used(k, mods, fns, emit, cs)).cloned().collect()
}

fn keep_type(path: &str, t: &Item, cs: &Contracts) -> bool {
    let n = match t {
        Item::Struct(s) => s.ident.to_string(),
        Item::Enum(s) => s.ident.to_string(),
        Item::Type(s) => s.ident.to_string(),
        Item::Const(s) => {
            // constants of a primitive type come along (a new one may have been split off a function)
            let ty = s.ty.to_token_stream().to_string();
            if dep::on() { return cs.types.contains(&format!("{}::{}", path, s.ident)); }
            if s.ident != "_" && ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "bool"].contains(&ty.as_str()) { return !path.is_empty(); }
            s.ident.to_string()
        }
        _ => return false,
    };
    cs.types.contains(&format!("{}::{}", path, n))
}
