//! T13: a function that returns a serializer (`impl SerializeFn<W>`) is emitted as the function
//! that runs it: one more parameter (the context) and the result of applying the serializer.
//! The combinators `tuple`, `many_ref`, `gen_simple` are replaced by their definitions
//! (cookie-factory: sequence.rs, multi.rs, internal.rs).
use crate::FnItem;
use quote::{format_ident, ToTokens};
use std::collections::BTreeSet;
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn is_ser(s: &Signature) -> bool {
    s.output.to_token_stream().to_string().contains("SerializeFn")
}
fn callee(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        Expr::Paren(p) => callee(&p.expr),
        _ => None,
    }
}

struct Ser<'a> { names: &'a BTreeSet<String>, used: bool, n: usize }

impl<'a> Ser<'a> {
    fn is_serializer(&self, e: &Expr) -> bool {
        match e {
            Expr::Call(c) => callee(&c.func).map_or(false, |n| self.names.contains(&n) || ["be_u8", "slice", "tuple", "many_ref"].contains(&n.as_str())),
            Expr::Paren(p) => self.is_serializer(&p.expr),
            _ => false,
        }
    }
    /// `e` applied to the context `ctx`; `tail`: e is the value of the function
    fn run(&mut self, e: Expr, ctx: Expr, tail: bool) -> Expr {
        self.used = true;
        match e {
            Expr::Paren(p) => self.run(*p.expr, ctx, tail),
            Expr::Block(mut b) if b.label.is_none() => {
                if let Some(Stmt::Expr(x, None)) = b.block.stmts.pop() {
                    let r = self.run(x, ctx, tail);
                    b.block.stmts.push(Stmt::Expr(r, None));
                }
                Expr::Block(b)
            }
            Expr::If(mut i) if i.else_branch.is_some() => {
                let t = self.run(Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.then_branch }), ctx.clone(), tail);
                i.then_branch = parse_quote!({ #t });
                let (a, x) = i.else_branch.take().unwrap();
                let x = self.run(*x, ctx, tail);
                i.else_branch = Some((a, Box::new(parse_quote!({ #x }))));
                Expr::If(i)
            }
            Expr::Match(mut m) => {
                for a in m.arms.iter_mut() {
                    let x = self.run((*a.body).clone(), ctx.clone(), tail);
                    a.body = Box::new(x);
                }
                Expr::Match(m)
            }
            // the closure is the value of the function: its `return` and `?` are the function's
            Expr::Closure(c) if tail && c.inputs.len() == 1 => {
                let mut p = c.inputs[0].clone();
                if let Pat::Type(t) = &p { p = (*t.pat).clone(); }
                let b = &c.body;
                parse_quote!({ let #p = #ctx; #b })
            }
            Expr::Call(mut c) => {
                let n = callee(&c.func).unwrap_or_default();
                match n.as_str() {
                    "tuple" if c.args.len() == 1 => {
                        if let Expr::Tuple(t) = &c.args[0] {
                            self.n += 1;
                            let o = format_ident!("__o{}", self.n);
                            let mut stmts: Vec<Stmt> = vec![parse_quote!(let #o = #ctx;)];
                            for x in t.elems.iter().cloned() {
                                let r = self.run(x, parse_quote!(#o), false);
                                stmts.push(parse_quote!(let #o = #r?;));
                            }
                            return parse_quote!({ #(#stmts)* Ok(#o) });
                        }
                        Expr::Call(c)
                    }
                    "many_ref" if c.args.len() == 2 => {
                        self.n += 1;
                        let (o, x) = (format_ident!("__o{}", self.n), format_ident!("__x{}", self.n));
                        let items = &c.args[0];
                        let g = &c.args[1];
                        let r = match g {
                            Expr::Path(_) => self.run(parse_quote!(#g(#x)), parse_quote!(#o), false),
                            Expr::Closure(cl) if cl.inputs.len() == 1 => {
                                let p = &cl.inputs[0];
                                let b = self.run((*cl.body).clone(), parse_quote!(#o), false);
                                parse_quote!({ let #p = #x; #b })
                            }
                            _ => return Expr::Call(c),
                        };
                        parse_quote!({ let mut #o = #ctx; for #x in #items { #o = #r?; } Ok(#o) })
                    }
                    _ => { c.args.push(ctx); Expr::Call(c) }
                }
            }
            o => parse_quote!(#o(#ctx)),
        }
    }
}
impl<'a> VisitMut for Ser<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            if c.args.len() == 1 && self.is_serializer(&c.func) {
                let (f, a) = ((*c.func).clone(), c.args[0].clone());
                *e = self.run(f, a, false);
            } else if callee(&c.func).as_deref() == Some("gen_simple") && c.args.len() == 2 {
                let (f, w) = (c.args[0].clone(), c.args[1].clone());
                let r = self.run(f, parse_quote!(cookie_factory::vp_ctx(#w)), false);
                *e = parse_quote!((match #r { Ok(__c) => Ok(__c.write), Err(__e) => Err(__e) }));
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

pub fn apply(fns: &mut [FnItem]) {
    let names: BTreeSet<String> = fns.iter().filter(|f| is_ser(&f.sig)).map(|f| f.name.clone()).collect();
    for f in fns.iter_mut() {
        let mut v = Ser { names: &names, used: false, n: 0 };
        if is_ser(&f.sig) {
            // the type parameter is the argument of SerializeFn
            let w = match f.sig.output.to_token_stream().to_string().split("SerializeFn <").nth(1).and_then(|s| s.split('>').next()) {
                Some(w) => format_ident!("{}", w.trim()),
                None => continue,
            };
            f.sig.output = parse_quote!(-> cookie_factory::GenResult<#w>);
            f.sig.inputs.push(parse_quote!(vp_out: cookie_factory::WriteContext<#w>));
            if let Some(Stmt::Expr(x, None)) = f.block.stmts.pop() {
                let r = v.run(x, parse_quote!(vp_out), true);
                f.block.stmts.push(Stmt::Expr(r, None));
            }
        }
        v.visit_block_mut(&mut f.block);
        if v.used { f.pre_rules.push("T13".into()); }
    }
}
