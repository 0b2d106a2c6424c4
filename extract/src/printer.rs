//! Output buffer and a simple token printer (newline after `;`, `{`, `}`).
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct Out { pub buf: String }
impl Out {
    pub fn new() -> Self { Out { buf: String::new() } }
    pub fn text(&mut self, s: &str) { self.buf.push_str(s); }
    pub fn line(&self) -> usize { self.buf.matches('\n').count() + 1 }
}

pub fn toks(ts: TokenStream) -> String {
    let mut s = String::new();
    go(ts, &mut s);
    s
}
fn go(ts: TokenStream, s: &mut String) {
    let mut glue = false;
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{\n", "}\n"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                s.push_str(o);
                go(g.stream(), s);
                s.push_str(c);
                glue = false;
            }
            TokenTree::Punct(p) => {
                let ch = p.as_char();
                s.push(ch);
                if p.spacing() == Spacing::Joint || ch == '\'' { glue = true; } else {
                    glue = false;
                    if ch == ';' { s.push('\n'); } else { s.push(' '); }
                }
            }
            TokenTree::Ident(i) => { s.push_str(&i.to_string()); s.push(' '); glue = false; }
            TokenTree::Literal(l) => { s.push_str(&l.to_string()); s.push(' '); glue = false; }
        }
    }
    let _ = glue;
}
