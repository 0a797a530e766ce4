//! Token printer with line breaks and marker replacement.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use std::collections::BTreeMap;

pub fn print(ts: TokenStream, marks: &BTreeMap<String, String>) -> String {
    let mut p = P { out: String::new(), ind: 0, marks, joint: true };
    p.ts(ts);
    p.out
}
struct P<'a> { out: String, ind: usize, marks: &'a BTreeMap<String, String>, joint: bool }
impl<'a> P<'a> {
    fn nl(&mut self) { self.out.push('\n'); for _ in 0..self.ind { self.out.push_str("  "); } self.joint = true; }
    fn put(&mut self, s: &str) { if !self.joint { self.out.push(' '); } self.out.push_str(s); self.joint = false; }
    fn raw(&mut self, s: &str) { for l in s.lines() { self.nl(); self.out.push_str(l.trim_end()); } self.nl(); }
    fn ts(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            match &v[i] {
                TokenTree::Group(g) => match g.delimiter() {
                    Delimiter::Brace => {
                        let mut inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        while let Some(TokenTree::Ident(id)) = inner.first() {
                            let s = id.to_string();
                            if s.starts_with("__VF") || s.starts_with("__VL") {
                                let t = self.marks[&s].clone();
                                self.raw(&t);
                                inner.drain(0..2);
                            } else { break; }
                        }
                        self.put("{");
                        self.ind += 1;
                        self.nl();
                        self.ts(inner.into_iter().collect());
                        self.ind -= 1;
                        self.nl();
                        self.put("}");
                        if let Some(TokenTree::Punct(p)) = v.get(i + 1) { if p.as_char() == '.' || p.as_char() == '?' || p.as_char() == ';' || p.as_char() == ',' { i += 1; continue; } }
                        if let Some(TokenTree::Ident(p)) = v.get(i + 1) { if *p == "else" || *p == "as" { i += 1; continue; } }
                        self.nl();
                    }
                    Delimiter::Parenthesis => { self.put("("); self.joint = true; self.ts(g.stream()); self.out.push(')'); self.joint = false; }
                    Delimiter::Bracket => { self.put("["); self.joint = true; self.ts(g.stream()); self.out.push(']'); self.joint = false; }
                    Delimiter::None => self.ts(g.stream()),
                },
                TokenTree::Ident(id) => {
                    let s = id.to_string();
                    if s.starts_with("__VG") {
                        let t = self.marks[&s].clone();
                        self.raw(&t);
                        // skip the ';'
                        i += 2;
                        continue;
                    }
                    self.put(&s);
                }
                TokenTree::Literal(l) => self.put(&l.to_string()),
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    let tight = matches!(c, '.' | ',' | ';' | '?');
                    if tight { self.joint = true; }
                    self.put(&c.to_string());
                    self.joint = p.spacing() == Spacing::Joint || c == '\'' || c == '.' || c == '&' && p.spacing() == Spacing::Joint;
                    if c == ';' { self.nl(); }
                }
            }
            i += 1;
        }
    }
}
