//! Statement skeleton of a function: control structure and called names, without local expressions.
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::ToTokens;

pub fn skel(b: &syn::Block) -> String {
    let mut v = vec![];
    walk(b.to_token_stream(), &mut v);
    // collapse operand/operator chains
    let mut out: Vec<String> = vec![];
    for t in v {
        let last = out.last().map(|s| s.as_str()).unwrap_or("");
        if t == "o" && (last == "_" || last == "o" || last == "o?") { *out.last_mut().unwrap() = "o?".into(); continue; }
        if t == "o" { out.push("o?".into()); continue; }
        if t == "_" && (last == "_" ) { continue; }
        if t == "_" && last == "o?" { *out.last_mut().unwrap() = "_".into(); continue; }
        out.push(t);
    }
    out.join(" ")
}
const KW: &[&str] = &["let", "mut", "if", "else", "for", "in", "while", "loop", "match", "return", "break", "continue", "unsafe", "ref", "move"];
fn walk(ts: TokenStream, out: &mut Vec<String>) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() { Delimiter::Brace => ("{", "}"), Delimiter::Bracket => ("[", "]"), _ => ("", "") };
                if !a.is_empty() { out.push(a.into()); }
                walk(g.stream(), out);
                if !b.is_empty() { out.push(b.into()); }
            }
            TokenTree::Ident(id) => {
                let s = id.to_string();
                let called = matches!(v.get(i + 1), Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis);
                if KW.contains(&s.as_str()) || called { out.push(s); } else { out.push("_".into()); }
            }
            TokenTree::Literal(_) => out.push("_".into()),
            TokenTree::Punct(p) => match p.as_char() {
                ';' | ',' | '?' => out.push(p.as_char().to_string()),
                '.' | ':' | '\'' => {}
                '=' => {
                    let prev = i > 0 && matches!(&v[i - 1], TokenTree::Punct(q) if q.spacing() == proc_macro2::Spacing::Joint);
                    let next = matches!(v.get(i + 1), Some(TokenTree::Punct(q)) if p.spacing() == proc_macro2::Spacing::Joint && matches!(q.as_char(), '=' | '>'));
                    if prev || next { out.push("o".into()); } else { out.push("=".into()); }
                }
                _ => out.push("o".into()),
            },
        }
        i += 1;
    }
}
