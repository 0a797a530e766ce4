//! Mechanical extraction of linfa-linalg's source into a Verus crate.
//! usage: extract <repo src dir> <contracts dir> <mode F|S> <out.rs> <out.json> [probe] [extern=KEY]...
mod contracts;
mod print;
mod skel;
mod xform;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

pub struct Module { pub path: Vec<String>, pub file: syn::File, pub src: PathBuf }

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| { let s = quote::ToTokens::to_token_stream(a).to_string(); s.contains("cfg") && s.contains("test") })
}
fn load(dir: &Path, file: &Path, path: Vec<String>, out: &mut Vec<Module>) {
    let text = std::fs::read_to_string(file).unwrap_or_else(|e| { eprintln!("extract: {}: {e}", file.display()); std::process::exit(4) });
    let f = syn::parse_file(&text).unwrap_or_else(|e| { eprintln!("extract: {}: {e}", file.display()); std::process::exit(4) });
    for it in &f.items {
        if let syn::Item::Mod(m) = it {
            if is_test(&m.attrs) || m.content.is_some() { continue; }
            let n = m.ident.to_string();
            let mut d = dir.to_path_buf();
            for p in &path { d = d.join(p); }
            let a = d.join(format!("{n}.rs"));
            let b = d.join(&n).join("mod.rs");
            let mut np = path.clone();
            np.push(n);
            load(dir, if a.exists() { &a } else { &b }, np, out);
        }
    }
    out.push(Module { path, file: f, src: file.to_path_buf() });
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let dir = PathBuf::from(&a[1]);
    let mode = a[3].chars().next().unwrap();
    let mut mods = vec![];
    load(&dir, &dir.join("lib.rs"), vec![], &mut mods);
    let mut cs = contracts::load(Path::new(&a[2]), mode);
    let skip = cs.skipmods.clone();
    let mut skipped = vec![];
    mods.retain(|m| { let n = m.path.join("::"); let k = skip.iter().any(|s| n == *s || n.starts_with(&format!("{s}::"))); if k { skipped.push(n); } !k });
    let mut x = xform::X::new(&mods, &mut cs);
    for o in &a[6..] { if o == "probe" { x.probe = true; } else if let Some(k) = o.strip_prefix("extern=") { x.externs.insert(k.to_string()); } }
    // nested module output
    let mut texts: BTreeMap<Vec<String>, String> = BTreeMap::new();
    x.skip_modules(&skipped);
    for m in &mods { texts.insert(m.path.clone(), x.module(m)); }
    let mut out = String::new();
    fn emit(path: &[String], texts: &BTreeMap<Vec<String>, String>, out: &mut String) {
        if let Some(t) = texts.get(path) {
            out.push_str(if path.is_empty() { "verus! {\nbroadcast use crate::ndarray::nd;\n" } else { "use vstd::prelude::*;\nverus! {\nbroadcast use crate::ndarray::nd;\n" });
            out.push_str(t);
            out.push_str("\n} // verus!\n");
        }
        for k in texts.keys().filter(|k| k.len() == path.len() + 1 && k.starts_with(path)) {
            out.push_str(&format!("pub mod {} {{\n#[allow(unused_imports)] use crate::lemmas::*;\n#[allow(unused_imports)] use crate::pre::*;\n#[allow(unused_imports)] use crate::std_shim::VecExt as _;\n#[allow(unused_imports)] use crate::std_shim::SliceExt as _;\n#[allow(unused_imports)] use crate::ndarray::Dot as _;\n", k.last().unwrap()));
            emit(k, texts, out);
            out.push_str("}\n");
        }
    }
    emit(&[], &texts, &mut out);
    let mut head = String::from("#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_unsafe, unused_parens, unused_braces, non_snake_case, unused_assignments, unused_must_use)]\nuse vstd::prelude::*;\nuse crate::lemmas::*;\nuse crate::pre::*;\n");
    for (name, text) in &x.cs.verbatim {
        head.push_str(&format!("pub mod {name} {{\n{text}\n}}\n"));
    }
    out = format!("{head}{out}\nfn main() {{}}\n");
    std::fs::write(&a[4], out).unwrap();
    let mut js = String::from("{\n\"functions\": {\n");
    let esc = |s: &str| s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " ");
    let n = x.funs.len();
    for (i, (k, f)) in x.funs.iter().enumerate() {
        js.push_str(&format!("\"{}\": {{\"file\": \"{}\", \"line\": {}, \"contract\": {}, \"skeleton\": \"{}\", \"external\": {}}}{}\n", esc(k), esc(&f.file), f.line, f.contract, esc(&f.skel), f.external, if i + 1 < n { "," } else { "" }));
    }
    let lost: Vec<String> = x.lost.iter().map(|l| format!("\"{}\"", esc(l))).collect();
    let unused: Vec<String> = x.cs.fns.iter().filter(|(_, s)| !s.used).map(|(k, _)| format!("\"{}\"", esc(k))).collect();
    let drop: Vec<String> = x.dropped.iter().map(|l| format!("\"{}\"", esc(l))).collect();
    js.push_str(&format!("}},\n\"lost\": [{}],\n\"unused\": [{}],\n\"dropped\": [{}]\n}}\n", lost.join(", "), unused.join(", "), drop.join(", ")));
    std::fs::write(&a[5], js).unwrap();
}
