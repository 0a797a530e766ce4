//! Out-of-place contract files.
//!   fn KEY                      starts the contract of one function
//!   @ret NAME                   names the result
//!   @attr TEXT                  attribute put before the function
//!   @external                   function body not verified (its contract is an assumption)
//!   @skip                       function left out
//!   @spec                       requires / ensures / decreases text
//!   @loop K                     invariant / decreases text of the K-th loop (pre-order)
//!   @closure K HEADER           header of the K-th closure (pre-order); the body is the source's
//!   @ghost POS                  ghost code; POS: start | end | loop K start | loop K end | before loop K | after loop K
//!                               | before `text` [#n] | after `text` [#n]
//! A line whose first word is "F:" ("S:") is kept in mode F (S) only; "F{" ... "F}" brackets several lines.
//!   @item                       (KEY = MODULE::trait NAME or MODULE::TRAIT[TYPE]) ghost items put into the trait / the impl;
//!                               KEY = MODULE::trait NAME::METHOD with @spec: contract on the trait's method declaration
//!   skipmod NAME                module left out of the extraction
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Default, Debug)]
pub struct FnSpec {
    pub ret: Option<String>,
    pub attrs: Vec<String>,
    pub external: bool,
    pub skip: bool,
    pub bindtail: Option<String>,
    pub spec: String,
    pub item: String,
    pub loops: BTreeMap<usize, String>,
    pub closures: BTreeMap<usize, String>,
    pub ghosts: Vec<(String, String)>,
    pub used: bool,
}
#[derive(Default)]
pub struct Contracts { pub fns: BTreeMap<String, FnSpec>, pub verbatim: Vec<(String, String)>, pub skipmods: Vec<String> }

/// keep the lines of the given mode
pub fn filter(text: &str, mode: char) -> String {
    let mut out = String::new();
    let mut skip: Option<char> = None;
    for l in text.lines() {
        let t = l.trim();
        if let Some(c) = skip { if t == format!("{c}}}") { skip = None; } continue; }
        if t == "F{" || t == "S{" { let c = t.chars().next().unwrap(); if c != mode { skip = Some(c); } continue; }
        if t == "F}" || t == "S}" { continue; }
        if let Some(r) = t.strip_prefix("F:") { if mode == 'F' { out.push_str(r); out.push('\n'); } continue; }
        if let Some(r) = t.strip_prefix("S:") { if mode == 'S' { out.push_str(r); out.push('\n'); } continue; }
        out.push_str(l); out.push('\n');
    }
    out
}

pub fn load(dir: &Path, mode: char) -> Contracts {
    let mut c = Contracts::default();
    let mut files: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map(|e| e == "vc" || e == "rs").unwrap_or(false)).collect();
    files.sort();
    for f in files {
        let text = filter(&std::fs::read_to_string(&f).unwrap(), mode);
        if f.extension().unwrap() == "rs" {
            c.verbatim.push((f.file_stem().unwrap().to_string_lossy().to_string(), text));
            continue;
        }
        let mut key = String::new();
        let mut sect: Option<String> = None;
        let mut buf = String::new();
        fn flush(c: &mut Contracts, key: &str, sect: &mut Option<String>, buf: &mut String) {
            if let Some(s) = sect.take() {
                let e = c.fns.entry(key.to_string()).or_default();
                let b = std::mem::take(buf);
                if s == "spec" { e.spec.push_str(&b); }
                else if s == "item" { e.item.push_str(&b); }
                else if let Some(k) = s.strip_prefix("loop ") { e.loops.entry(k.trim().parse().unwrap()).or_default().push_str(&b); }
                else if let Some(k) = s.strip_prefix("closure ") {
                    let (k, h) = k.split_once(' ').unwrap();
                    e.closures.insert(k.parse().unwrap(), format!("{h}\n{b}"));
                }
                else if let Some(k) = s.strip_prefix("ghost ") { e.ghosts.push((k.trim().to_string(), b)); }
                else { panic!("{key}: bad section {s}"); }
            }
            buf.clear();
        }
        for l in text.lines() {
            if l.starts_with("//") { continue; }
            if let Some(k) = l.strip_prefix("skipmod ") { c.skipmods.push(k.trim().to_string()); }
            else if let Some(k) = l.strip_prefix("fn ") {
                flush(&mut c, &key, &mut sect, &mut buf);
                key = k.trim().to_string();
                c.fns.entry(key.clone()).or_default();
            } else if let Some(d) = l.trim_start().strip_prefix('@') {
                flush(&mut c, &key, &mut sect, &mut buf);
                let e = c.fns.entry(key.clone()).or_default();
                let d = d.trim();
                if let Some(r) = d.strip_prefix("ret ") { e.ret = Some(r.trim().to_string()); }
                else if let Some(r) = d.strip_prefix("attr ") { e.attrs.push(r.to_string()); }
                else if d == "external" { e.external = true; }
                else if d == "skip" { e.skip = true; }
                else if let Some(r) = d.strip_prefix("bindtail ") { e.bindtail = Some(r.trim().to_string()); }
                else { sect = Some(d.to_string()); }
            } else { buf.push_str(l); buf.push('\n'); }
        }
        flush(&mut c, &key, &mut sect, &mut buf);
    }
    c
}
