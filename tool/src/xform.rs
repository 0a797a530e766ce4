use crate::contracts::{Contracts, FnSpec};
use crate::{print, skel, Module};
use proc_macro2::{Ident, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct FunInfo { pub file: String, pub line: usize, pub contract: bool, pub external: bool, pub skel: String }
pub struct X<'a> {
    pub cs: &'a mut Contracts,
    traits: BTreeMap<String, ItemTrait>,
    pub funs: BTreeMap<String, FunInfo>,
    pub lost: Vec<String>,
    pub dropped: Vec<String>,
    skipped: BTreeSet<String>,
    marks: BTreeMap<String, String>,
    ctr: usize,
    module: String,
    file: String,
    generic_fns: BTreeMap<String, ItemFn>,
    spec_ctr: BTreeMap<String, usize>,
    extra: Vec<ItemFn>,
    pub probe: bool,
    pub externs: BTreeSet<String>,
}
fn id(s: &str) -> Ident { Ident::new(s, Span::call_site()) }
pub fn norm(ts: TokenStream) -> String { ts.to_string().chars().filter(|c| !c.is_whitespace()).collect() }
const INHERENT: &[&str] = &["UncheckedIndex", "UncheckedIndexMut"];
const DROP_USE: &[&str] = &["s", "array", "concatenate", "Error"];
const ELEM_BOUNDS: &[&str] = &["NdFloat", "Float", "Zero"];

/// element-type parameters of a generics list: bounded by a float trait or equated with an array's Elem
fn elem_params(g: &Generics, rest: &TokenStream) -> BTreeSet<String> {
    let mut params: BTreeSet<String> = BTreeSet::new();
    for p in &g.params { if let GenericParam::Type(t) = p { params.insert(t.ident.to_string()); } }
    let mut out = BTreeSet::new();
    for p in &g.params {
        if let GenericParam::Type(t) = p {
            let b = t.bounds.to_token_stream().to_string();
            if ELEM_BOUNDS.iter().any(|e| b.split(|c: char| !c.is_alphanumeric()).any(|w| w == *e)) { out.insert(t.ident.to_string()); }
        }
    }
    if let Some(w) = &g.where_clause {
        for p in &w.predicates {
            if let WherePredicate::Type(t) = p {
                let n = norm(t.bounded_ty.to_token_stream());
                let b = t.bounds.to_token_stream().to_string();
                if params.contains(&n) && ELEM_BOUNDS.iter().any(|e| b.split(|c: char| !c.is_alphanumeric()).any(|w| w == *e)) { out.insert(n); }
            }
        }
    }
    let all = format!("{}{}", norm(g.to_token_stream()), norm(g.where_clause.to_token_stream())) + &norm(rest.clone());
    for p in &params { if all.contains(&format!("Elem={p}>")) || all.contains(&format!("Elem={p},")) { out.insert(p.clone()); } }
    out
}
fn strip_generics(g: &mut Generics, elems: &BTreeSet<String>) {
    let ps: Vec<GenericParam> = g.params.iter().filter(|p| !matches!(p, GenericParam::Type(t) if elems.contains(&t.ident.to_string()))).cloned().collect();
    g.params = ps.into_iter().collect();
    if g.params.is_empty() { g.lt_token = None; g.gt_token = None; }
    if let Some(w) = &mut g.where_clause {
        let v: Vec<WherePredicate> = w.predicates.iter().filter(|p| !matches!(p, WherePredicate::Type(t) if elems.contains(&norm(t.bounded_ty.to_token_stream())) || norm(t.bounded_ty.to_token_stream()) == "Self")).cloned().collect();
        w.predicates = v.into_iter().collect();
        if w.predicates.is_empty() { g.where_clause = None; }
    }
}
struct Subst<'b>(&'b BTreeSet<String>);
impl<'b> VisitMut for Subst<'b> {
    fn visit_ident_mut(&mut self, i: &mut Ident) { if self.0.contains(&i.to_string()) { *i = id("Fl"); } }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        visit_mut::visit_macro_mut(self, m);
        m.tokens = subst_tokens(m.tokens.clone(), &|i| if self.0.contains(&i.to_string()) { Some(quote!(Fl)) } else { None });
    }
}
fn subst_tokens(ts: TokenStream, f: &dyn Fn(&Ident) -> Option<TokenStream>) -> TokenStream {
    ts.into_iter().map(|t| match t {
        TokenTree::Ident(i) => f(&i).unwrap_or_else(|| TokenTree::Ident(i).into()),
        TokenTree::Group(g) => TokenTree::Group(proc_macro2::Group::new(g.delimiter(), subst_tokens(g.stream(), f))).into(),
        t => t.into(),
    }).collect()
}
struct SubstTy { name: String, ty: Type }
impl VisitMut for SubstTy {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if norm(t.to_token_stream()) == self.name { *t = self.ty.clone(); return; }
        visit_mut::visit_type_mut(self, t);
    }
}
/// replaces identifiers in expressions by expressions
struct SubstExpr(BTreeMap<String, Expr>);
impl VisitMut for SubstExpr {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e { if let Some(i) = p.path.get_ident() { if let Some(x) = self.0.get(&i.to_string()) { *e = x.clone(); return; } } }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = subst_tokens(m.tokens.clone(), &|i| self.0.get(&i.to_string()).map(|e| e.to_token_stream()));
    }
}
struct RenameSelf;
impl VisitMut for RenameSelf {
    fn visit_ident_mut(&mut self, i: &mut Ident) { if *i == "self" { *i = id("self_"); } }
    fn visit_macro_mut(&mut self, m: &mut Macro) { m.tokens = subst_tokens(m.tokens.clone(), &|i| if *i == "self" { Some(quote!(self_)) } else { None }); }
}
struct StripAttrs;
impl VisitMut for StripAttrs {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear(); }
    fn visit_visibility_mut(&mut self, v: &mut Visibility) { if !matches!(v, Visibility::Inherited) { *v = parse_quote!(pub); } }
}
fn self_name(t: &Type) -> String {
    match t { Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), Type::Tuple(t) => format!("tuple{}", t.elems.len()), Type::Reference(r) => self_name(&r.elem), _ => "other".into() }
}
fn lit_frac(e: &Expr) -> Option<(i128, i128)> {
    match e {
        Expr::Unary(u) if matches!(u.op, UnOp::Neg(_)) => lit_frac(&u.expr).map(|(n, d)| (-n, d)),
        Expr::Paren(p) => lit_frac(&p.expr),
        Expr::Lit(l) => {
            let s = match &l.lit { Lit::Float(f) => f.base10_digits().to_string(), Lit::Int(i) => i.base10_digits().to_string(), _ => return None };
            let (m, ex) = match s.split_once(['e', 'E']) { Some((m, e)) => (m.to_string(), e.parse::<i32>().ok()?), None => (s, 0) };
            let (a, b) = match m.split_once('.') { Some((a, b)) => (a.to_string(), b.to_string()), None => (m, String::new()) };
            let b = b.trim_end_matches('0').to_string();
            let mut n: i128 = format!("{a}{b}").parse().ok()?;
            let mut d: i128 = 1;
            let k = ex - b.len() as i32;
            if k >= 0 { for _ in 0..k { n *= 10; } } else { for _ in 0..-k { d *= 10; } }
            Some((n, d))
        }
        _ => None,
    }
}

impl<'a> X<'a> {
    pub fn new(mods: &[Module], cs: &'a mut Contracts) -> Self {
        let mut traits = BTreeMap::new();
        for m in mods { for it in &m.file.items { if let Item::Trait(t) = it { traits.insert(t.ident.to_string(), t.clone()); } } }
        X { cs, traits, funs: BTreeMap::new(), lost: vec![], dropped: vec![], skipped: BTreeSet::new(), marks: BTreeMap::new(), ctr: 0, module: String::new(), file: String::new(), generic_fns: BTreeMap::new(), spec_ctr: BTreeMap::new(), extra: vec![], probe: false, externs: BTreeSet::new() }
    }
    pub fn skip_modules(&mut self, names: &[String]) {
        for n in names { self.dropped.push(format!("module {n}")); self.skipped.insert(n.split("::").next().unwrap().to_string()); }
    }
    fn mark(&mut self, kind: &str, text: String) -> Stmt {
        self.ctr += 1;
        let n = format!("__{kind}{}__", self.ctr);
        let i = id(&n);
        self.marks.insert(n, text);
        parse_quote!(#i;)
    }
    pub fn module(&mut self, m: &Module) -> String {
        self.module = if m.path.is_empty() { "root".into() } else { m.path.join("::") };
        self.file = m.src.display().to_string();
        self.generic_fns.clear();
        self.spec_ctr.clear();
        for it in &m.file.items { if let Item::Fn(f) = it { if is_structural_generic(f) { self.generic_fns.insert(f.sig.ident.to_string(), f.clone()); } } }
        let mut out = TokenStream::new();
        for it in &m.file.items {
            match it {
                Item::Use(u) => out.extend(self.use_item(u)),
                Item::Mod(_) => {}
                Item::Fn(f) => {
                    if self.generic_fns.contains_key(&f.sig.ident.to_string()) { continue; }
                    out.extend(self.free_fn(f.clone()));
                }
                Item::Struct(s) => out.extend(self.strukt(s)),
                Item::Enum(e) => out.extend(self.enumm(e)),
                Item::Type(t) => { let mut t = t.clone(); t.attrs.clear(); t.vis = parse_quote!(pub); out.extend(t.to_token_stream()); }
                Item::Trait(t) => out.extend(self.trait_decl(t)),
                Item::Impl(i) => out.extend(self.imp(i.clone())),
                o => { self.dropped.push(format!("{}: item {}", self.module, norm(o.to_token_stream()).chars().take(60).collect::<String>())); }
            }
            while let Some(f) = self.extra.pop() { out.extend(self.free_fn(f)); }
        }
        print::print(out, &self.marks)
    }
    fn use_item(&mut self, u: &ItemUse) -> TokenStream {
        fn prune(t: &UseTree) -> Option<UseTree> {
            match t {
                UseTree::Name(n) if DROP_USE.contains(&n.ident.to_string().as_str()) => None,
                UseTree::Group(g) => { let items: Vec<UseTree> = g.items.iter().filter_map(prune).collect(); if items.is_empty() { None } else { let mut g = g.clone(); g.items = items.into_iter().collect(); Some(UseTree::Group(g)) } }
                UseTree::Path(p) => prune(&p.tree).map(|t| { let mut p = p.clone(); p.tree = Box::new(t); UseTree::Path(p) }),
                t => Some(t.clone()),
            }
        }
        let root = match &u.tree { UseTree::Path(p) => p.ident.to_string(), _ => String::new() };
        if root == "thiserror" || self.skipped.contains(&root) { return quote!(); }
        if root == "crate" { if let UseTree::Path(p) = &u.tree { if let UseTree::Path(q) = &*p.tree { if self.skipped.contains(&q.ident.to_string()) { return quote!(); } } } }
        let Some(t) = prune(&u.tree) else { return quote!() };
        match root.as_str() {
            "ndarray" | "num_traits" | "rand" | "rand_xoshiro" => quote!(pub use crate::#t;),
            "std" | "core" => { let UseTree::Path(p) = &t else { return quote!() }; let q = &p.tree; quote!(pub use crate::std_shim::#q;) }
            _ => quote!(pub use #t;),
        }
    }
    fn strukt(&mut self, s: &ItemStruct) -> TokenStream {
        let derives = derives(&s.attrs);
        let mut s = s.clone();
        StripAttrs.visit_item_struct_mut(&mut s);
        s.vis = parse_quote!(pub);
        for f in s.fields.iter_mut() { f.vis = parse_quote!(pub); }
        let mut out = TokenStream::new();
        let rr: Vec<Ident> = s.generics.params.iter().filter_map(|p| if let GenericParam::Type(t) = p { Some(t.ident.clone()) } else { None }).collect();
        for r in &rr { out.extend(quote!(#[verifier::reject_recursive_types(#r)])); }
        out.extend(s.to_token_stream());
        if derives.contains("Clone") && rr.len() == 1 && s.generics.params.len() == 1 {
            let n = &s.ident;
            let fs: Vec<Ident> = s.fields.iter().filter_map(|f| f.ident.clone()).collect();
            let mk = self.mark("VF", "  ensures r == *self,".into());
            out.extend(quote!(impl Clone for #n<Fl> { fn clone(&self) -> (r: Self) { #mk Self { #(#fs: self.#fs.clone()),* } } }));
        }
        out
    }
    fn enumm(&mut self, e: &ItemEnum) -> TokenStream {
        let d = derives(&e.attrs);
        let mut e = e.clone();
        StripAttrs.visit_item_enum_mut(&mut e);
        e.vis = parse_quote!(pub);
        let fieldless = e.variants.iter().all(|v| v.fields.is_empty());
        if fieldless && d.contains("PartialEq") { quote!(#[derive(Clone, Copy, PartialEq, Eq, Structural)] #e) } else if d.contains("Debug") { quote!(#[derive(Debug)] #e) } else { quote!(#e) }
    }
    fn trait_decl(&mut self, t: &ItemTrait) -> TokenStream {
        let mut t = t.clone();
        StripAttrs.visit_item_trait_mut(&mut t);
        t.vis = parse_quote!(pub);
        if INHERENT.contains(&t.ident.to_string().as_str()) { t.items.clear(); }
        // the element type of a trait is never generic in this crate, and Verus wants sized results
        for it in t.items.iter_mut() { if let TraitItem::Fn(f) = it {
            if f.default.take().is_some() { f.semi_token = Some(Default::default()); }
            unmut_params(&mut f.sig, None);
        } }
        // contracts on the declarations and ghost items
        let tk = format!("{}::trait {}", self.module, t.ident);
        let mut items = TokenStream::new();
        items.extend(self.ghost_items(&tk));
        for it in &t.items {
            if let TraitItem::Fn(f) = it {
                let k = format!("{tk}::{}", f.sig.ident);
                if let Some(s) = self.cs.fns.get_mut(&k) { s.used = true; let text = format!("{};", s.spec); let sig = &f.sig; let m = self.mark("VG", text); items.extend(quote!(#sig #m)); continue; }
            }
            items.extend(it.to_token_stream());
        }
        let (ig, _, w) = t.generics.split_for_impl();
        let (vis, n, sup) = (&t.vis, &t.ident, &t.supertraits);
        let colon = &t.colon_token;
        quote!(#vis trait #n #ig #colon #sup #w { #items })
    }
    fn ghost_items(&mut self, k: &str) -> TokenStream {
        if let Some(s) = self.cs.fns.get_mut(k) { s.used = true; let text = s.item.clone(); let m = self.mark("VG", text); m.to_token_stream() } else { TokenStream::new() }
    }
    fn imp(&mut self, mut i: ItemImpl) -> TokenStream {
        i.attrs.clear();
        let tname = i.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
        // methods the trait supplies
        if let Some((_, p, _)) = &i.trait_ {
            if let Some(t) = self.traits.get(p.segments.last().unwrap().ident.to_string().as_str()).cloned() {
                let have: BTreeSet<String> = i.items.iter().filter_map(|x| if let ImplItem::Fn(f) = x { Some(f.sig.ident.to_string()) } else { None }).collect();
                let targs: Vec<Type> = match &p.segments.last().unwrap().arguments { PathArguments::AngleBracketed(a) => a.args.iter().filter_map(|a| if let GenericArgument::Type(t) = a { Some(t.clone()) } else { None }).collect(), _ => vec![] };
                let tpar: Vec<String> = t.generics.params.iter().filter_map(|p| if let GenericParam::Type(t) = p { Some(t.ident.to_string()) } else { None }).collect();
                for it in &t.items { if let TraitItem::Fn(f) = it { if let Some(b) = &f.default { if !have.contains(&f.sig.ident.to_string()) {
                    let mut nf: ImplItemFn = { let sig = &f.sig; parse_quote!(#sig #b) };
                    for (n, ty) in tpar.iter().zip(&targs) { SubstTy { name: n.clone(), ty: ty.clone() }.visit_impl_item_fn_mut(&mut nf); }
                    if let Some(w) = &mut nf.sig.generics.where_clause { let _ = w; nf.sig.generics.where_clause = None; }
                    i.items.push(ImplItem::Fn(nf));
                } } } }
            }
        }
        let mut all = i.self_ty.to_token_stream();
        if let Some((_, p, _)) = &i.trait_ { all.extend(p.to_token_stream()); }
        let elems = elem_params(&i.generics, &all);
        Subst(&elems).visit_item_impl_mut(&mut i);
        let felems: BTreeSet<String> = std::iter::once("Fl".to_string()).collect();
        strip_generics(&mut i.generics, &felems);
        let sname = self_name(&i.self_ty);
        if let Some(t) = &tname { if INHERENT.contains(&t.as_str()) { return self.inherent_index(i, t.clone()); } }
        let mut items = vec![];
        if let Some(t) = &tname { let k = format!("{}::{}[{}]", self.module, t, sname); items.push(self.ghost_items(&k)); }
        for it in std::mem::take(&mut i.items) {
            match it {
                ImplItem::Fn(mut f) => {
                    let line = f.sig.ident.span().start().line;
                    let key = match &tname { Some(t) => format!("{}::{}[{}]::{}", self.module, t, sname, f.sig.ident), None => format!("{}::{}::{}", self.module, sname, f.sig.ident) };
                    if self.cs.fns.get(&key).map(|s| s.skip).unwrap_or(false) { self.cs.fns.get_mut(&key).unwrap().used = true; self.dropped.push(key); continue; }
                    if tname.is_none() { f.vis = parse_quote!(pub); } else { f.vis = Visibility::Inherited; }
                    let (sig, block, attrs) = (f.sig.clone(), f.block.clone(), f.attrs.clone());
                    let _ = attrs;
                    let (pre, sig, block) = self.function(&key, line, sig, block);
                    let vis = &f.vis;
                    items.push(quote!(#pre #vis #sig #block));
                }
                ImplItem::Type(t) => items.push(t.to_token_stream()),
                o => items.push(o.to_token_stream()),
            }
        }
        let g = &i.generics;
        let (ig, _, w) = g.split_for_impl();
        let st = &i.self_ty;
        let tr = i.trait_.as_ref().map(|(b, p, f)| quote!(#b #p #f));
        quote!(impl #ig #tr #st #w { #(#items)* })
    }
    /// index.rs: the checked and the unchecked access, both verified against the same contract
    fn inherent_index(&mut self, i: ItemImpl, _t: String) -> TokenStream {
        let mut out = TokenStream::new();
        let idx: Ident = id("I");
        for it in i.items {
            if let ImplItem::Fn(f) = it {
                let name = f.sig.ident.to_string();
                let key = format!("{}::{}", self.module, name);
                let line = f.sig.ident.span().start().line;
                let mut dbg: Vec<Stmt> = vec![];
                let mut rel: Vec<Stmt> = vec![];
                for s in &f.block.stmts {
                    let a = match s { Stmt::Expr(e, _) => expr_attrs(e), Stmt::Local(l) => l.attrs.clone(), _ => vec![] };
                    let t: String = a.iter().map(|x| norm(x.to_token_stream())).collect();
                    let mut s2 = s.clone();
                    StripAttrs.visit_stmt_mut(&mut s2);
                    if t.contains("not(debug_assertions)") { rel.push(s2); } else if t.contains("debug_assertions") { dbg.push(s2); } else { rel.push(s2.clone()); dbg.push(s2); }
                }
                let mut sig = f.sig.clone();
                sig.generics.params.push(parse_quote!(I: NdIndex<D>));
                if name == "atm" { sig.generics.make_where_clause().predicates.push(parse_quote!(S: DataMut)); }
                let fix = |s: &mut Signature| { let r: ReturnType = if name == "atm" { parse_quote!(-> &mut Fl) } else { parse_quote!(-> &Fl) }; s.output = r; };
                fix(&mut sig);
                let _ = &idx;
                let block: Block = parse_quote!({ if crate::pre::debug_build() { #(#dbg)* } else { #(#rel)* } });
                let (pre, sig, block) = self.function(&key, line, sig, block);
                out.extend(quote!(impl<S: Data<Elem = Fl>, D: Dimension> ArrayBase<S, D> { #pre pub #sig #block }));
            }
        }
        out
    }
    fn free_fn(&mut self, mut f: ItemFn) -> TokenStream {
        let key = format!("{}::{}", self.module, f.sig.ident);
        let line = f.sig.ident.span().start().line;
        if self.cs.fns.get(&key).map(|s| s.skip).unwrap_or(false) { self.cs.fns.get_mut(&key).unwrap().used = true; self.dropped.push(key); return quote!(); }
        f.attrs.clear();
        let (sig, block) = (f.sig.clone(), (*f.block).clone());
        let (pre, sig, block) = self.function(&key, line, sig, block);
        quote!(#pre pub #sig #block)
    }
    fn function(&mut self, key: &str, line: usize, mut sig: Signature, mut block: Block) -> (TokenStream, Signature, Block) {
        let sk = skel::skel(&block);
        let has = self.cs.fns.contains_key(key);
        let ext = self.externs.contains(key);
        let mut spec: FnSpec = if let Some(s) = self.cs.fns.get_mut(key) { s.used = true; FnSpec { ret: s.ret.clone(), attrs: s.attrs.clone(), external: s.external, skip: false, bindtail: s.bindtail.clone(), spec: s.spec.clone(), item: String::new(), loops: s.loops.clone(), closures: s.closures.clone(), ghosts: s.ghosts.clone(), used: true } } else { FnSpec::default() };
        spec.external |= ext;
        self.funs.insert(key.to_string(), FunInfo { file: self.file.clone(), line, contract: has, external: spec.external, skel: sk });
        // element type of the function's own generics
        let elems = elem_params(&sig.generics, &sig.inputs.to_token_stream());
        Subst(&elems).visit_signature_mut(&mut sig);
        Subst(&elems).visit_block_mut(&mut block);
        strip_generics(&mut sig.generics, &std::iter::once("Fl".to_string()).collect());
        for inp in sig.inputs.iter_mut() { if let FnArg::Typed(t) = inp { t.attrs.clear(); } }
        let mut lets: Vec<Stmt> = vec![];
        if unmut_params(&mut sig, Some(&mut lets)) { RenameSelf.visit_block_mut(&mut block); lets.insert(0, parse_quote!(let mut self_ = self;)); }
        if let Some(r) = &spec.ret {
            let rn = id(r);
            let t: Type = match &sig.output { ReturnType::Type(_, t) => (**t).clone(), ReturnType::Default => parse_quote!(()) };
            let v = quote!((#rn : #t));
            sig.output = ReturnType::Type(Default::default(), Box::new(Type::Verbatim(v)));
        }
        if spec.external { block = parse_quote!({ unimplemented!() }); lets.clear(); }
        let probe = self.probe && has && !spec.external;
        let mut b = Body { x: self, key: key.to_string(), nloop: 0, nclos: 0, placed: vec![false; spec.ghosts.len()], occ: BTreeMap::new(), spec: &spec };
        if !spec.external { b.visit_block_mut(&mut block); }
        let mut stmts = lets;
        stmts.extend(b.ghost("start"));
        let (nl, nc) = (b.nloop, b.nclos);
        let mut endg = b.ghost("end");
        if probe { let m = b.x.mark("VG", "proof { assert(false); }".into()); endg.push(m); }
        let placed = b.placed.clone();
        let mut body = std::mem::take(&mut block.stmts);
        if let Some(t) = &spec.bindtail {
            if let Some(Stmt::Expr(e, None)) = body.pop() { let tn = id(t); let mut l: Stmt = parse_quote!(let #tn = 0;); if let Stmt::Local(x) = &mut l { x.init.as_mut().unwrap().expr = Box::new(e); } body.push(l); body.extend(endg); body.push(Stmt::Expr(parse_quote!(#tn), None)); } else { self.lost.push(format!("{key}: no tail expression")); }
        } else if !endg.is_empty() {
            if matches!(body.last(), Some(Stmt::Expr(_, None))) && !matches!(sig.output, ReturnType::Default) { let e = body.pop().unwrap(); body.extend(endg); body.push(e); } else { body.extend(endg); }
        }
        stmts.extend(body);
        for (g, p) in spec.ghosts.iter().zip(&placed) { if !p && !spec.external { self.lost.push(format!("{key}: ghost position {} not found", g.0)); } }
        for k in spec.loops.keys() { if *k >= nl && !spec.external { self.lost.push(format!("{key}: loop {k} not found")); } }
        for k in spec.closures.keys() { if *k >= nc && !spec.external { self.lost.push(format!("{key}: closure {k} not found")); } }
        if !spec.external && has && nl > spec.loops.len() && false { self.lost.push(format!("{key}: {} loops, {} annotated", nl, spec.loops.len())); }
        let mut text = String::new();
        text.push_str(&format!("// @fn {key}\n"));
        if !spec.spec.trim().is_empty() { text.push_str(&spec.spec); }
        let mk = self.mark("VF", text);
        stmts.insert(0, mk);
        block.stmts = stmts;
        let mut pre = TokenStream::new();
        for a in &spec.attrs { pre.extend(a.parse::<TokenStream>().unwrap()); }
        if spec.external { pre.extend(quote!(#[verifier::external_body])); } else { pre.extend(quote!(#[verifier::loop_isolation(false)])); }
        let _ = key;
        (pre, sig, block)
    }
}
fn expr_attrs(e: &Expr) -> Vec<Attribute> { match e { Expr::Block(b) => b.attrs.clone(), Expr::MethodCall(b) => b.attrs.clone(), Expr::Call(b) => b.attrs.clone(), Expr::Unsafe(b) => b.attrs.clone(), _ => vec![] } }
fn derives(a: &[Attribute]) -> BTreeSet<String> {
    a.iter().filter(|a| a.path().is_ident("derive")).flat_map(|a| norm(a.meta.to_token_stream()).trim_start_matches("derive(").trim_end_matches(')').split(',').map(|s| s.to_string()).collect::<Vec<_>>()).collect()
}
/// `mut` receivers are not accepted by Verus: rebound at the start of the body
fn unmut_params(sig: &mut Signature, _lets: Option<&mut Vec<Stmt>>) -> bool {
    let mut r = false;
    for i in sig.inputs.iter_mut() {
        match i {
            FnArg::Receiver(s) if s.reference.is_none() && s.mutability.is_some() => { s.mutability = None; r = true; }
            FnArg::Typed(t) if _lets.is_none() => { if let Pat::Ident(p) = &mut *t.pat { p.mutability = None; } }
            _ => {}
        }
    }
    r
}
/// a function with a closure parameter whose result type is itself a generic parameter
fn is_structural_generic(f: &ItemFn) -> bool { !structural_params(f).is_empty() }
fn structural_params(f: &ItemFn) -> Vec<usize> {
    let gens: BTreeSet<String> = f.sig.generics.params.iter().filter_map(|p| if let GenericParam::Type(t) = p { Some(t.ident.to_string()) } else { None }).collect();
    let elems = elem_params(&f.sig.generics, &f.sig.inputs.to_token_stream());
    f.sig.inputs.iter().enumerate().filter_map(|(k, a)| {
        if let FnArg::Typed(t) = a { if let Type::ImplTrait(_) = &*t.ty { let n = norm(t.ty.to_token_stream()); if n.starts_with("implFn(") { if let Some((_, r)) = n.split_once("->") { if gens.contains(r) && !elems.contains(r) { return Some(k); } } } } }
        None
    }).collect()
}

struct Body<'b, 'a> { x: &'b mut X<'a>, key: String, nloop: usize, nclos: usize, placed: Vec<bool>, occ: BTreeMap<String, usize>, spec: &'b FnSpec }
/// the text of a statement without the blocks inside it when it is a compound one
fn own_text(s: &Stmt) -> String {
    struct E;
    impl VisitMut for E { fn visit_block_mut(&mut self, b: &mut Block) { b.stmts.clear(); } }
    let mut s = s.clone();
    if matches!(s, Stmt::Expr(Expr::If(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Match(_) | Expr::Block(_), _)) { E.visit_stmt_mut(&mut s); }
    norm(s.to_token_stream())
}
fn is_loop(s: &Stmt) -> bool { matches!(s, Stmt::Expr(Expr::ForLoop(_), _) | Stmt::Expr(Expr::While(_), _) | Stmt::Expr(Expr::Loop(_), _)) }
impl<'b, 'a> Body<'b, 'a> {
    fn ghost(&mut self, pos: &str) -> Vec<Stmt> {
        let mut v = vec![];
        for (k, (p, t)) in self.spec.ghosts.iter().enumerate() { if p == pos { self.placed[k] = true; v.push(self.x.mark("VG", t.clone())); } }
        v
    }
    /// ghosts anchored on a statement's text; `pos` is "before" or "after"
    fn pat_ghost(&mut self, pos: &str, text: &str) -> Vec<Stmt> {
        let mut v = vec![];
        for k in 0..self.spec.ghosts.len() {
            if self.placed[k] { continue; }
            let (p, t) = &self.spec.ghosts[k];
            let Some(r) = p.strip_prefix(pos) else { continue };
            let r = r.trim();
            if !r.starts_with('`') { continue; }
            let e = r.rfind('`').unwrap();
            let pat: String = r[1..e].chars().filter(|c| !c.is_whitespace()).collect();
            let nth: usize = r[e + 1..].trim().trim_start_matches('#').parse().unwrap_or(1);
            if text.contains(&pat) {
                let n = self.occ.entry(format!("{k}")).or_insert(0);
                if !text.starts_with("\u{1}") { *n += 1; }
                if *n == nth { self.placed[k] = true; let t = t.clone(); v.push(self.x.mark("VG", t)); }
            }
        }
        v
    }
    fn matched_patterns(&self, text: &str) -> bool { let _ = text; false }
}
fn pat_rebind(p: &mut Pat, out: &mut Vec<Stmt>) {
    // reference patterns: bind by reference, then dereference
    match p {
        Pat::Reference(r) => {
            let mut inner = (*r.pat).clone();
            fn idents(p: &Pat, out: &mut Vec<Ident>) { match p { Pat::Ident(i) => out.push(i.ident.clone()), Pat::Tuple(t) => for e in &t.elems { idents(e, out) }, Pat::Paren(q) => idents(&q.pat, out), _ => {} } }
            let mut v = vec![];
            idents(&inner, &mut v);
            for i in v { out.push(parse_quote!(let #i = *#i;)); }
            if let Pat::Paren(q) = inner.clone() { inner = *q.pat; }
            *p = inner;
        }
        Pat::Tuple(t) => for e in t.elems.iter_mut() { pat_rebind(e, out) },
        Pat::TupleStruct(t) => for e in t.elems.iter_mut() { pat_rebind(e, out) },
        Pat::Type(t) => { pat_rebind(&mut t.pat, out); }
        Pat::Paren(q) => pat_rebind(&mut q.pat, out),
        _ => {}
    }
}
fn slice_macro(ts: TokenStream) -> Expr {
    // components separated by commas, optional ;step
    let mut comps: Vec<(TokenStream, Option<TokenStream>)> = vec![(TokenStream::new(), None)];
    for t in ts {
        match &t {
            TokenTree::Punct(p) if p.as_char() == ',' => comps.push((TokenStream::new(), None)),
            TokenTree::Punct(p) if p.as_char() == ';' => comps.last_mut().unwrap().1 = Some(TokenStream::new()),
            _ => { let c = comps.last_mut().unwrap(); match &mut c.1 { Some(s) => s.extend(std::iter::once(t)), None => c.0.extend(std::iter::once(t)) } }
        }
    }
    let comps: Vec<_> = comps.into_iter().filter(|c| !c.0.is_empty()).collect();
    let es: Vec<TokenStream> = comps.into_iter().map(|(c, st)| {
        let e: Expr = parse2(c).expect("slice component");
        match e {
            Expr::Range(r) => {
                let lo = r.start.map(|x| x.to_token_stream()).unwrap_or(quote!(0));
                let hi = match (&r.end, &r.limits) { (None, _) => quote!(None), (Some(h), RangeLimits::HalfOpen(_)) => quote!(Some(#h)), (Some(h), _) => quote!(Some((#h) + 1)) };
                match st { None => quote!(crate::ndarray::Sl { lo: #lo, hi: #hi }), Some(s) => quote!(crate::ndarray::SlStep { lo: #lo, hi: #hi, step: #s }) }
            }
            e => quote!(crate::ndarray::Sx { i: #e }),
        }
    }).collect();
    if es.len() == 1 { let e = &es[0]; parse_quote!(#e) } else { parse_quote!((#(#es),*)) }
}
impl<'b, 'a> VisitMut for Body<'b, 'a> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear(); }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let text = own_text(&s);
            let li = self.nloop;
            let lp = is_loop(&s);
            let _ = self.matched_patterns(&text);
            // patterns that the inner blocks of this statement will claim first
            self.visit_stmt_mut(&mut s);
            if lp { out.extend(self.ghost(&format!("before loop {li}"))); }
            out.extend(self.pat_ghost("before", &text));
            if let Stmt::Macro(m) = &s {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                if n == "debug_assert" { continue; }
            }
            let tail = matches!(s, Stmt::Expr(_, None));
            let mut after = vec![];
            if lp { after.extend(self.ghost(&format!("after loop {li}"))); }
            after.extend(self.pat_ghost("after", &text));
            if !after.is_empty() && tail { if let Stmt::Expr(e, semi) = &mut s { if !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::While(_) | Expr::Loop(_) | Expr::Unsafe(_)) { *semi = Some(Default::default()); } } }
            out.push(s);
            out.extend(after);
        }
        b.stmts = out;
    }
    fn visit_local_mut(&mut self, l: &mut Local) { visit_mut::visit_local_mut(self, l); }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        // macros in statement position
        if let Stmt::Macro(m) = s {
            let n = m.mac.path.segments.last().unwrap().ident.to_string();
            if n == "assert" || n == "assert_eq" || n == "panic" {
                let args: syn::punctuated::Punctuated<Expr, Token![,]> = m.mac.parse_body_with(syn::punctuated::Punctuated::parse_terminated).unwrap_or_default();
                let v: Vec<Expr> = args.into_iter().collect();
                let e: Expr = match n.as_str() { "assert" => { let a = &v[0]; parse_quote!(crate::pre::rt_assert(#a)) } "assert_eq" => { let (a, b) = (&v[0], &v[1]); parse_quote!(crate::pre::rt_assert(#a == #b)) } _ => parse_quote!(crate::pre::rt_panic()) };
                *s = Stmt::Expr(e, Some(Default::default()));
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // x.for_each(|p| b) is for p in x { b }
        if let Expr::MethodCall(m) = e { if m.method == "for_each" && m.args.len() == 1 { if let Expr::Closure(c) = &m.args[0] { if c.inputs.len() == 1 {
            let (p, r, b) = (&c.inputs[0], &m.receiver, &c.body);
            *e = parse_quote!(for #p in #r { #b; });
        } } } }
        match e {
            Expr::ForLoop(f) => {
                let k = self.nloop;
                self.nloop += 1;
                let mut it = (*f.expr).clone();
                self.visit_expr_mut(&mut it);
                self.visit_block_mut(&mut f.body);
                let mut body = std::mem::take(&mut f.body.stmts);
                if let Some(Stmt::Expr(_, semi)) = body.last_mut() { if semi.is_none() { *semi = Some(Default::default()); } }
                let st = self.ghost(&format!("loop {k} start"));
                let en = self.ghost(&format!("loop {k} end"));
                let user = self.spec.loops.get(&k).cloned().unwrap_or_default();
                // range loops
                let mut inner = it.clone();
                let mut rev = false;
                if let Expr::MethodCall(m) = &it { if m.method == "rev" { inner = (*m.receiver).clone(); rev = true; } }
                while let Expr::Paren(p) = &inner { inner = (*p.expr).clone(); }
                if let Expr::Range(r) = &inner {
                    let lo = r.start.as_ref().map(|x| x.to_token_stream()).unwrap_or(quote!(0));
                    let hi = r.end.as_ref().expect("range end");
                    let hi = if matches!(r.limits, RangeLimits::Closed(_)) { quote!((#hi) + 1) } else { quote!(#hi) };
                    let name = match &*f.pat { Pat::Ident(i) => i.ident.to_string(), _ => format!("k{k}") };
                    let (v, n, l, h) = (id(&name), id(&format!("{name}_n")), id(&format!("{name}_lo")), id(&format!("{name}_hi")));
                    let rg = if rev { format!("{n} <= {h} || {n} == {h}, {l} <= {n} || {l} > {h}") } else { format!("{l} <= {n}, {n} <= {h} || {n} == {l}") };
                    let (inv, dec) = split_dec(&user);
                    let auto = if rev { format!("  invariant {n} <= {h}, {l} <= {n} || {n} == {h},\n{inv}\n  decreases {n}{dec},") } else { format!("  invariant {rg},\n{inv}\n  decreases {h} - {n}{dec},") };
                    let mk = self.x.mark("VL", auto);
                    let step: Vec<Stmt> = if rev { parse_quote!(#n = #n - 1; let #v = #n;) } else { parse_quote!(let #v = #n; #n = #n + 1;) };
                    let init = if rev { quote!(let mut #n: usize = #h;) } else { quote!(let mut #n: usize = #l;) };
                    let cond = if rev { quote!(#n > #l) } else { quote!(#n < #h) };
                    *e = parse_quote!({ let #l: usize = #lo; let #h: usize = #hi; #init while #cond { #mk #(#step)* #(#st)* #(#body)* #(#en)* } });
                } else {
                    let itn = id(&format!("it_{k}"));
                    let (inv, dec) = split_dec(&user);
                    let d = if dec.is_empty() { format!("{itn}.len() - {itn}.pos()") } else { dec.trim_start_matches(',').to_string() };
                    let mk = self.x.mark("VL", format!("  invariant 0 <= {itn}.pos() <= {itn}.len(), {itn}.wf(), {itn}.sq() == {itn}_sq,\n{inv}\n  decreases {d},"));
                    let gh = self.x.mark("VG", format!("let ghost {itn}_sq = {itn}.sq();"));
                    let mut reb = vec![];
                    let mut pat = (*f.pat).clone();
                    pat_rebind(&mut pat, &mut reb);
                    *e = parse_quote!({ let mut #itn = crate::std_shim::into_it(#it); #gh loop { #mk match #itn.next() { Some(#pat) => { #(#reb)* #(#st)* #(#body)* #(#en)* }, None => { break; } } } });
                }
            }
            Expr::While(w) => {
                let k = self.nloop;
                self.nloop += 1;
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                self.finish_loop(k, &mut w.body);
            }
            Expr::Loop(w) => {
                let k = self.nloop;
                self.nloop += 1;
                self.visit_block_mut(&mut w.body);
                self.finish_loop(k, &mut w.body);
            }
            Expr::Closure(c) => {
                let k = self.nclos;
                self.nclos += 1;
                self.visit_expr_mut(&mut c.body);
                let mut lets: Vec<Stmt> = vec![];
                if let Some(h) = self.spec.closures.get(&k).cloned() {
                    let names = header_names(&h);
                    for (p, n) in c.inputs.iter().zip(&names) {
                        let mut p = p.clone();
                        if let Pat::Type(t) = p { p = *t.pat; }
                        let ni = id(n);
                        match &p {
                            Pat::Ident(i) if i.ident == ni && i.mutability.is_none() => {}
                            Pat::Reference(r) if matches!(&*r.pat, Pat::Ident(_)) => { let q = &r.pat; lets.push(parse_quote!(let #q = *#ni;)); }
                            Pat::Wild(_) => {}
                            _ => { let mut reb = vec![]; pat_rebind(&mut p, &mut reb); lets.push(parse_quote!(let #p = #ni;)); lets.extend(reb); }
                        }
                    }
                    let body = &c.body;
                    let ht: TokenStream = h.parse().unwrap_or_else(|_| panic!("{}: closure header {k}", self.key));
                    *e = Expr::Verbatim(quote!(#ht { #(#lets)* #body }));
                } else {
                    let mut ins = vec![];
                    for (j, p) in c.inputs.iter().enumerate() {
                        match p {
                            Pat::Ident(i) if i.mutability.is_none() => ins.push(p.to_token_stream()),
                            Pat::Type(t) if matches!(&*t.pat, Pat::Ident(_)) => ins.push(p.to_token_stream()),
                            p => {
                                let n = id(&format!("c_{k}_{j}"));
                                let (mut q, ty) = match p { Pat::Type(t) => ((*t.pat).clone(), Some(t.ty.clone())), p => (p.clone(), None) };
                                match &q {
                                    Pat::Reference(r) if matches!(&*r.pat, Pat::Ident(_)) => { let z = &r.pat; lets.push(parse_quote!(let #z = *#n;)); }
                                    Pat::Wild(_) => {}
                                    _ => { let mut reb = vec![]; pat_rebind(&mut q, &mut reb); lets.push(parse_quote!(let #q = #n;)); lets.extend(reb); }
                                }
                                ins.push(match ty { Some(t) => quote!(#n: #t), None => quote!(#n) });
                            }
                        }
                    }
                    if !lets.is_empty() { let body = &c.body; *e = parse_quote!(|#(#ins),*| { #(#lets)* #body }); }
                }
            }
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                match n.as_str() {
                    "s" => { let mut x = slice_macro(m.mac.tokens.clone()); self.visit_expr_mut(&mut x); *e = x; }
                    "vec" => {
                        if let Ok(args) = m.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                            let mut v: Vec<Expr> = args.into_iter().collect();
                            for x in v.iter_mut() { self.visit_expr_mut(x); }
                            *e = parse_quote!(vec![#(#v),*]);
                        } else {
                            let ts = m.mac.tokens.to_string();
                            let (a, b) = ts.split_once(';').unwrap();
                            let (a, b): (Expr, Expr) = (parse_str(a).unwrap(), parse_str(b).unwrap());
                            *e = parse_quote!(crate::std_shim::vec_rep(#a, #b));
                        }
                    }
                    "concatenate" => {
                        let args: Vec<Expr> = m.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).unwrap().into_iter().collect();
                        let mut v = args.clone();
                        for x in v.iter_mut() { self.visit_expr_mut(x); }
                        let f = id(&format!("concatenate{}", v.len() - 1));
                        *e = parse_quote!(crate::ndarray::#f(#(#v),*));
                    }
                    _ => {}
                }
            }
            Expr::MethodCall(m) => {
                // A::from(literal).unwrap()
                if m.method == "unwrap" { if let Expr::Call(c) = &*m.receiver { if norm(c.func.to_token_stream()) == "Fl::from" && c.args.len() == 1 { if let Some((n, d)) = lit_frac(&c.args[0]) {
                    let n: Expr = parse_str(&format!("{n}")).unwrap();
                    let d: Expr = parse_str(&format!("{d}")).unwrap();
                    *e = parse_quote!(Fl::lit(#n, #d));
                    return;
                } } } }
                let n = m.method.to_string();
                match n.as_str() {
                    "iter" | "iter_mut" | "into_iter" | "collect" | "sort_by" => { m.method = id(&format!("v_{n}")); }
                    "sum" => { m.turbofish = None; }
                    _ => {}
                }
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func { if let Some(fname) = p.path.get_ident().map(|i| i.to_string()) { if let Some(g) = self.x.generic_fns.get(&fname).cloned() {
                    let sp = structural_params(&g);
                    if sp.iter().all(|k| matches!(c.args.iter().nth(*k), Some(Expr::Closure(_)))) {
                        let k = self.x.spec_ctr.entry(fname.clone()).or_insert(0);
                        let nn = format!("{fname}__{k}");
                        *k += 1;
                        let f = specialise(&g, &sp, &c.args.iter().cloned().collect::<Vec<_>>(), &nn);
                        self.x.extra.push(f);
                        let ni = id(&nn);
                        *c.func = parse_quote!(#ni);
                        let rest: Vec<Expr> = c.args.iter().enumerate().filter(|(j, _)| !sp.contains(j)).map(|(_, e)| e.clone()).collect();
                        c.args = rest.into_iter().collect();
                    }
                } } }
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::Match(m) => {
                for arm in m.arms.iter_mut() {
                    let mut reb = vec![];
                    pat_rebind(&mut arm.pat, &mut reb);
                    if !reb.is_empty() { let b = &arm.body; arm.body = parse_quote!({ #(#reb)* #b }); }
                }
                visit_mut::visit_expr_mut(self, e);
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}
fn split_dec(t: &str) -> (String, String) {
    match t.find("decreases") { Some(p) => (t[..p].to_string(), format!(", {}", t[p + 9..].trim().trim_end_matches(','))), None => (t.to_string(), String::new()) }
}
fn header_names(h: &str) -> Vec<String> {
    let a = h.find('|').unwrap();
    let b = a + 1 + h[a + 1..].find('|').unwrap();
    let mut out = vec![];
    let (mut depth, mut cur) = (0, String::new());
    for c in h[a + 1..b].chars() { match c { '(' | '<' | '[' => { depth += 1; cur.push(c) } ')' | '>' | ']' => { depth -= 1; cur.push(c) } ',' if depth == 0 => { out.push(std::mem::take(&mut cur)); } c => cur.push(c) } }
    if !cur.trim().is_empty() { out.push(cur); }
    out.iter().map(|s| s.split(':').next().unwrap().trim().trim_start_matches("mut ").to_string()).collect()
}
impl<'b, 'a> Body<'b, 'a> {
    fn finish_loop(&mut self, k: usize, body: &mut Block) {
        let mut stmts = std::mem::take(&mut body.stmts);
        if let Some(Stmt::Expr(_, semi)) = stmts.last_mut() { if semi.is_none() { *semi = Some(Default::default()); } }
        let st = self.ghost(&format!("loop {k} start"));
        let en = self.ghost(&format!("loop {k} end"));
        let user = self.spec.loops.get(&k).cloned().unwrap_or_default();
        let (inv, dec) = split_dec(&user);
        let mut t = String::new();
        if !inv.trim().is_empty() { t.push_str(&format!("  invariant\n{inv}")); }
        if !dec.is_empty() { t.push_str(&format!("  decreases {},", dec.trim_start_matches(", "))); }
        let mk = self.x.mark("VL", t);
        let mut out = vec![mk];
        out.extend(st);
        out.extend(stmts);
        out.extend(en);
        body.stmts = out;
    }
}
/// substitutes closed closure arguments into a copy of the callee
fn specialise(g: &ItemFn, sp: &[usize], args: &[Expr], name: &str) -> ItemFn {
    let mut f = g.clone();
    f.sig.ident = id(name);
    let mut names = BTreeMap::new();
    for k in sp { if let FnArg::Typed(t) = &g.sig.inputs[*k] { names.insert(norm(t.pat.to_token_stream()), args[*k].clone()); } }
    let ins: Vec<FnArg> = g.sig.inputs.iter().enumerate().filter(|(j, _)| !sp.contains(j)).map(|(_, a)| a.clone()).collect();
    f.sig.inputs = ins.into_iter().collect();
    struct Beta(BTreeMap<String, Expr>);
    impl VisitMut for Beta {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Call(c) = e { if let Some(Expr::Closure(cl)) = self.0.get(&norm(c.func.to_token_stream())) {
                let mut m = BTreeMap::new();
                for (p, a) in cl.inputs.iter().zip(&c.args) { m.insert(norm(p.to_token_stream()), a.clone()); }
                let mut b = (*cl.body).clone();
                SubstExpr(m).visit_expr_mut(&mut b);
                *e = b;
            } }
        }
    }
    Beta(names).visit_block_mut(&mut f.block);
    let used = format!("{} {}", f.sig.inputs.to_token_stream(), f.block.to_token_stream());
    let words: BTreeSet<&str> = used.split(|c: char| !c.is_alphanumeric() && c != '_').collect();
    let elems = elem_params(&g.sig.generics, &g.sig.inputs.to_token_stream());
    let keep: Vec<GenericParam> = g.sig.generics.params.iter().filter(|p| match p { GenericParam::Type(t) => words.contains(t.ident.to_string().as_str()) || elems.contains(&t.ident.to_string()), _ => true }).cloned().collect();
    f.sig.generics.params = keep.into_iter().collect();
    f
}
