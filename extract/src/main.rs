//! Mechanical extractor: copies functions and items of /repo into a Verus file, splicing in the
//! contracts, invariants and proof hints of a template.  Usage:
//!   vextract REPO OUT.rs OUT.json [--external KEY]... TEMPLATE...
//! What it changes in the copied text is listed in DESIGN.md ("What the extraction changes").
use proc_macro2::Span;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

mod helpers;
mod inline;
mod rewrite;
use rewrite::*;

pub struct Src {
    pub text: String,
    pub file: syn::File,
}

pub type Res<T> = Result<T, String>;

struct Ctx {
    repo: String,
    files: HashMap<String, Src>,
    macros: HashMap<String, String>,
    names: HashSet<String>,
    new_items: Vec<String>,
}

impl Ctx {
    fn load(&mut self, name: &str) -> Res<()> {
        if self.files.contains_key(name) {
            return Ok(());
        }
        let text = if let Some(m) = name.strip_prefix("macro:") {
            self.macros.get(m).cloned().ok_or(format!("macro instance {m} not defined"))? + &self.new_items.join("\n")
        } else {
            let t = std::fs::read_to_string(format!("{}/{}", self.repo, name)).map_err(|e| format!("{name}: {e}"))?;
            self.new_items.extend(helpers::new_items(&t, name, &self.names));
            t
        };
        let text = expand_unroll(&helpers::write_out(text, name, &self.names));
        let file = syn::parse_file(&text).map_err(|e| format!("{name}: parse error {e}"))?;
        self.files.insert(name.to_string(), Src { text, file });
        Ok(())
    }
}

/// `unroll!(N, |i = {e}| stmt, inc)` (src/util/unroll.rs) written as the loop it unrolls:
/// `let mut i: usize = e;` then N times `stmt`, with `inc` between two copies
fn expand_unroll(text: &str) -> String {
    let mut out = text.to_string();
    let mut from = 0;
    while let Some(k) = out[from..].find("unroll!(") {
        let a = from + k;
        from = a + 8;
        let prev = out[..a].chars().last().unwrap_or(' ');
        if prev.is_alphanumeric() || prev == '_' {
            continue;
        }
        // matching parenthesis
        let mut depth = 0;
        let mut b = 0;
        for (i, c) in out[a + 7..].char_indices() {
            match c {
                '(' | '[' | '{' => depth += 1,
                ')' | ']' | '}' => {
                    depth -= 1;
                    if depth == 0 {
                        b = a + 7 + i;
                        break;
                    }
                }
                _ => {}
            }
        }
        if b == 0 {
            continue;
        }
        let body = out[a + 8..b].to_string();
        let Some((n, rest)) = body.split_once(',') else { continue };
        let Ok(n) = n.trim().parse::<usize>() else { continue };
        let Some(p0) = rest.find('|') else { continue };
        let Some(p1) = rest[p0 + 1..].find('|').map(|x| x + p0 + 1) else { continue };
        let Some((i, e)) = rest[p0 + 1..p1].split_once('=') else { continue };
        let e = e.trim().trim_start_matches('{').trim_end_matches('}');
        let Some(c) = rest.rfind(',') else { continue };
        if c < p1 {
            continue;
        }
        let (stmt, inc) = (&rest[p1 + 1..c], &rest[c + 1..]);
        let new = format!("let mut {}: usize = {}; for u__ in 0..{n} {{ if u__ > 0 {{ {}; }} {stmt} }}", i.trim(), e.trim(), inc.trim());
        let semi = if out[b + 1..].starts_with(';') { 1 } else { 0 };
        out.replace_range(a..b + 1 + semi, &new);
        from = a;
    }
    out
}

pub fn br(s: Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

/// drops `crate::module::` prefixes: the extracted items live in one flat name space
fn flat(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(k) = rest.find("crate::") {
        out += &rest[..k];
        rest = &rest[k + 7..];
        while let Some(m) = rest.find("::") {
            let seg = &rest[..m];
            if !seg.is_empty() && seg.chars().all(|c| c.is_alphanumeric() || c == '_') && seg.starts_with(|c: char| c.is_lowercase()) {
                rest = &rest[m + 2..];
            } else {
                break;
            }
        }
    }
    out += rest;
    ASSOC.with(|a| {
        for (x, y) in a.borrow().iter() {
            out = out.replace(x.as_str(), y);
        }
    });
    out
}

fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => type_name(&r.elem),
        syn::Type::Slice(s) => format!("[{}]", type_name(&s.elem)),
        _ => "?".into(),
    }
}

fn items<'a>(file: &'a [syn::Item], out: &mut Vec<&'a syn::Item>) {
    for i in file {
        if !cfg_on(item_attrs(i)) {
            continue;
        }
        out.push(i);
        if let syn::Item::Mod(m) = i {
            if m.ident == "tests" {
                continue;
            }
            if let Some((_, c)) = &m.content {
                items(c, out);
            }
        }
    }
}

fn item_attrs(i: &syn::Item) -> &[syn::Attribute] {
    match i {
        syn::Item::Fn(f) => &f.attrs,
        syn::Item::Impl(f) => &f.attrs,
        syn::Item::Mod(f) => &f.attrs,
        syn::Item::Const(f) => &f.attrs,
        syn::Item::Static(f) => &f.attrs,
        syn::Item::Struct(f) => &f.attrs,
        syn::Item::Enum(f) => &f.attrs,
        syn::Item::Type(f) => &f.attrs,
        syn::Item::Trait(f) => &f.attrs,
        syn::Item::Use(f) => &f.attrs,
        _ => &[],
    }
}

thread_local! {
    /// the feature that `@@feature` switched on (besides the default configuration)
    /// associated types written in signatures, with what they are (`//@@ assoc X => Y`)
    static ASSOC: std::cell::RefCell<Vec<(String, String)>> = const { std::cell::RefCell::new(Vec::new()) };
    static FEATURE: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// cfg evaluation for the default, portable configuration
pub fn cfg_on(attrs: &[syn::Attribute]) -> bool {
    for a in attrs {
        if a.path().is_ident("cfg") {
            if let Ok(m) = a.parse_args::<syn::Meta>() {
                if !cfg_eval(&m) {
                    return false;
                }
            }
        }
    }
    true
}

fn cfg_eval(m: &syn::Meta) -> bool {
    match m {
        syn::Meta::Path(p) => p.is_ident("debug_assertions"),
        syn::Meta::NameValue(nv) => {
            let v = if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) = &nv.value { s.value() } else { String::new() };
            if nv.path.is_ident("target_arch") {
                v == "x86_64"
            } else if nv.path.is_ident("target_pointer_width") {
                v == "64"
            } else if nv.path.is_ident("feature") {
                FEATURE.with(|f| *f.borrow() == v)
            } else if nv.path.is_ident("target_feature") {
                FEATURE.with(|f| *f.borrow() == "simd")
            } else {
                false
            }
        }
        syn::Meta::List(l) => {
            let inner = l
                .parse_args_with(syn::punctuated::Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated)
                .map(|p| p.into_iter().collect::<Vec<_>>())
                .unwrap_or_default();
            if l.path.is_ident("not") {
                !inner.iter().any(cfg_eval)
            } else if l.path.is_ident("any") {
                inner.iter().any(cfg_eval)
            } else {
                inner.iter().all(cfg_eval)
            }
        }
    }
}

/// value of a constant expression over integer literals
fn fold(e: &syn::Expr) -> Option<i128> {
    match e {
        syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(i), .. }) => i.base10_parse().ok(),
        syn::Expr::Paren(p) => fold(&p.expr),
        syn::Expr::Binary(b) => {
            let (x, y) = (fold(&b.left)?, fold(&b.right)?);
            match b.op {
                syn::BinOp::Add(_) => x.checked_add(y),
                syn::BinOp::Sub(_) => x.checked_sub(y),
                syn::BinOp::Mul(_) => x.checked_mul(y),
                syn::BinOp::Div(_) => x.checked_div(y),
                syn::BinOp::Shl(_) if (0..63).contains(&y) => x.checked_mul(1 << y),
                _ => None,
            }
        }
        _ => None,
    }
}

#[derive(Clone)]
struct FnRef {
    sig: syn::Signature,
    block: syn::Block,
}

/// path forms:  `name`, `Type::name`, `<Type as Trait>::name`
fn find_fn(src: &Src, path: &str, nth: usize) -> Res<FnRef> {
    let mut all = vec![];
    items(&src.file.items, &mut all);
    let mut found = vec![];
    if let Some(rest) = path.strip_prefix('<') {
        let (h, name) = rest.split_once(">::").ok_or("bad path")?;
        let (ty, tr) = h.split_once(" as ").ok_or("bad path")?;
        for i in &all {
            if let syn::Item::Impl(im) = i {
                let t = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
                if t.as_deref() == Some(tr.trim()) && type_name(&im.self_ty) == ty.trim() {
                    collect_impl(im, name, &mut found);
                }
            }
            if let syn::Item::Trait(t) = i {
                if ty.trim() == "dyn" && t.ident == tr.trim() {
                    for it in &t.items {
                        if let syn::TraitItem::Fn(f) = it {
                            if f.sig.ident == name {
                                if let Some(b) = &f.default {
                                    found.push(FnRef { sig: f.sig.clone(), block: b.clone() });
                                }
                            }
                        }
                    }
                }
            }
        }
    } else if let Some((ty, name)) = path.split_once("::") {
        for i in &all {
            if let syn::Item::Impl(im) = i {
                if im.trait_.is_none() && type_name(&im.self_ty) == ty {
                    collect_impl(im, name, &mut found);
                }
            }
        }
    } else {
        for i in &all {
            if let syn::Item::Fn(f) = i {
                if f.sig.ident == path {
                    found.push(FnRef { sig: f.sig.clone(), block: (*f.block).clone() });
                }
            }
        }
    }
    if nth >= found.len() {
        return Err(format!("function {path} #{nth} not found"));
    }
    Ok(found.swap_remove(nth))
}

fn collect_impl(im: &syn::ItemImpl, name: &str, found: &mut Vec<FnRef>) {
    for it in &im.items {
        if let syn::ImplItem::Fn(f) = it {
            if f.sig.ident == name && cfg_on(&f.attrs) {
                found.push(FnRef { sig: f.sig.clone(), block: f.block.clone() });
            }
        }
    }
}

struct Block {
    anchor: String,
    text: String,
}

pub struct FnOut {
    pub key: String,
    pub file: String,
    pub src_line: usize,
    pub start: usize,
    pub end: usize,
    pub lost: Vec<String>,
    pub notes: Vec<String>,
    pub external: bool,
    pub loops: usize,
    pub props: Vec<String>,
    pub hash: u64,
}

fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

fn gen_fn(cx: &mut Ctx, head: &str, blocks: &[Block], external: &HashSet<String>, module: &str) -> Res<(String, FnOut)> {
    // head: FILE PATH [opts key=value ...]
    let (file, rest) = head.trim().split_once(char::is_whitespace).ok_or("bad @@fn")?;
    let rest = rest.trim();
    let (path, opts) = if rest.starts_with('<') {
        let e = rest.find(">::").ok_or("bad path")?;
        let e2 = rest[e..].find(char::is_whitespace).map(|x| x + e).unwrap_or(rest.len());
        rest.split_at(e2)
    } else {
        rest.split_at(rest.find(char::is_whitespace).unwrap_or(rest.len()))
    };
    let mut o: BTreeMap<String, String> = BTreeMap::new();
    for w in opts.split_whitespace() {
        match w.split_once('=') {
            Some((k, v)) => o.insert(k.into(), v.into()),
            None => o.insert(w.into(), "".into()),
        };
    }
    let key = format!("{module}::{}", o.get("key").cloned().unwrap_or_else(|| o.get("as").cloned().unwrap_or(path.to_string())));
    let r = cx.load(file).and_then(|_| find_fn(&cx.files[file], path, o.get("nth").and_then(|x| x.parse().ok()).unwrap_or(0)));
    let mut fo = FnOut {
        key: key.clone(),
        file: file.to_string(),
        src_line: 0,
        start: 0,
        end: 0,
        lost: vec![],
        notes: vec![],
        external: external.contains(&key),
        loops: 0,
        props: vec![],
        hash: 0,
    };
    let f = match r {
        Ok(f) => f,
        Err(e) => {
            // the function is gone: its callers are still checked against a contract if the template has a
            // fallback signature
            let spec = blocks.iter().find(|b| b.anchor == "spec").map(|b| b.text.clone()).unwrap_or_default();
            fo.lost.push(format!("function: {e}"));
            fo.external = true;
            return if let Some(sig) = blocks.iter().find(|b| b.anchor == "sig") {
                Ok((format!("#[verifier::external_body]\n{}\n{spec}\n{{ unimplemented!() }}\n", sig.text.trim()), fo))
            } else {
                Ok((format!("// MISSING {key}: {e}\n"), fo))
            };
        }
    };
    let src = &cx.files[file];
    let mut subst: Vec<(String, String)> = vec![];
    let mut drop_stmts: Vec<String> = vec![];
    for b in blocks {
        if b.anchor == "subst" {
            for l in b.text.lines() {
                if let Some((a, c)) = l.split_once("=>") {
                    subst.push((a.trim().to_string(), c.trim().to_string()));
                }
            }
        }
        if b.anchor == "ghostdrop" {
            drop_stmts.push(b.text.trim().to_string());
        }
    }
    let sig = &f.sig;
    fo.src_line = sig.ident.span().start().line;
    let mut out = String::new();
    let name = o.get("as").cloned().unwrap_or(sig.ident.to_string());
    let vis = if o.contains_key("novis") { "" } else { "pub " };
    if let Some(b) = blocks.iter().find(|b| b.anchor == "attr") {
        writeln!(out, "{}", b.text.trim()).unwrap();
    }
    if fo.external {
        writeln!(out, "#[verifier::external_body]").unwrap();
    }
    let cst = if o.contains_key("keepconst") && sig.constness.is_some() { "const " } else { "" };
    write!(out, "{vis}{cst}fn {name}").unwrap();
    let t = |s: Span| -> String {
        let (a, b) = br(s);
        flat(&src.text[a..b])
    };
    if let Some(b) = blocks.iter().find(|b| b.anchor == "generics") {
        write!(out, "{}", b.text.trim()).unwrap();
        o.insert("nogenerics".into(), String::new());
    }
    if !o.contains_key("nogenerics") && !sig.generics.params.is_empty() {
        write!(out, "<").unwrap();
        for p in &sig.generics.params {
            write!(out, "{}, ", t(p.span())).unwrap();
        }
        write!(out, ">").unwrap();
    }
    write!(out, "(").unwrap();
    let mut mut_self = false;
    let mut range_params = HashSet::new();
    let mut mut_params: Vec<String> = vec![];
    for a in &sig.inputs {
        match a {
            syn::FnArg::Receiver(r) if r.reference.is_none() && r.mutability.is_some() => {
                mut_self = true;
                write!(out, "self, ").unwrap();
            }
            // `self` of an implementation for a reference type
            syn::FnArg::Receiver(r) if r.reference.is_none() && o.contains_key("recv") => {
                write!(out, "{}, ", if o["recv"] == "mut" { "&'a mut self" } else { "&'a self" }).unwrap()
            }
            syn::FnArg::Receiver(r) => write!(out, "{}, ", t(r.span())).unwrap(),
            syn::FnArg::Typed(p) => {
                if let syn::Pat::Ident(id) = &*p.pat {
                    if id.mutability.is_some() {
                        mut_params.push(id.ident.to_string());
                    }
                    if type_name(&p.ty) == "Range" {
                        range_params.insert(id.ident.to_string());
                    }
                    write!(out, "{}: {}, ", id.ident, t(p.ty.span())).unwrap();
                } else {
                    write!(out, "{}, ", t(a.span())).unwrap();
                }
            }
        }
    }
    write!(out, ")").unwrap();
    if let Some(b) = blocks.iter().find(|b| b.anchor == "ret") {
        write!(out, " -> (r: {})", b.text.trim()).unwrap();
    } else if let syn::ReturnType::Type(_, ty) = &sig.output {
        write!(out, " -> (r: {})", t(ty.span())).unwrap();
    }
    if !o.contains_key("nogenerics") {
        if let Some(w) = &sig.generics.where_clause {
            write!(out, " {}", t(w.span())).unwrap();
        }
    }
    writeln!(out).unwrap();
    if let Some(b) = blocks.iter().find(|b| b.anchor == "spec") {
        writeln!(out, "{}", b.text.trim_end()).unwrap();
    }
    let (b0, b1) = br(f.block.span());
    fo.hash = hash(&src.text[b0..b1]);
    if fo.external {
        writeln!(out, "{{ unimplemented!() }}").unwrap();
    } else {
        let mut rw = Rewriter::new(&src.text);
        rw.mut_self = mut_self;
        rw.collect_src = o.contains_key("collectsrc");
        rw.closure_ty = o.get("closures").cloned();
        rw.next_loops = o.get("nextloops").map(|v| v.split(',').filter_map(|x| x.parse().ok()).collect()).unwrap_or_default();
        rw.iterad = o.contains_key("iterad");
        rw.all_opt_map = o.contains_key("optmap");
        rw.range_params = range_params;
        rw.into_u64 = o.contains_key("boolinto");
        rw.noderef = o.contains_key("noderef");
        rw.derefs = o.get("derefs").map(|v| v.split(',').map(String::from).collect()).unwrap_or_default();
        rw.cow = o.contains_key("copied_refs");
        rw.visit_block_top(&f.block, matches!(sig.output, syn::ReturnType::Default));
        let mut pre = String::new();
        if mut_self {
            pre += "let mut self_ = self;\n";
            fo.notes.push("`mut self` parameter bound to local `self_`".into());
        }
        for p in &mut_params {
            write!(pre, "let mut {p} = {p};\n").unwrap();
        }
        if !pre.is_empty() {
            rw.insert(b0 + 1, 0, pre);
        }
        let mut used = HashSet::new();
        for (n, b) in blocks.iter().enumerate() {
            if matches!(b.anchor.as_str(), "spec" | "subst" | "sig" | "attr" | "ret" | "ghostdrop" | "generics") {
                continue;
            }
            if rw.place(&b.anchor, &b.text) {
                used.insert(n);
            } else {
                fo.lost.push(b.anchor.clone());
            }
        }
        fo.loops = rw.loops.len();
        for (k, l) in rw.loops.iter().enumerate() {
            if !blocks.iter().any(|b| b.anchor == format!("loop {k}")) && l.needs_spec {
                fo.notes.push(format!("loop {k} has no invariant"));
            }
        }
        fo.notes.extend(rw.notes.iter().cloned());
        let body = rw.apply(b0, b1);
        writeln!(out, "{body}").unwrap();
    }
    for (a, c) in &subst {
        out = subst_tokens(&out, a, c);
    }
    Ok((out, fo))
}

/// replaces whole-token occurrences of `a`
fn subst_tokens(s: &str, a: &str, c: &str) -> String {
    let mut out = String::new();
    let mut i = 0;
    let isid = |ch: char| ch.is_alphanumeric() || ch == '_';
    while let Some(p) = s[i..].find(a) {
        let st = i + p;
        let en = st + a.len();
        let okb = st == 0 || !(isid(s[..st].chars().next_back().unwrap()) && isid(a.chars().next().unwrap()));
        let oke = en >= s.len() || !(isid(s[en..].chars().next().unwrap()) && isid(a.chars().next_back().unwrap()));
        out += &s[i..st];
        if okb && oke {
            out += c;
        } else {
            out += a;
        }
        i = en;
    }
    out + &s[i..]
}

fn gen_item(cx: &mut Ctx, head: &str) -> Res<String> {
    let w: Vec<&str> = head.split_whitespace().collect();
    let (file, kind, name) = (w[0], w[1], w[2]);
    cx.load(file)?;
    let src = &cx.files[file];
    let mut all = vec![];
    items(&src.file.items, &mut all);
    let t = |s: Span| -> String {
        let (a, b) = br(s);
        flat(&src.text[a..b])
    };
    for i in all {
        match i {
            // the body of the derived `clone`
            syn::Item::Struct(s) if kind == "clonebody" && s.ident == name => {
                let derived = s.attrs.iter().any(|a| a.path().is_ident("derive") && matches!(&a.meta, syn::Meta::List(l) if l.tokens.to_string().split(',').any(|x| x.trim() == "Clone")));
                if !derived {
                    return Err(format!("{name} does not derive Clone"));
                }
                let mut o = format!("{{ {name} {{ ");
                match &s.fields {
                    syn::Fields::Named(f) => {
                        for f in &f.named {
                            let n = f.ident.as_ref().unwrap();
                            write!(o, "{n}: self.{n}.clone(), ").unwrap();
                        }
                    }
                    _ => return Err("struct kind".into()),
                }
                return Ok(o + "} }\n");
            }
            syn::Item::Struct(s) if kind == "struct" && s.ident == name => {
                let mut o = format!("pub struct {}{} ", name, if s.generics.params.is_empty() { String::new() } else { t(s.generics.span()) });
                match &s.fields {
                    syn::Fields::Named(f) => {
                        o += "{\n";
                        for f in &f.named {
                            write!(o, "    pub {}: {},\n", f.ident.as_ref().unwrap(), t(f.ty.span())).unwrap();
                        }
                        o += "}\n";
                    }
                    syn::Fields::Unnamed(f) => {
                        let fs: Vec<String> = f.unnamed.iter().map(|f| format!("pub {}", t(f.ty.span()))).collect();
                        write!(o, "({});\n", fs.join(", ")).unwrap();
                    }
                    _ => return Err("struct kind".into()),
                }
                return Ok(o);
            }
            syn::Item::Const(c) if kind == "const" && c.ident == name => {
                return Ok(format!("pub const {}: {} = {};\n", name, t(c.ty.span()), fold(&c.expr).map(|v| v.to_string()).unwrap_or_else(|| t(c.expr.span()))));
            }
            syn::Item::Static(c) if kind == "const" && c.ident == name => {
                return Ok(format!("pub const {}: {} = {};\n", name, t(c.ty.span()), fold(&c.expr).map(|v| v.to_string()).unwrap_or_else(|| t(c.expr.span()))));
            }
            // an initialised table: its initialiser is checked against the predicate that the template gives
            syn::Item::Static(c) if kind == "static" && c.ident == name => {
                return Ok(format!("#[allow(long_running_const_eval)]\npub exec static {}: {} ensures {} {{ {} }}\n", name, t(c.ty.span()), w[3..].join(" "), t(c.expr.span())));
            }
            syn::Item::Type(c) if kind == "type" && c.ident == name => {
                return Ok(format!("pub type {}{} = {};\n", name, if c.generics.params.is_empty() { String::new() } else { t(c.generics.span()) }, t(c.ty.span())));
            }
            syn::Item::Macro(m) if kind == "macro" && m.ident.as_ref().map(|x| x == name).unwrap_or(false) => {
                return Ok(t(m.span()));
            }
            syn::Item::Impl(im) if kind == "implconst" && im.trait_.is_none() => {
                for it in &im.items {
                    if let syn::ImplItem::Const(c) = it {
                        if format!("{}::{}", type_name(&im.self_ty), c.ident) == name && cfg_on(&c.attrs) {
                            return Ok(format!("pub const {}: {} = {};\n", c.ident, t(c.ty.span()), fold(&c.expr).map(|v| v.to_string()).unwrap_or_else(|| t(c.expr.span()))));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    Err(format!("item {head} not found"))
}

/// `@@macro FILE NAME ARM INSTANCE k=v k=v ...`: textual instantiation of one macro_rules arm.
/// `$x` is replaced by its argument; `$( ... )?` / `$( ... )*` groups are kept iff every `$y` inside has an argument.
fn inst_macro(cx: &mut Ctx, head: &str) -> Res<()> {
    let w: Vec<&str> = head.split_whitespace().collect();
    let (file, name, arm, inst) = (w[0], w[1], w[2].parse::<usize>().map_err(|e| e.to_string())?, w[3]);
    cx.load(file)?;
    let src = &cx.files[file];
    let mut all = vec![];
    items(&src.file.items, &mut all);
    for i in all {
        if let syn::Item::Macro(m) = i {
            if m.ident.as_ref().map(|x| x == name).unwrap_or(false) {
                // arms: groups in token stream: ( pattern ) => { body } ;
                let toks: Vec<_> = m.mac.tokens.clone().into_iter().collect();
                let groups: Vec<_> = toks
                    .iter()
                    .filter_map(|t| if let proc_macro2::TokenTree::Group(g) = t { Some(g) } else { None })
                    .collect();
                let g = groups.get(arm * 2 + 1).ok_or("macro arm")?;
                let (a, b) = br(g.span());
                let body = &src.text[a + 1..b - 1];
                let args: HashMap<&str, &str> = w[4..].iter().filter_map(|x| x.split_once('=')).collect();
                let text = inst_text(body, &args);
                cx.macros.insert(inst.to_string(), flatten_cfg_if(&text));
                return Ok(());
            }
        }
    }
    Err(format!("macro {name} not found"))
}

/// `cfg_if! { if #[cfg(M)] { A } else { B } }` around single items, written with cfg attributes
fn flatten_cfg_if(text: &str) -> String {
    let close = |from: usize| -> Option<usize> {
        let b = text.as_bytes();
        let (mut d, mut i) = (0, from);
        while i < b.len() {
            match b[i] {
                b'(' | b'[' | b'{' => d += 1,
                b')' | b']' | b'}' => {
                    d -= 1;
                    if d == 0 {
                        return Some(i);
                    }
                }
                _ => {}
            }
            i += 1;
        }
        None
    };
    let go = || -> Option<String> {
        if !text.trim_start().starts_with("cfg_if!") {
            return None;
        }
        let c = text.find("#[cfg(")?;
        let m = close(c + 5)?;
        let a0 = m + text[m..].find('{')?;
        let a1 = close(a0)?;
        let e = a1 + text[a1..].find("else")?;
        let b0 = e + text[e..].find('{')?;
        let b1 = close(b0)?;
        let cond = &text[c + 6..m];
        Some(format!("#[cfg({cond})]\n{}\n#[cfg(not({cond}))]\n{}\n", &text[a0 + 1..a1], &text[b0 + 1..b1]))
    };
    go().unwrap_or_else(|| text.to_string())
}

fn inst_inline(cx: &mut Ctx, head: &str) -> Res<()> {
    let w: Vec<&str> = head.split_whitespace().collect();
    let (file, caller, callee, inst) = (w[0], w[1], w[2], w[3]);
    cx.load(file)?;
    let src = &cx.files[file];
    let ty = caller.split_once("::").ok_or("caller path")?.0;
    let a = find_fn(src, caller, 0)?;
    let b = find_fn(src, &format!("{ty}::{callee}"), 0)?;
    let text = inline::expand(&src.text, ty, "pub", (&a.sig, &a.block), (&b.sig, &b.block), callee)?;
    cx.macros.insert(inst.to_string(), text);
    Ok(())
}

fn inst_text(s: &str, args: &HashMap<&str, &str>) -> String {
    let b = s.as_bytes();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'$' && i + 1 < b.len() {
            if b[i + 1] == b'(' {
                let mut d = 0;
                let mut j = i + 1;
                while j < b.len() {
                    if b[j] == b'(' {
                        d += 1;
                    }
                    if b[j] == b')' {
                        d -= 1;
                        if d == 0 {
                            break;
                        }
                    }
                    j += 1;
                }
                let inner = &s[i + 2..j];
                // every variable inside bound and non-empty?
                let mut ok = true;
                let mut k = 0;
                let ib = inner.as_bytes();
                while k < ib.len() {
                    if ib[k] == b'$' {
                        let e = k + 1 + inner[k + 1..].find(|c: char| !(c.is_alphanumeric() || c == '_')).unwrap_or(inner.len() - k - 1);
                        if !args.contains_key(&inner[k + 1..e]) {
                            ok = false;
                        }
                        k = e;
                    } else {
                        k += 1;
                    }
                }
                if ok {
                    out += &inst_text(inner, args);
                }
                i = j + 1;
                // separator and repetition operator
                while i < b.len() && !matches!(b[i], b'?' | b'*' | b'+') {
                    i += 1;
                }
                i += 1;
                continue;
            }
            let e = i + 1 + s[i + 1..].find(|c: char| !(c.is_alphanumeric() || c == '_')).unwrap_or(s.len() - i - 1);
            match args.get(&s[i + 1..e]) {
                Some(v) => out += v,
                None => out += &s[i..e],
            }
            i = e;
        } else {
            let ch = s[i..].chars().next().unwrap();
            out.push(ch);
            i += ch.len_utf8();
        }
    }
    out
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o + "\""
}

fn run() -> Res<()> {
    let args: Vec<String> = std::env::args().collect();
    let mut external = HashSet::new();
    let mut templates = vec![];
    let mut it = args[4..].iter();
    while let Some(a) = it.next() {
        if a == "--external" {
            external.insert(it.next().unwrap().clone());
        } else {
            templates.push(a.clone());
        }
    }
    let names = templates
        .first()
        .and_then(|t| std::fs::read_to_string(std::path::Path::new(t).with_file_name("NAMES")).ok())
        .map(|t| t.lines().map(|l| l.to_string()).collect())
        .unwrap_or_default();
    let mut cx = Ctx { repo: args[1].clone(), files: HashMap::new(), macros: HashMap::new(), names, new_items: vec![] };
    let mut out = String::from("// generated by vextract; do not edit\n#![allow(unused, non_snake_case, non_camel_case_types, unused_parens, clippy::all)]\nuse vstd::prelude::*;\n");
    let mut fns: Vec<FnOut> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut line = out.matches('\n').count();
    for tp in &templates {
        let module = std::path::Path::new(tp).file_stem().unwrap().to_string_lossy().to_string();
        let text = std::fs::read_to_string(tp).map_err(|e| format!("{tp}: {e}"))?;
        let mut lines = text.lines().peekable();
        let emit = |out: &mut String, line: &mut usize, s: &str| {
            *out += s;
            if !s.ends_with('\n') {
                out.push('\n');
                *line += 1;
            }
            *line += s.matches('\n').count();
        };
        FEATURE.with(|f| f.borrow_mut().clear());
        ASSOC.with(|f| f.borrow_mut().clear());
        emit(&mut out, &mut line, &format!("pub mod {module} {{\n"));
        while let Some(l) = lines.next() {
            let tl = l.trim_start();
            if let Some(h) = tl.strip_prefix("//@@ fn ") {
                let mut blocks: Vec<Block> = vec![];
                let mut props = vec![];
                loop {
                    let Some(l) = lines.next() else { return Err(format!("{tp}: @@fn {h} without end")) };
                    let tl = l.trim_start();
                    if tl == "//@@ end" {
                        break;
                    }
                    if let Some(a) = tl.strip_prefix("//@ props ") {
                        props = a.split_whitespace().map(|x| x.to_string()).collect();
                    } else if let Some(a) = tl.strip_prefix("//@ ") {
                        blocks.push(Block { anchor: a.trim().to_string(), text: String::new() });
                    } else if let Some(b) = blocks.last_mut() {
                        b.text += l;
                        b.text.push('\n');
                    }
                }
                match gen_fn(&mut cx, h, &blocks, &external, &module) {
                    Ok((s, mut fo)) => {
                        fo.start = line + 1;
                        emit(&mut out, &mut line, &s);
                        fo.end = line;
                        fo.props = props;
                        fns.push(fo);
                    }
                    Err(e) => errors.push(format!("{module}: fn {h}: {e}")),
                }
            } else if let Some(h) = tl.strip_prefix("//@@ item ") {
                match gen_item(&mut cx, h) {
                    Ok(s) => emit(&mut out, &mut line, &s),
                    Err(e) => errors.push(format!("{module}: {e}")),
                }
            } else if let Some(h) = tl.strip_prefix("//@@ inline ") {
                if let Err(e) = inst_inline(&mut cx, h) {
                    errors.push(format!("{module}: inline {h}: {e}"));
                }
            } else if let Some(h) = tl.strip_prefix("//@@ feature ") {
                FEATURE.with(|f| *f.borrow_mut() = h.trim().to_string());
            } else if let Some(h) = tl.strip_prefix("//@@ assoc ") {
                if let Some((x, y)) = h.split_once("=>") {
                    ASSOC.with(|f| f.borrow_mut().push((x.trim().to_string(), y.trim().to_string())));
                }
            } else if let Some(h) = tl.strip_prefix("//@@ contains ") {
                // `@@contains FILE TEXT`: the file has TEXT, up to white space (macro calls that fix the arguments of an instance)
                let (f, t) = h.split_once(' ').unwrap_or((h, ""));
                let squeeze = |x: &str| x.chars().filter(|c| !c.is_whitespace()).collect::<String>();
                match cx.load(f) {
                    Ok(_) if squeeze(&cx.files[f].text).contains(&squeeze(t)) => {}
                    Ok(_) => errors.push(format!("{module}: {f} has no {t}")),
                    Err(e) => errors.push(format!("{module}: {e}")),
                }
            } else if let Some(h) = tl.strip_prefix("//@@ macro ") {
                if let Err(e) = inst_macro(&mut cx, h) {
                    errors.push(format!("{module}: {e}"));
                }
            } else {
                emit(&mut out, &mut line, l);
            }
        }
        emit(&mut out, &mut line, "}\n");
    }
    out += "fn main() {}\n";
    std::fs::write(&args[2], &out).map_err(|e| e.to_string())?;
    let mut j = String::from("{\"functions\":[");
    for (n, f) in fns.iter().enumerate() {
        if n > 0 {
            j.push(',');
        }
        let arr = |v: &[String]| format!("[{}]", v.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
        write!(
            j,
            "\n{{\"key\":{},\"file\":{},\"src_line\":{},\"start\":{},\"end\":{},\"lost\":{},\"notes\":{},\"external\":{},\"loops\":{},\"props\":{},\"hash\":\"{:016x}\"}}",
            js(&f.key), js(&f.file), f.src_line, f.start, f.end, arr(&f.lost), arr(&f.notes), f.external, f.loops, arr(&f.props), f.hash
        )
        .unwrap();
    }
    write!(j, "],\n\"errors\":[{}]}}\n", errors.iter().map(|e| js(e)).collect::<Vec<_>>().join(",")).unwrap();
    std::fs::write(&args[3], j).map_err(|e| e.to_string())?;
    Ok(())
}

fn main() {
    if let Err(e) = run() {
        eprintln!("vextract: {e}");
        std::process::exit(2);
    }
}

#[allow(unused)]
fn _unused(b: &syn::Block) {
    struct V;
    impl<'a> Visit<'a> for V {}
    visit::visit_block(&mut V, b);
}
