//! Functions and constants that the listed tree (proofs/NAMES) does not have are written out where they are used:
//! a call of such a function is replaced by its body with the arguments bound to the parameters, a use of such a
//! constant by its value.  Only functions without early exit, generics and recursion; everything else is left alone
//! (the caller is then outside the verifier's reach, and reported so).
use crate::{br, cfg_on};
use proc_macro2::{TokenStream, TokenTree};
use std::collections::HashSet;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

struct Helper {
    name: String,
    method: bool,
    params: Vec<(bool, String, String)>,
    body: (usize, usize),
    whole: (usize, usize),
    bare_self: bool,
    selfs: Vec<(usize, usize)>,
    names: HashSet<String>,
    exits: bool,
}

#[derive(Default)]
struct Exits(bool);
impl<'ast> Visit<'ast> for Exits {
    fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
}

fn toks(ts: TokenStream, out: &mut Vec<TokenTree>) {
    for t in ts {
        if let TokenTree::Group(g) = &t {
            out.push(TokenTree::Punct(proc_macro2::Punct::new(',', proc_macro2::Spacing::Alone)));
            toks(g.stream(), out);
            out.push(TokenTree::Punct(proc_macro2::Punct::new(',', proc_macro2::Spacing::Alone)));
        } else {
            out.push(t);
        }
    }
}

struct Col<'a> {
    text: &'a str,
    file: &'a str,
    known: &'a HashSet<String>,
    fns: Vec<Helper>,
    consts: Vec<(String, String, (usize, usize))>,
}
impl<'a> Col<'a> {
    fn is_new(&self, n: &str) -> bool {
        if self.file.starts_with("macro:") {
            !self.known.iter().any(|k| k.rsplit("::").next() == Some(n))
        } else {
            !self.known.contains(&format!("{}::{n}", self.file))
        }
    }
    fn add(&mut self, attrs: &[syn::Attribute], sig: &syn::Signature, b: &syn::Block, whole: (usize, usize)) {
        let name = sig.ident.to_string();
        if !self.is_new(&name) || !cfg_on(attrs) || attrs.iter().any(|a| a.path().is_ident("test")) {
            return;
        }
        if sig.generics.type_params().next().is_some() || sig.generics.const_params().next().is_some() || sig.asyncness.is_some() || sig.unsafety.is_some() {
            return;
        }
        let mut e = Exits(false);
        e.visit_block(b);
        let mut params = vec![];
        let mut method = false;
        for a in &sig.inputs {
            match a {
                syn::FnArg::Receiver(r) => {
                    if r.reference.is_none() {
                        return;
                    }
                    method = true;
                }
                syn::FnArg::Typed(p) => {
                    let syn::Pat::Ident(id) = &*p.pat else { return };
                    let (x, y) = br(p.ty.span());
                    let t = self.text[x..y].to_string();
                    if t.contains("impl ") || t.contains("dyn ") || t.contains("Fn") {
                        return;
                    }
                    params.push((id.mutability.is_some(), id.ident.to_string(), t));
                }
            }
        }
        let mut v = vec![];
        toks(quote::ToTokens::to_token_stream(b), &mut v);
        let (mut selfs, mut bare) = (vec![], false);
        let mut names = HashSet::new();
        for (i, t) in v.iter().enumerate() {
            if let TokenTree::Ident(id) = t {
                names.insert(id.to_string());
                if id == "self" {
                    selfs.push(br(id.span()));
                    bare |= !matches!(v.get(i + 1), Some(TokenTree::Punct(p)) if p.as_char() == '.');
                }
            }
        }
        if names.contains(&name) {
            return;
        }
        self.fns.push(Helper { name, method, params, body: br(b.span()), whole, bare_self: bare, selfs, names, exits: e.0 });
    }
}
impl<'ast, 'a> Visit<'ast> for Col<'a> {
    fn visit_item_mod(&mut self, m: &'ast syn::ItemMod) {
        if cfg_on(&m.attrs) {
            visit::visit_item_mod(self, m);
        }
    }
    fn visit_item_trait(&mut self, _: &'ast syn::ItemTrait) {}
    fn visit_item_impl(&mut self, i: &'ast syn::ItemImpl) {
        if i.trait_.is_none() && cfg_on(&i.attrs) {
            visit::visit_item_impl(self, i);
        }
    }
    fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) {
        self.add(&f.attrs, &f.sig, &f.block, br(f.span()));
        visit::visit_item_fn(self, f);
    }
    fn visit_impl_item_fn(&mut self, f: &'ast syn::ImplItemFn) {
        self.add(&f.attrs, &f.sig, &f.block, br(f.span()));
        visit::visit_impl_item_fn(self, f);
    }
    fn visit_item_const(&mut self, c: &'ast syn::ItemConst) {
        if self.is_new(&c.ident.to_string()) && cfg_on(&c.attrs) {
            let (a, b) = br(c.expr.span());
            let (x, y) = br(c.ty.span());
            self.consts.push((c.ident.to_string(), format!("(({}) as {})", &self.text[a..b], &self.text[x..y]), br(c.span())));
        }
    }
    fn visit_impl_item_const(&mut self, c: &'ast syn::ImplItemConst) {
        if self.is_new(&c.ident.to_string()) && cfg_on(&c.attrs) {
            let (a, b) = br(c.expr.span());
            let (x, y) = br(c.ty.span());
            self.consts.push((c.ident.to_string(), format!("(({}) as {})", &self.text[a..b], &self.text[x..y]), br(c.span())));
        }
    }
}

struct Calls<'a> {
    col: &'a Col<'a>,
    text: &'a str,
    /// call, helper, receiver, arguments
    found: Option<((usize, usize), usize, Option<String>, Vec<(usize, usize)>)>,
    /// spans of expressions that stand alone (statements, initialisers, tails)
    alone: HashSet<(usize, usize)>,
    cuse: Option<((usize, usize), String)>,
    /// spans of expressions whose value the enclosing function returns
    tails: HashSet<(usize, usize)>,
}
fn place(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Path(_) => true,
        syn::Expr::Field(f) => place(&f.base),
        _ => false,
    }
}
impl<'a> Calls<'a> {
    fn skip(&self, s: (usize, usize)) -> bool {
        self.col.consts.iter().any(|c| c.2 .0 <= s.0 && s.1 <= c.2 .1)
    }
    fn helper(&self, n: &syn::Ident, method: bool, args: usize, s: (usize, usize)) -> Option<usize> {
        let c: Vec<usize> = (0..self.col.fns.len()).filter(|i| n == &self.col.fns[*i].name).collect();
        if c.len() != 1 {
            return None;
        }
        let h = &self.col.fns[c[0]];
        // innermost helpers first: one that itself uses a helper waits until that one is written out
        let busy = self.col.fns.iter().any(|g| h.names.contains(&g.name));
        (h.method == method && h.params.len() == args && !busy && (!h.exits || self.tails.contains(&s)) && !(h.whole.0 <= s.0 && s.1 <= h.whole.1)).then_some(c[0])
    }
}
impl<'a> Calls<'a> {
    fn tail_block(&mut self, b: &syn::Block) {
        if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() {
            self.tail(e);
        }
    }
    fn tail(&mut self, e: &syn::Expr) {
        self.tails.insert(br(e.span()));
        match e {
            syn::Expr::Block(b) => self.tail_block(&b.block),
            syn::Expr::If(i) => {
                self.tail_block(&i.then_branch);
                if let Some((_, e)) = &i.else_branch {
                    self.tail(e);
                }
            }
            syn::Expr::Match(m) => {
                for a in &m.arms {
                    self.tail(&a.body);
                }
            }
            _ => {}
        }
    }
}
impl<'ast, 'a> Visit<'ast> for Calls<'a> {
    fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) {
        self.tail_block(&f.block);
        visit::visit_item_fn(self, f);
    }
    fn visit_impl_item_fn(&mut self, f: &'ast syn::ImplItemFn) {
        self.tail_block(&f.block);
        visit::visit_impl_item_fn(self, f);
    }
    fn visit_expr_return(&mut self, r: &'ast syn::ExprReturn) {
        if let Some(e) = &r.expr {
            self.tail(e);
            self.alone.insert(br(e.span()));
        }
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        // what a closure returns is not what the function returns
        let t = self.tails.clone();
        visit::visit_expr_closure(self, c);
        self.tails = t;
    }
    fn visit_block(&mut self, b: &'ast syn::Block) {
        for s in &b.stmts {
            match s {
                syn::Stmt::Expr(e, _) => {
                    self.alone.insert(br(e.span()));
                }
                syn::Stmt::Local(l) => {
                    if let Some(i) = &l.init {
                        self.alone.insert(br(i.expr.span()));
                    }
                }
                _ => {}
            }
        }
        visit::visit_block(self, b);
    }
    fn visit_item_mod(&mut self, m: &'ast syn::ItemMod) {
        if cfg_on(&m.attrs) {
            visit::visit_item_mod(self, m);
        }
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        visit::visit_expr_method_call(self, m);
        if self.found.is_some() || !place(&m.receiver) || m.turbofish.is_some() {
            return;
        }
        let s = br(m.span());
        if let Some(h) = self.helper(&m.method, true, m.args.len(), s) {
            let (a, b) = br(m.receiver.span());
            let r = self.text[a..b].to_string();
            if r == "self" {
                self.found = Some((s, h, None, m.args.iter().map(|x| br(x.span())).collect()));
            } else if !self.col.fns[h].bare_self {
                self.found = Some((s, h, Some(r), m.args.iter().map(|x| br(x.span())).collect()));
            }
        }
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        visit::visit_expr_call(self, c);
        if self.found.is_some() {
            return;
        }
        if let syn::Expr::Path(p) = &*c.func {
            let n = &p.path.segments.last().unwrap().ident;
            if p.path.segments.len() > 2 {
                return;
            }
            let s = br(c.span());
            if let Some(h) = self.helper(n, false, c.args.len(), s) {
                self.found = Some((s, h, None, c.args.iter().map(|x| br(x.span())).collect()));
            }
        }
    }
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        if self.cuse.is_none() {
            let n = p.path.segments.last().unwrap().ident.to_string();
            let s = br(p.span());
            if p.path.segments.len() == 1 || p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                if let Some(c) = self.col.consts.iter().find(|c| c.0 == n) {
                    if !self.skip(s) {
                        self.cuse = Some((s, c.1.clone()));
                    }
                }
            }
        }
        visit::visit_expr_path(self, p);
    }
}

fn words(s: &str) -> HashSet<&str> {
    s.split(|c: char| !c.is_alphanumeric() && c != '_').collect()
}

pub fn write_out(mut text: String, file: &str, known: &HashSet<String>) -> String {
    if known.is_empty() {
        return text;
    }
    text = local_closures(text);
    for _ in 0..60 {
        let Ok(f) = syn::parse_file(&text) else { return text };
        let mut col = Col { text: &text, file, known, fns: vec![], consts: vec![] };
        col.visit_file(&f);
        if col.fns.is_empty() && col.consts.is_empty() {
            return text;
        }
        let mut c = Calls { col: &col, text: &text, found: None, alone: HashSet::new(), cuse: None, tails: HashSet::new() };
        c.visit_file(&f);
        let (at, new) = if let Some((s, v)) = c.cuse {
            (s, v)
        } else if let Some((s, h, recv, args)) = c.found {
            let h = &col.fns[h];
            let mut body = String::new();
            let mut p = h.body.0 + 1;
            for &(a, b) in &h.selfs {
                body += &text[p..a];
                body += recv.as_deref().unwrap_or("self");
                p = b;
            }
            body += &text[p..h.body.1 - 1];
            let args: Vec<String> = args.iter().map(|&(a, b)| text[a..b].to_string()).collect();
            // names of the caller that the receiver uses must not be captured by the parameters
            if let Some(r) = &recv {
                if h.params.iter().any(|q| words(r).contains(q.1.as_str())) {
                    return text;
                }
            }
            let binds: Vec<usize> = (0..args.len()).filter(|i| h.params[*i].0 || args[*i] != h.params[*i].1).collect();
            let typed = |i: usize| if h.params[i].2.contains('\'') { "_".to_string() } else { h.params[i].2.clone() };
            let pat = |i: usize| format!("{}{}", if h.params[i].0 { "mut " } else { "" }, h.params[i].1);
            let clash = binds.iter().any(|i| binds.iter().any(|j| i < j && words(&args[*j]).contains(h.params[*i].1.as_str())));
            let pre = if clash {
                format!(
                    "let ({}): ({}) = ({});",
                    binds.iter().map(|i| pat(*i)).collect::<Vec<_>>().join(", "),
                    binds.iter().map(|i| typed(*i)).collect::<Vec<_>>().join(", "),
                    binds.iter().map(|i| args[*i].clone()).collect::<Vec<_>>().join(", ")
                )
            } else {
                binds.iter().map(|i| format!("let {}: {} = {};", pat(*i), typed(*i), args[*i])).collect::<Vec<_>>().join(" ")
            };
            let b = body.trim();
            let simple = !b.contains(';') && !b.contains('{');
            let t = if pre.is_empty() && simple { format!("({b})") } else { format!("{{ {pre} {body} }}") };
            (s, if c.alone.contains(&s) || t.starts_with('(') { t } else { format!("({t})") })
        } else {
            return text;
        };
        text = format!("{}{}{}", &text[..at.0], new, &text[at.1..]);
    }
    text
}

struct Clos {
    name: String,
    stmt: (usize, usize),
    params: Vec<((usize, usize), HashSet<String>, Option<(usize, usize)>)>,
    body: (usize, usize),
    words: HashSet<String>,
}
#[derive(Default)]
struct FindClos {
    fns: Vec<Vec<Clos>>,
    /// per function: calls by name, all uses by name, bindings
    calls: Vec<Vec<(String, (usize, usize), Vec<(usize, usize)>)>>,
    uses: Vec<Vec<(String, usize)>>,
    binds: Vec<Vec<(String, usize)>>,
    open: Vec<usize>,
}
impl FindClos {
    fn enter<'ast>(&mut self, b: &'ast syn::Block) {
        self.fns.push(vec![]);
        self.calls.push(vec![]);
        self.uses.push(vec![]);
        self.binds.push(vec![]);
        self.open.push(self.fns.len() - 1);
        visit::visit_block(self, b);
        self.open.pop();
    }
}
impl<'ast> Visit<'ast> for FindClos {
    fn visit_item_mod(&mut self, m: &'ast syn::ItemMod) {
        if cfg_on(&m.attrs) {
            visit::visit_item_mod(self, m);
        }
    }
    fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) {
        self.enter(&f.block);
    }
    fn visit_impl_item_fn(&mut self, f: &'ast syn::ImplItemFn) {
        self.enter(&f.block);
    }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        if let (Some(&k), Some(i)) = (self.open.last(), &l.init) {
            let pat = if let syn::Pat::Type(t) = &l.pat { &*t.pat } else { &l.pat };
            if let (syn::Pat::Ident(n), syn::Expr::Closure(c), None) = (pat, &*i.expr, &i.diverge) {
                let mut e = Exits(false);
                e.visit_expr(&c.body);
                if c.capture.is_none() && !e.0 {
                    let mut v = vec![];
                    toks(quote::ToTokens::to_token_stream(&c.body), &mut v);
                    let words = v.iter().filter_map(|t| if let TokenTree::Ident(i) = t { Some(i.to_string()) } else { None }).collect();
                    let params = c
                        .inputs
                        .iter()
                        .map(|p| {
                            let (q, ty) = if let syn::Pat::Type(t) = p { (&*t.pat, Some(br(t.ty.span()))) } else { (p, None) };
                            let mut b = PatNames::default();
                            b.visit_pat(q);
                            (br(q.span()), b.0, ty)
                        })
                        .collect();
                    self.fns[k].push(Clos { name: n.ident.to_string(), stmt: br(l.span()), params, body: br(c.body.span()), words });
                }
            }
        }
        visit::visit_local(self, l);
    }
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        if let Some(&k) = self.open.last() {
            self.binds[k].push((p.ident.to_string(), br(p.span()).0));
        }
        visit::visit_pat_ident(self, p);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        visit::visit_expr_call(self, c);
        if let (Some(&k), syn::Expr::Path(p)) = (self.open.last(), &*c.func) {
            if let Some(i) = p.path.get_ident() {
                self.calls[k].push((i.to_string(), br(c.span()), c.args.iter().map(|a| br(a.span())).collect()));
            }
        }
    }
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        if let (Some(&k), Some(i)) = (self.open.last(), p.path.get_ident()) {
            self.uses[k].push((i.to_string(), br(p.span()).0));
        }
        visit::visit_expr_path(self, p);
    }
}
#[derive(Default)]
struct PatNames(HashSet<String>);
impl<'ast> Visit<'ast> for PatNames {
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        self.0.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
}

/// `let f = |p| e;` whose only uses are calls `f(a)`: each call written as `{ let p = a; e }`
fn local_closures(mut text: String) -> String {
    let mut skip: HashSet<String> = HashSet::new();
    for _ in 0..60 {
        if !text.contains("= |") {
            return text;
        }
        let Ok(f) = syn::parse_file(&text) else { return text };
        let mut v = FindClos::default();
        v.visit_file(&f);
        let mut edit = None;
        'all: for k in 0..v.fns.len() {
            for c in &v.fns[k] {
                if skip.contains(&c.name) || v.fns[k].iter().filter(|d| d.name == c.name).count() != 1 {
                    continue;
                }
                let calls: Vec<_> = v.calls[k].iter().filter(|x| x.0 == c.name).collect();
                let uses = v.uses[k].iter().filter(|x| x.0 == c.name).count();
                let rebound = v.binds[k].iter().any(|b| b.1 >= c.stmt.1 && (c.words.contains(&b.0) && !c.params.iter().any(|p| p.1.contains(&b.0)) || b.0 == c.name));
                let inner = calls.iter().any(|x| x.1 .0 >= c.stmt.0 && x.1 .1 <= c.stmt.1);
                if uses != calls.len() || rebound || inner || calls.iter().any(|x| x.2.len() != c.params.len()) {
                    skip.insert(c.name.clone());
                    continue;
                }
                if calls.is_empty() {
                    edit = Some((c.stmt, String::new()));
                    break 'all;
                }
                let x = calls[0];
                let names: HashSet<&str> = c.params.iter().flat_map(|p| p.1.iter().map(|s| s.as_str())).collect();
                let args: Vec<&str> = x.2.iter().map(|&(a, b)| &text[a..b]).collect();
                if args.len() > 1 && args.iter().any(|a| words(a).iter().any(|w| names.contains(w))) && !args.iter().zip(&c.params).all(|(a, p)| *a == &text[p.0 .0..p.0 .1]) {
                    skip.insert(c.name.clone());
                    continue;
                }
                let mut s = String::from("({ ");
                for (a, p) in args.iter().zip(&c.params) {
                    let ty = p.2.map(|(a, b)| format!(": {}", &text[a..b])).unwrap_or_default();
                    s += &format!("let {}{ty} = {a}; ", &text[p.0 .0..p.0 .1]);
                }
                s += &text[c.body.0..c.body.1];
                s += " })";
                edit = Some((x.1, s));
                break 'all;
            }
        }
        let Some((at, new)) = edit else { return text };
        text = format!("{}{}{}", &text[..at.0], new, &text[at.1..]);
    }
    text
}

/// the free functions and constants of a file that the listed tree does not have
pub fn new_items(text: &str, file: &str, known: &HashSet<String>) -> Vec<String> {
    let Ok(f) = syn::parse_file(text) else { return vec![] };
    if known.is_empty() {
        return vec![];
    }
    let new = |n: &syn::Ident| !known.contains(&format!("{file}::{n}"));
    f.items
        .iter()
        .filter_map(|i| match i {
            syn::Item::Fn(f) if new(&f.sig.ident) && cfg_on(&f.attrs) => Some(br(f.span())),
            syn::Item::Const(c) if new(&c.ident) && cfg_on(&c.attrs) => Some(br(c.span())),
            _ => None,
        })
        .map(|(a, b)| text[a..b].to_string())
        .collect()
}
