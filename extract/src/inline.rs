//! `@@inline FILE CALLER CALLEE INSTANCE`: the caller with its call of CALLEE replaced by CALLEE's body.
//! Closure literals passed as arguments are applied where the callee calls them (beta reduction), function items are
//! named where the callee calls them, other arguments are bound to the callee's parameters by `let`.
//! Names bound in the callee that the closures also use are renamed.
use crate::{br, Res};
use proc_macro2::{TokenStream, TokenTree};
use std::collections::{HashMap, HashSet};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

struct FindCall<'a> {
    name: &'a str,
    found: Vec<((usize, usize), Vec<syn::Expr>)>,
}
impl<'ast, 'a> Visit<'ast> for FindCall<'a> {
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        if m.method == self.name {
            if let syn::Expr::Path(p) = &*m.receiver {
                if p.path.is_ident("self") {
                    self.found.push((br(m.span()), m.args.iter().cloned().collect()));
                }
            }
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" && p.path.segments[1].ident == self.name {
                self.found.push((br(c.span()), c.args.iter().cloned().collect()));
            }
        }
        visit::visit_expr_call(self, c);
    }
}

struct ParamCalls<'a> {
    names: &'a HashSet<String>,
    found: Vec<(String, (usize, usize), (usize, usize), Vec<(usize, usize)>)>,
}
impl<'ast, 'a> Visit<'ast> for ParamCalls<'a> {
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            if let Some(i) = p.path.get_ident() {
                if self.names.contains(&i.to_string()) {
                    self.found.push((i.to_string(), br(c.span()), br(p.span()), c.args.iter().map(|a| br(a.span())).collect()));
                }
            }
        }
        visit::visit_expr_call(self, c);
    }
}

fn idents(ts: TokenStream, out: &mut Vec<(String, (usize, usize), bool)>, prev_dot: &mut bool) {
    for t in ts {
        match t {
            TokenTree::Ident(i) => {
                out.push((i.to_string(), br(i.span()), *prev_dot));
                *prev_dot = false;
            }
            TokenTree::Group(g) => {
                *prev_dot = false;
                idents(g.stream(), out, prev_dot);
                *prev_dot = false;
            }
            TokenTree::Punct(p) => *prev_dot = p.as_char() == '.',
            _ => *prev_dot = false,
        }
    }
}

struct Bound(HashSet<String>);
impl<'ast> Visit<'ast> for Bound {
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        self.0.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
}

fn apply(text: &str, range: (usize, usize), mut ed: Vec<((usize, usize), String)>) -> String {
    ed.sort();
    let mut out = String::new();
    let mut p = range.0;
    for ((a, b), t) in ed {
        if a < p || b > range.1 {
            continue;
        }
        out += &text[p..a];
        out += &t;
        p = b;
    }
    out + &text[p..range.1]
}

pub fn expand(text: &str, ty: &str, vis: &str, caller: (&syn::Signature, &syn::Block), callee: (&syn::Signature, &syn::Block), name: &str) -> Res<String> {
    let mut fc = FindCall { name, found: vec![] };
    fc.visit_block(caller.1);
    if fc.found.len() != 1 {
        return Err(format!("{} calls of {name}", fc.found.len()));
    }
    let (call, args) = &fc.found[0];
    let params: Vec<&syn::PatType> = callee.0.inputs.iter().filter_map(|a| if let syn::FnArg::Typed(p) = a { Some(p) } else { None }).collect();
    if params.len() != args.len() {
        return Err("argument count".into());
    }
    let t = |s: (usize, usize)| text[s.0..s.1].to_string();
    let mut closures: HashMap<String, &syn::ExprClosure> = HashMap::new();
    let mut items: HashMap<String, String> = HashMap::new();
    let mut lets = vec![];
    let generic: HashSet<String> = callee.0.generics.type_params().map(|g| g.ident.to_string()).collect();
    for (p, a) in params.iter().zip(args) {
        let syn::Pat::Ident(id) = &*p.pat else { return Err("parameter pattern".into()) };
        let n = id.ident.to_string();
        match a {
            syn::Expr::Closure(c) => {
                closures.insert(n, c);
            }
            syn::Expr::Path(q) if q.path.segments.len() == 2 && q.path.segments[0].ident == "Self" => {
                items.insert(n, t(br(q.span())));
            }
            _ => {
                let tys = t(br(p.ty.span()));
                let mut g = false;
                let mut v = vec![];
                idents(quote_tokens(&p.ty), &mut v, &mut false);
                for (i, _, _) in &v {
                    g |= generic.contains(i);
                }
                lets.push((id.mutability.is_some(), n, if g { String::new() } else { format!(": {tys}") }, t(br(a.span()))));
            }
        }
    }
    // names the closures use that the callee binds
    let mut bound = Bound(HashSet::new());
    bound.visit_block(callee.1);
    for l in &lets {
        bound.0.insert(l.1.clone());
    }
    let mut used = HashSet::new();
    for c in closures.values() {
        let mut cp = Bound(HashSet::new());
        for i in &c.inputs {
            cp.visit_pat(i);
        }
        let mut v = vec![];
        idents(quote_tokens(&*c.body), &mut v, &mut false);
        for (i, _, dot) in v {
            if !dot && !cp.0.contains(&i) {
                used.insert(i);
            }
        }
    }
    let rename: HashSet<String> = bound.0.intersection(&used).cloned().collect();
    // the callee's body
    let names: HashSet<String> = closures.keys().chain(items.keys()).cloned().collect();
    let mut pc = ParamCalls { names: &names, found: vec![] };
    pc.visit_block(callee.1);
    let mut ren = vec![];
    let mut v = vec![];
    idents(quote_tokens(callee.1), &mut v, &mut false);
    for (i, s, dot) in v {
        if !dot && rename.contains(&i) {
            ren.push((s, format!("{i}_in")));
        }
    }
    let mut ed = ren.clone();
    for (n, whole, f, a) in &pc.found {
        if let Some(path) = items.get(n) {
            ed.push((*f, path.clone()));
            continue;
        }
        let c = closures[n];
        if c.inputs.len() != a.len() {
            return Err("closure arity".into());
        }
        let mut s = String::from("{ ");
        for (p, x) in c.inputs.iter().zip(a) {
            s += &format!("let {} = {}; ", t(br(p.span())), apply(text, *x, ren.clone()));
        }
        s += &t(br(c.body.span()));
        s += " }";
        ed.retain(|(r, _)| r.0 < whole.0 || r.1 > whole.1);
        ed.push((*whole, s));
    }
    let body = apply(text, br(callee.1.span()), ed);
    let mut pre = String::from("{ ");
    let nm = |n: &str| if rename.contains(n) { format!("{n}_in") } else { n.to_string() };
    let clash = lets.iter().enumerate().any(|(i, l)| lets[i + 1..].iter().any(|m| m.3.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == nm(&l.1)) && l.3 != l.1));
    if clash {
        return Err("argument names clash".into());
    }
    for (m, n, ty, x) in &lets {
        pre += &format!("let {}{}{} = {}; ", if *m { "mut " } else { "" }, nm(n), ty, x);
    }
    let inner = body.trim().strip_prefix('{').and_then(|b| b.strip_suffix('}')).ok_or("body")?.to_string();
    let exp = format!("{pre}{inner} }}");
    let mut v = vec![];
    idents(quote_tokens(callee.1), &mut v, &mut false);
    let has_return = v.iter().any(|x| x.0 == "return");
    if has_return && !matches!(caller.1.stmts.last(), Some(syn::Stmt::Expr(e, None)) if br(e.span()) == *call) {
        return Err("callee returns early and the call is not in tail position".into());
    }
    // in tail position the block's statements become the caller's
    let out = if matches!(caller.1.stmts.last(), Some(syn::Stmt::Expr(e, None)) if br(e.span()) == *call) {
        let e = exp.strip_prefix('{').and_then(|b| b.strip_suffix('}')).unwrap().to_string();
        apply(text, br(caller.1.span()), vec![(*call, e)])
    } else {
        apply(text, br(caller.1.span()), vec![(*call, exp)])
    };
    Ok(format!("impl {ty} {{ {vis} {} {out} }}", t(br(caller.0.span()))))
}

fn quote_tokens<T: quote::ToTokens>(x: &T) -> TokenStream {
    x.to_token_stream()
}
