//! Span based edits of one function body.
use crate::{br, cfg_on};
use std::collections::HashSet;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

pub struct Edit {
    at: usize,
    end: usize,
    prio: i32,
    text: String,
}

pub struct LoopInfo {
    header: usize,
    body: usize,
    bodyend: usize,
    start: usize,
    after: usize,
    pub needs_spec: bool,
}

struct IfInfo {
    then: (usize, usize),
    els: Option<(usize, usize)>,
}

pub struct Rewriter<'s> {
    text: &'s str,
    edits: Vec<Edit>,
    pub loops: Vec<LoopInfo>,
    ifs: Vec<IfInfo>,
    lets: Vec<(String, usize, usize)>,
    calls: Vec<(String, usize, usize)>,
    rets: Vec<usize>,
    matches: Vec<Vec<Option<(usize, usize)>>>,
    block: (usize, usize, Option<(usize, usize)>),
    stmts: Vec<(usize, usize, HashSet<String>)>,
    pub notes: Vec<String>,
    pub mut_self: bool,
    pub cow: bool,
    pub closure_ty: Option<String>,
    /// std iterator adapters are written as calls of functions with contracts
    pub iterad: bool,
    pub collect_src: bool,
    pub closures: Vec<(usize, usize, usize, String)>,
    pub next_loops: Vec<usize>,
    opt_map: Vec<(usize, usize)>,
    pub all_opt_map: bool,
    pub noderef: bool,
    pub derefs: HashSet<String>,
    pub range_params: HashSet<String>,
    pub into_u64: bool,
    mins: usize,
    fn_ptrs: HashSet<String>,
}

fn expr_attrs(e: &syn::Expr) -> &[syn::Attribute] {
    use syn::Expr::*;
    match e {
        If(x) => &x.attrs,
        Block(x) => &x.attrs,
        MethodCall(x) => &x.attrs,
        Call(x) => &x.attrs,
        ForLoop(x) => &x.attrs,
        While(x) => &x.attrs,
        Loop(x) => &x.attrs,
        Return(x) => &x.attrs,
        Match(x) => &x.attrs,
        Assign(x) => &x.attrs,
        Unsafe(x) => &x.attrs,
        Binary(x) => &x.attrs,
        Cast(x) => &x.attrs,
        _ => &[],
    }
}

fn pat_idents(p: &syn::Pat, out: &mut Vec<String>) {
    match p {
        syn::Pat::Ident(i) => out.push(i.ident.to_string()),
        syn::Pat::Tuple(t) => t.elems.iter().for_each(|e| pat_idents(e, out)),
        syn::Pat::Type(t) => pat_idents(&t.pat, out),
        syn::Pat::Reference(r) => pat_idents(&r.pat, out),
        syn::Pat::TupleStruct(t) => t.elems.iter().for_each(|e| pat_idents(e, out)),
        _ => {}
    }
}

impl<'s> Rewriter<'s> {
    pub fn new(text: &'s str) -> Self {
        Rewriter {
            text,
            edits: vec![],
            loops: vec![],
            ifs: vec![],
            lets: vec![],
            calls: vec![],
            rets: vec![],
            matches: vec![],
            block: (0, 0, None),
            stmts: vec![],
            notes: vec![],
            mut_self: false,
            cow: false,
            closure_ty: None,
            iterad: false,
            collect_src: false,
            closures: vec![],
            next_loops: vec![],
            opt_map: vec![],
            all_opt_map: false,
            noderef: false,
            derefs: HashSet::new(),
            range_params: HashSet::new(),
            into_u64: false,
            mins: 0,
            fn_ptrs: HashSet::new(),
        }
    }

    pub fn insert(&mut self, at: usize, prio: i32, text: String) {
        self.edits.push(Edit { at, end: at, prio, text });
    }

    fn replace(&mut self, at: usize, end: usize, text: String) {
        self.edits.push(Edit { at, end, prio: 50, text });
    }

    fn t(&self, s: proc_macro2::Span) -> String {
        let (a, b) = br(s);
        self.text[a..b].to_string()
    }

    pub fn visit_block_top(&mut self, b: &syn::Block, unit: bool) {
        let (s, e) = br(b.span());
        let tail = match b.stmts.last() {
            Some(syn::Stmt::Expr(x, None)) if !unit && !matches!(x, syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_)) => {
                Some(br(x.span()))
            }
            _ => None,
        };
        self.block = (s, e, tail);
        self.visit_block(b);
    }

    /// text edits for a pattern that binds by reference pattern; returns (pattern text, let-prelude)
    fn pat(&self, p: &syn::Pat, tag: usize) -> (String, String) {
        match p {
            syn::Pat::Reference(r) => {
                if let syn::Pat::Ident(i) = &*r.pat {
                    let m = if i.mutability.is_some() { "mut " } else { "" };
                    return (format!("{}__r{tag}", i.ident), format!("let {m}{} = *{}__r{tag};", i.ident, i.ident));
                }
                (self.t(p.span()), String::new())
            }
            _ => (self.t(p.span()), String::new()),
        }
    }

    /// places a hint; the occurrence number is optional and defaults to 0
    pub fn place(&mut self, anchor: &str, text: &str) -> bool {
        let w: Vec<&str> = anchor.split_whitespace().collect();
        let num = |i: usize| w.get(i).and_then(|x| x.parse::<usize>().ok()).unwrap_or(0);
        let txt = format!("\n{}\n", text.trim_end());
        let at = match w[0] {
            "start" => Some((self.block.0 + 1, 90)),
            "end" => Some((self.block.2.map(|t| t.0).unwrap_or(self.block.1 - 1), 10)),
            "tail" => {
                if let Some((a, b)) = self.block.2 {
                    self.insert(a, 20, "let res__ = ".into());
                    self.insert(b, 80, format!(";{txt}res__"));
                    return true;
                }
                None
            }
            "closure" => {
                // the contract of a closure literal: `//@ closure k` and `-> (o: T) requires .. ensures ..`
                if let Some((s, bs, be, ins)) = self.closures.get(num(1)).cloned() {
                    self.replace(s, bs, format!("|{ins}| {} {{ ", text.trim()));
                    self.insert(be, 60, " }".into());
                    return true;
                }
                None
            }
            "loop" => self.loops.get(num(1)).map(|l| (l.header, 90)),
            "body" => self.loops.get(num(1)).map(|l| (l.body, 95)),
            "bodypre" => self.loops.get(num(1)).map(|l| (l.body, 39)),
            "bodyend" => self.loops.get(num(1)).map(|l| (l.bodyend, 5)),
            "afterloop" => self.loops.get(num(1)).map(|l| (l.after, 90)),
            "beforeloop" => self.loops.get(num(1)).map(|l| (l.start, -5)),
            "after" => self.lets.iter().filter(|l| l.0 == w[1]).nth(num(2)).map(|l| (l.2, 90)),
            "before" => self.lets.iter().filter(|l| l.0 == w[1]).nth(num(2)).map(|l| (l.1, -5)),
            "aftercall" => self.calls.iter().filter(|l| l.0 == w[1]).nth(num(2)).map(|l| (l.2, 90)),
            "beforecall" => self.calls.iter().filter(|l| l.0 == w[1]).nth(num(2)).map(|l| (l.1, -5)),
            "then" => self.ifs.get(num(1)).map(|i| (i.then.0, 90)),
            "thenend" => self.ifs.get(num(1)).map(|i| (i.then.1, 5)),
            "else" => self.ifs.get(num(1)).and_then(|i| i.els).map(|i| (i.0, 90)),
            "elseend" => self.ifs.get(num(1)).and_then(|i| i.els).map(|i| (i.1, 5)),
            "ret" => self.rets.get(num(1)).map(|r| (*r, -5)),
            "arm" => self.matches.get(num(1)).and_then(|m| m.get(num(2)).copied().flatten()).map(|a| (a.0, 90)),
            _ => None,
        };
        match at {
            Some((p, prio)) => {
                self.insert(p, prio, txt);
                true
            }
            None => false,
        }
    }

    pub fn apply(&mut self, a: usize, b: usize) -> String {
        let mut ed: Vec<(usize, &Edit)> = self.edits.iter().enumerate().filter(|(_, e)| e.at >= a && e.end <= b).collect();
        ed.sort_by_key(|(n, e)| (e.at, e.prio, *n));
        let mut out = String::new();
        let mut p = a;
        for (_, e) in ed {
            if e.at < p {
                continue; // inside a replaced range
            }
            out += &self.text[p..e.at];
            out += &e.text;
            p = e.end;
        }
        out + &self.text[p..b]
    }

    fn note(&mut self, s: &str) {
        if !self.notes.iter().any(|n| n == s) {
            self.notes.push(s.to_string());
        }
    }

    fn call_name(&mut self, name: String) {
        if let Some(s) = self.stmts.last_mut() {
            if s.2.insert(name.clone()) {
                let (a, b) = (s.0, s.1);
                self.calls.push((name, a, b));
            }
        }
    }
}

impl<'ast, 's> Visit<'ast> for Rewriter<'s> {
    fn visit_block(&mut self, b: &'ast syn::Block) {
        for s in &b.stmts {
            let (a, e) = br(s.span());
            let attrs: &[syn::Attribute] = match s {
                syn::Stmt::Local(l) => &l.attrs,
                syn::Stmt::Expr(x, _) => expr_attrs(x),
                syn::Stmt::Macro(m) => &m.attrs,
                _ => &[],
            };
            if !cfg_on(attrs) {
                self.replace(a, e, String::new());
                continue;
            }
            for at in attrs {
                let (x, y) = br(at.span());
                self.replace(x, y, String::new());
            }
            // imports of intrinsics: the template provides what they name
            if let syn::Stmt::Item(syn::Item::Use(_)) = s {
                self.replace(a, e, String::new());
                self.note("`use` inside a function body dropped");
                continue;
            }
            // a constant of the function body is bound like a variable
            if let syn::Stmt::Item(syn::Item::Const(k)) = s {
                let (x, y) = br(k.const_token.span);
                self.replace(x, y, "let".into());
                self.lets.push((k.ident.to_string(), a, e));
                self.note("constant of a function body written as a variable");
            }
            if let syn::Stmt::Local(l) = s {
                let mut ids = vec![];
                pat_idents(&l.pat, &mut ids);
                for i in ids {
                    self.lets.push((i, a, e));
                }
            }
            if let syn::Stmt::Expr(syn::Expr::Return(_), _) = s {
                self.rets.push(a);
            }
            self.stmts.push((a, e, HashSet::new()));
            self.visit_stmt(s);
            self.stmts.pop();
        }
    }

    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        if !self.fn_ptrs.is_empty() && p.path.segments.len() == 2 && p.path.segments[0].ident == "PartialOrd" {
            let (a, b) = br(p.span());
            let k = match p.path.segments[1].ident.to_string().as_str() {
                "lt" => "CmpFn::Lt",
                "le" => "CmpFn::Le",
                "gt" => "CmpFn::Gt",
                _ => "CmpFn::Ge",
            };
            self.replace(a, b, k.into());
        }
        if self.mut_self && p.path.is_ident("self") {
            let (a, b) = br(p.span());
            self.replace(a, b, "self_".into());
        }
        visit::visit_expr_path(self, p);
    }

    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        if self.mut_self {
            fn walk(ts: proc_macro2::TokenStream, out: &mut Vec<(usize, usize)>) {
                for t in ts {
                    match t {
                        proc_macro2::TokenTree::Ident(i) if i == "self" => out.push(br(i.span())),
                        proc_macro2::TokenTree::Group(g) => walk(g.stream(), out),
                        _ => {}
                    }
                }
            }
            let mut v = vec![];
            walk(m.tokens.clone(), &mut v);
            for (a, b) in v {
                self.replace(a, b, "self_".into());
            }
        }
        if let Some(s) = m.path.segments.last() {
            // the message of an assertion is evaluated only where the assertion fails, and that it
            // does not fail is an obligation: drop the message
            if s.ident == "assert" || s.ident == "debug_assert" {
                let toks: Vec<_> = m.tokens.clone().into_iter().collect();
                if let Ok(syn::Expr::MethodCall(all)) = syn::parse2::<syn::Expr>(toks.iter().take_while(|t| !matches!(t, proc_macro2::TokenTree::Punct(p) if p.as_char() == ',')).cloned().collect()) {
                    if let (true, syn::Expr::MethodCall(w)) = (all.method == "all" && all.args.len() == 1, &*all.receiver) {
                        let cl: String = self.t(all.args[0].span()).chars().filter(|c| !c.is_whitespace()).collect();
                        let f = match cl.as_str() {
                            "|w|w[0]<=w[1]" => "sorted_u64",
                            "|w|w[0]<w[1]" => "strict_u64",
                            "|w|w[0]!=w[1]" => "adj_distinct_u64",
                            _ => "",
                        };
                        if w.method == "windows" && self.t(w.args[0].span()) == "2" && !f.is_empty() {
                            let (a, b) = br(all.span());
                            let x = self.t(w.receiver.span());
                            self.replace(a, b, format!("{f}({x})"));
                            self.note("`x.windows(2).all(|w| w[0] OP w[1])` written as a call of a verified function with that meaning");
                        }
                    }
                    if all.method == "is_sorted" {
                        let (a, b) = br(all.span());
                        let x = self.t(all.receiver.span());
                        self.replace(a, b, format!("sorted_u64({x})"));
                        self.note("`x.is_sorted()` written as a call of a verified function with that meaning");
                    }
                }
                if let Ok(x) = syn::parse2::<syn::Expr>(toks.iter().take_while(|t| !matches!(t, proc_macro2::TokenTree::Punct(p) if p.as_char() == ',')).cloned().collect()) {
                    let mut f = RangeCalls { params: &self.range_params, found: vec![] };
                    f.visit_expr(&x);
                    for (rs, re, e, m) in f.found {
                        self.insert(rs, -1, format!("range_{m}(&"));
                        self.replace(re, e, ")".into());
                        self.note("`len` and `is_empty` of a Range written as calls of verified functions with that meaning");
                    }
                }
                let comma = toks.iter().position(|t| matches!(t, proc_macro2::TokenTree::Punct(p) if p.as_char() == ','));
                if let Some(c) = comma {
                    let a = br(toks[c].span()).0;
                    let b = br(toks.last().unwrap().span()).1;
                    self.replace(a, b, String::new());
                }
            }
            // assert_eq!(a, b, ..) is assert!(a == b)
            if s.ident == "assert_eq" || s.ident == "debug_assert_eq" {
                let toks: Vec<_> = m.tokens.clone().into_iter().collect();
                let commas: Vec<usize> = toks.iter().enumerate().filter(|(_, t)| matches!(t, proc_macro2::TokenTree::Punct(p) if p.as_char() == ',')).map(|x| x.0).collect();
                if let Some(&c) = commas.first() {
                    let (ps, pe) = br(s.ident.span());
                    self.replace(ps, pe, s.ident.to_string().replace("_eq", ""));
                    let f = br(toks[0].span()).0;
                    self.insert(f, -1, "(".into());
                    let (ca, cb) = br(toks[c].span());
                    self.replace(ca, cb, ") == (".into());
                    let b = br(toks.last().unwrap().span()).1;
                    match commas.get(1) {
                        Some(&d) => self.replace(br(toks[d].span()).0, b, ")".into()),
                        None => self.insert(b, 95, ")".into()),
                    }
                    self.note("`assert_eq!(a, b)` written as `assert!(a == b)`");
                }
            }
            self.call_name(format!("{}!", s.ident));
        }
    }

    fn visit_path(&mut self, p: &'ast syn::Path) {
        // module prefixes are dropped: the extracted items live in one flat name space
        let n = p.segments.len();
        if n > 1 {
            let first = p.segments[0].ident.to_string();
            if first == "crate" || first == "super" {
                let k = (0..n).find(|&k| p.segments[k].ident.to_string().starts_with(char::is_uppercase)).unwrap_or(n - 1);
                let a = br(p.span()).0;
                let b = br(p.segments[k].span()).0;
                self.replace(a, b, String::new());
                self.note("module prefix of a path dropped");
            } else if n == 3 && (first == "std" || first == "core") && p.segments[1].ident == "cmp" && (p.segments[2].ident == "min" || p.segments[2].ident == "max") {
                let (a, b) = (br(p.span()).0, br(p.segments[2].span()).0);
                self.replace(a, b, String::new());
                self.note("module prefix of a path dropped");
            }
        }
        visit::visit_path(self, p);
    }

    fn visit_expr_binary(&mut self, x: &'ast syn::ExprBinary) {
        // order on options
        let is_some = |e: &syn::Expr| matches!(e, syn::Expr::Call(c) if matches!(&*c.func, syn::Expr::Path(p) if p.path.is_ident("Some")));
        if is_some(&x.left) || is_some(&x.right) {
            let f = match x.op {
                syn::BinOp::Gt(_) => "opt_gt",
                syn::BinOp::Ge(_) => "opt_ge",
                syn::BinOp::Lt(_) => "opt_lt",
                syn::BinOp::Le(_) => "opt_le",
                _ => "",
            };
            if !f.is_empty() {
                let (ls, le) = br(x.left.span());
                let (rs, re) = br(x.right.span());
                self.insert(ls, -3, format!("{f}("));
                self.replace(le, rs, ", ".into());
                self.insert(re, 3, ")".into());
                self.note("comparison of options written as a call of the function that defines it");
            }
        }
        for side in [&x.left, &x.right] {
            if let syn::Expr::Path(p) = &**side {
                if p.path.get_ident().is_some_and(|i| self.derefs.contains(&i.to_string())) {
                    let (a, b) = br(p.span());
                    self.insert(a, -2, "(*".into());
                    self.insert(b, 2, ")".into());
                    self.note("operator on a reference written with an explicit dereference");
                }
            }
            if let syn::Expr::MethodCall(u) = &**side {
                if u.method == "unwrap" {
                    if let syn::Expr::MethodCall(l) = &*u.receiver {
                        if !self.noderef && (l.method == "last" || l.method == "first" || l.method == "as_ref") && l.args.is_empty() {
                            let (a, b) = br(u.span());
                            self.insert(a, -2, "(*".into());
                            self.insert(b, 2, ")".into());
                            self.note("operator on a reference written with an explicit dereference");
                        }
                    }
                }
            }
        }
        visit::visit_expr_binary(self, x);
    }

    fn visit_expr_if(&mut self, i: &'ast syn::ExprIf) {
        let (a, b) = br(i.then_branch.span());
        let els = i.else_branch.as_ref().and_then(|(_, e)| {
            if let syn::Expr::Block(b) = &**e {
                let (x, y) = br(b.block.span());
                let tail = block_end(&b.block).unwrap_or(y - 1);
                Some((x + 1, tail))
            } else {
                None
            }
        });
        let te = block_end(&i.then_branch).unwrap_or(b - 1);
        self.ifs.push(IfInfo { then: (a + 1, te), els });
        visit::visit_expr_if(self, i);
    }

    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        if self.iterad {
            let (s, _) = br(c.or1_token.span);
            let (bs, be) = br(c.body.span());
            let ins: Vec<String> = c.inputs.iter().map(|p| format!("{}: usize", self.t(p.span()))).collect();
            self.closures.push((s, bs, be, ins.join(", ")));
            visit::visit_expr(self, &c.body);
            return;
        }
        if let Some(ty) = self.closure_ty.clone() {
            // `|a, b| E` -> `|a: T, b: T| -> (c: T) ensures c == (E) { E }` (E is a pure expression)
            let (s, _) = br(c.or1_token.span);
            let (bs, be) = br(c.body.span());
            let ins: Vec<String> = c.inputs.iter().map(|p| format!("{}: {ty}", self.t(p.span()))).collect();
            let body = self.t(c.body.span());
            self.replace(s, bs, format!("|{}| -> (c__: {ty}) ensures c__ == ({body}) {{ ", ins.join(", ")));
            self.insert(be, 60, " }".into());
            self.note("closure annotated with its own body as contract");
            return;
        }
        self.note("a closure has no contract");
        visit::visit_expr_closure(self, c);
    }

    fn visit_expr_match(&mut self, m: &'ast syn::ExprMatch) {
        let v = m
            .arms
            .iter()
            .map(|a| if let syn::Expr::Block(b) = &*a.body { let (x, y) = br(b.block.span()); Some((x + 1, y - 1)) } else { None })
            .collect();
        self.matches.push(v);
        // `match E { P if G => A, _ => B }` with a plain B: the guard as a conditional in the arm
        if m.arms.len() == 2 && m.arms[1].guard.is_none() && matches!(m.arms[1].pat, syn::Pat::Wild(_)) {
            if let Some((if_tok, g)) = &m.arms[0].guard {
                let b = self.t(m.arms[1].body.span()).to_string();
                let mut names = Names(vec![]);
                names.visit_pat(&m.arms[0].pat);
                let used = b.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| names.0.iter().any(|n| n == w));
                let plain = !b.contains('{') || b.chars().all(|c| c == '{' || c == '}' || c.is_whitespace());
                if plain && !used {
                    let (i0, i1) = br(if_tok.span);
                    let (_, g1) = br(g.span());
                    let (a0, a1) = br(m.arms[0].body.span());
                    self.replace(i0, i1, "=> if ".into());
                    self.replace(g1, a0, " { ".into());
                    self.insert(a1, 61, format!(" }} else {{ {b} }}"));
                    self.note("a match guard written as a conditional in its arm");
                }
            }
        }
        visit::visit_expr_match(self, m);
    }

    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        // min_by(A, B, |x, y| X.cmp(&Y)): the first argument unless the second is smaller
        if let syn::Expr::Path(p) = &*c.func {
            if p.path.segments.last().map(|s| s.ident == "min_by").unwrap_or(false) && c.args.len() == 3 {
                if let syn::Expr::Closure(k) = &c.args[2] {
                    let body = match &*k.body {
                        syn::Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
                            syn::Stmt::Expr(e, None) => e.clone(),
                            _ => (*k.body).clone(),
                        },
                        e => e.clone(),
                    };
                    if let (syn::Expr::MethodCall(m), 2) = (&body, k.inputs.len()) {
                        if let (true, Some(syn::Expr::Reference(rf))) = (m.method == "cmp", m.args.first()) {
                            self.mins += 1;
                            let n = self.mins;
                            let (s, e) = br(c.span());
                            let (a0, a1) = br(c.args[0].span());
                            let (b0, b1) = br(c.args[1].span());
                            let bind = |p: &syn::Pat, v: String| match p {
                                syn::Pat::Reference(r) => format!("let {} = {v};", &self.text[br(r.pat.span()).0..br(r.pat.span()).1]),
                                p => format!("let {} = &{v};", &self.text[br(p.span()).0..br(p.span()).1]),
                            };
                            let bx = bind(&k.inputs[0], format!("m1__{n}"));
                            let by = bind(&k.inputs[1], format!("m2__{n}"));
                            let x = self.t(m.receiver.span());
                            let y = self.t(rf.expr.span());
                            self.replace(s, a0, format!("{{ let m1__{n} = "));
                            self.replace(a1, b0, format!("; let m2__{n} = "));
                            self.replace(b1, e, format!("; {bx} {by} if {x} <= {y} {{ m1__{n} }} else {{ m2__{n} }} }}"));
                            self.note("`min_by(a, b, |x, y| X.cmp(&Y))` written as the comparison that defines it");
                            self.visit_expr(&c.args[0]);
                            self.visit_expr(&c.args[1]);
                            return;
                        }
                    }
                }
            }
        }
        if let syn::Expr::Path(p) = &*c.func {
            if self.into_u64 && self.t(p.span()) == "u64::from" {
                let (a, b) = br(p.span());
                self.replace(a, b, "bool_to_u64".into());
            }
            if self.t(p.span()) == "i64::from" && c.args.len() == 1 {
                let (a, b) = br(p.span());
                let (_, ce) = br(c.span());
                self.replace(a, b, "(".into());
                self.replace(ce - 1, ce, ") as i64)".into());
                self.note("`i64::from(x)` written as the cast it is");
            }
            if let Some(i) = p.path.get_ident() {
                if self.fn_ptrs.contains(&i.to_string()) {
                    let (_, e) = br(c.func.span());
                    self.insert(e, 10, ".call".into());
                }
            }
            if let Some(s) = p.path.segments.last() {
                self.call_name(s.ident.to_string());
            }
        }
        visit::visit_expr_call(self, c);
    }

    fn visit_local(&mut self, l: &'ast syn::Local) {
        // a pointer to a comparison function
        if let syn::Pat::Type(t) = &l.pat {
            if let (syn::Type::BareFn(_), syn::Pat::Ident(i)) = (&*t.ty, &*t.pat) {
                let init = l.init.as_ref().map(|i| self.t(i.expr.span())).unwrap_or_default();
                if init.contains("PartialOrd::") {
                    let (a, b) = br(t.ty.span());
                    self.replace(a, b, "CmpFn".into());
                    self.fn_ptrs.insert(i.ident.to_string());
                    self.note("pointers to PartialOrd::{lt, le, gt, ge} written as a value that names the comparison");
                }
            }
        }
        visit::visit_local(self, l);
    }

    fn visit_expr_cast(&mut self, c: &'ast syn::ExprCast) {
        // E[a..].as_ptr() as *const T: the slice and the offset; E.as_mut_ptr() as *mut T: the array
        if let (syn::Expr::MethodCall(m), syn::Type::Ptr(_)) = (&*c.expr, &*c.ty) {
            let (a, b) = br(c.span());
            if m.method == "as_ptr" {
                if let syn::Expr::Index(ix) = &*m.receiver {
                    if let syn::Expr::Range(r) = &*ix.index {
                        if let (Some(lo), None) = (&r.start, &r.end) {
                            self.replace(a, b, format!("&{}, {}", self.t(ix.expr.span()), self.t(lo.span())));
                            self.note("pointer argument of an intrinsic written as slice and offset");
                            return;
                        }
                    }
                }
            }
            if m.method == "as_mut_ptr" {
                self.replace(a, b, format!("&mut {}", self.t(m.receiver.span())));
                self.note("pointer argument of an intrinsic written as slice and offset");
                return;
            }
        }
        // (E as f64).log2().ceil() as usize
        if let syn::Expr::MethodCall(ce) = &*c.expr {
            if let (true, syn::Expr::MethodCall(lg)) = (ce.method == "ceil", &*ce.receiver) {
                if let (true, syn::Expr::Cast(x)) = (lg.method == "log2", strip(&lg.receiver)) {
                    if self.t(x.ty.span()) == "f64" {
                        let (a, b) = br(c.span());
                        let inner = match strip(&x.expr) {
                            syn::Expr::Call(k) if self.t(k.func.span()) == "max" && k.args.len() == 2 => {
                                format!("max_u64({} as u64, {} as u64)", self.t(k.args[0].span()), self.t(k.args[1].span()))
                            }
                            _ => format!("({}) as u64", self.t(x.expr.span())),
                        };
                        let ty = self.t(c.ty.span());
                        self.replace(a, b, format!("(f64_ceil_log2({inner}) as {ty})"));
                        self.note("`(x as f64).log2().ceil()` written as a call of a function with an assumed contract");
                        return;
                    }
                }
            }
        }
        visit::visit_expr_cast(self, c);
    }

    fn visit_expr_while(&mut self, w: &'ast syn::ExprWhile) {
        let (s, e) = br(w.span());
        let (a, b) = br(w.body.span());
        self.loops.push(LoopInfo { header: a, body: a + 1, bodyend: b - 1, start: s, after: e, needs_spec: true });
        visit::visit_expr_while(self, w);
    }

    fn visit_expr_loop(&mut self, w: &'ast syn::ExprLoop) {
        let (s, e) = br(w.span());
        let (a, b) = br(w.body.span());
        self.loops.push(LoopInfo { header: a, body: a + 1, bodyend: b - 1, start: s, after: e, needs_spec: true });
        visit::visit_expr_loop(self, w);
    }

    fn visit_expr_for_loop(&mut self, w: &'ast syn::ExprForLoop) {
        let n = self.loops.len();
        let (s, e) = br(w.span());
        let (a, b) = br(w.body.span());
        self.loops.push(LoopInfo { header: a, body: a + 1, bodyend: b - 1, start: s, after: e, needs_spec: true });
        let (ps, pe) = br(w.pat.span());
        let (_, ee) = br(w.expr.span());
        // (a..b).step_by(c)
        if let syn::Expr::MethodCall(m) = &*w.expr {
            if m.method == "step_by" {
                if let (syn::Expr::Paren(p), syn::Pat::Ident(id)) = (&*m.receiver, &*w.pat) {
                    if let syn::Expr::Range(r) = &*p.expr {
                        if let (Some(lo), Some(hi), syn::RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                            let x = &id.ident;
                            let (lo, hi, st) = (self.t(lo.span()), self.t(hi.span()), self.t(m.args[0].span()));
                            self.replace(
                                s,
                                ee,
                                format!("{{ let {x}__hi = {hi}; let mut {x}__s = {lo}; while {x}__s < {x}__hi "),
                            );
                            self.insert(a + 1, 40, format!(" let {x} = {x}__s; {x}__s = {x}__s.saturating_add({st}); "));
                            self.insert(e, 40, " }".into());
                            self.note("`for x in (a..b).step_by(c)` written as a while loop");
                            self.visit_block(&w.body);
                            return;
                        }
                    }
                }
            }
            // (a..b).step_by(c).rev()
            if m.method == "rev" {
                if let (syn::Expr::MethodCall(sb), syn::Pat::Ident(id)) = (&*m.receiver, &*w.pat) {
                    if let (true, syn::Expr::Paren(p)) = (sb.method == "step_by", &*sb.receiver) {
                        if let syn::Expr::Range(r) = &*p.expr {
                            if let (Some(lo), Some(hi), syn::RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                                let x = &id.ident;
                                let (lo, hi, st) = (self.t(lo.span()), self.t(hi.span()), self.t(sb.args[0].span()));
                                self.replace(
                                    s,
                                    ee,
                                    format!("; {{ let {x}__lo = {lo}; let {x}__hi = {hi}; let mut {x}__n: usize = if {x}__hi > {x}__lo {{ ({x}__hi - {x}__lo).div_ceil({st}) }} else {{ 0 }}; while {x}__n > 0 "),
                                );
                                self.insert(a + 1, 40, format!(" {x}__n = {x}__n - 1; let {x} = {x}__lo + {x}__n * ({st}); "));
                                self.insert(e, 40, " }".into());
                                self.note("`for x in (a..b).step_by(c).rev()` written as a while loop");
                                self.visit_block(&w.body);
                                return;
                            }
                        }
                    }
                }
            }
            // E.iter().enumerate().rev()
            if m.method == "rev" {
                if let (syn::Expr::MethodCall(en), syn::Pat::Tuple(t)) = (&*m.receiver, &*w.pat) {
                    if let (true, syn::Expr::MethodCall(it)) = (en.method == "enumerate" && t.elems.len() == 2, &*en.receiver) {
                        if it.method == "iter" {
                            let recv = self.t(it.receiver.span());
                            let i = self.t(t.elems[0].span());
                            let p = self.t(t.elems[1].span());
                            self.replace(ps, ee, format!("rev__{n} in 0..{recv}.len() "));
                            self.insert(a + 1, 40, format!(" let {i} = {recv}.len() - 1 - rev__{n}; let {p} = &{recv}[{i}]; "));
                            self.note("`iter().enumerate().rev()` written as an index loop");
                            self.visit_block(&w.body);
                            return;
                        }
                    }
                }
            }
            // (a..b).rev()
            if m.method == "rev" {
                if let (syn::Expr::Paren(p), syn::Pat::Ident(id)) = (&*m.receiver, &*w.pat) {
                    if let syn::Expr::Range(r) = &*p.expr {
                        if let (Some(lo), Some(hi), syn::RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                            let x = &id.ident;
                            let (lo, hi) = (self.t(lo.span()), self.t(hi.span()));
                            self.replace(s, ee, format!("; {{ let {x}__lo = {lo}; let mut {x}__s = {hi}; while {x}__s > {x}__lo "));
                            self.insert(a + 1, 40, format!(" {x}__s = {x}__s - 1; let {x} = {x}__s; "));
                            self.insert(e, 40, " }".into());
                            self.note("`for x in (a..b).rev()` written as a while loop");
                            self.visit_block(&w.body);
                            return;
                        }
                    }
                }
            }
            // E.iter_mut().enumerate()
            if m.method == "enumerate" {
                if let (syn::Expr::MethodCall(it), syn::Pat::Tuple(t)) = (&*m.receiver, &*w.pat) {
                    if it.method == "iter_mut" && t.elems.len() == 2 {
                        let recv = self.t(it.receiver.span());
                        let i = self.t(t.elems[0].span());
                        let p = self.t(t.elems[1].span());
                        self.insert(s, 30, format!("; {{ let hi__{n} = {recv}.len(); "));
                        self.insert(e, 40, " }".into());
                        self.replace(ps, ee, format!("{i} in 0..hi__{n} "));
                        self.insert(a + 1, 40, format!(" let {p} = &mut {recv}[{i}]; "));
                        self.note("`iter_mut().enumerate()` written as an index loop");
                        self.visit_block(&w.body);
                        return;
                    }
                }
            }
            // E.iter().skip(k)
            if m.method == "skip" {
                if let syn::Expr::MethodCall(it) = &*m.receiver {
                    if it.method == "iter" {
                        let recv = self.t(it.receiver.span());
                        let k = self.t(m.args[0].span());
                        let p = match &*w.pat {
                            syn::Pat::Reference(r) => format!(" let {} = {recv}[i__{n}]; ", self.t(r.pat.span())),
                            p => format!(" let {} = &{recv}[i__{n}]; ", self.t(p.span())),
                        };
                        self.replace(ps, ee, format!("i__{n} in {k}..{recv}.len() "));
                        self.insert(a + 1, 40, p);
                        self.note("`iter().skip(k)` written as an index loop");
                        self.visit_block(&w.body);
                        return;
                    }
                }
            }
            // E.iter().enumerate() [.skip(k)|.take(k)] with pattern (i, p)
            let (m, lo, hi) = match m.method.to_string().as_str() {
                "skip" => match &*m.receiver {
                    syn::Expr::MethodCall(r) => (r, self.t(m.args[0].span()), None),
                    _ => (m, "0".into(), None),
                },
                "take" => match &*m.receiver {
                    syn::Expr::MethodCall(r) => (r, "0".into(), Some(self.t(m.args[0].span()))),
                    _ => (m, "0".into(), None),
                },
                _ => (m, "0".into(), None),
            };
            if m.method == "enumerate" {
                if let (syn::Expr::MethodCall(it), syn::Pat::Tuple(t)) = (&*m.receiver, &*w.pat) {
                    if it.method == "iter" && t.elems.len() == 2 {
                        let recv = self.t(it.receiver.span());
                        let i = self.t(t.elems[0].span());
                        let iname = if i == "_" { format!("i__{n}") } else { i };
                        let bind = match &t.elems[1] {
                            syn::Pat::Reference(r) => format!(" let {} = {recv}[{iname}]; ", self.t(r.pat.span())),
                            p => format!(" let {} = &{recv}[{iname}]; ", self.t(p.span())),
                        };
                        let top = match hi {
                            Some(h) => format!("core::cmp::min({h}, {recv}.len())"),
                            None => format!("{recv}.len()"),
                        };
                        self.replace(ps, ee, format!("{iname} in {lo}..{top} "));
                        self.insert(a + 1, 40, bind);
                        self.note("`iter().enumerate()` written as an index loop");
                        self.visit_block(&w.body);
                        return;
                    }
                }
            }
            // E.iter().zip / copied: `for x in E.iter().copied()` -> `for x__r in E.iter() { let x = *x__r; }`
            if m.method == "copied" {
                if let syn::Pat::Ident(id) = &*w.pat {
                    let x = &id.ident;
                    let recv = self.t(m.receiver.span());
                    self.replace(ps, ee, format!("{x}__r in it__{n}: {recv} "));
                    self.insert(a + 1, 40, format!(" let {x} = *{x}__r; "));
                    self.note("`iter().copied()` loop variable dereferenced");
                    self.visit_block(&w.body);
                    return;
                }
            }
        }
        // the definition of `for` over an iterator of this crate
        if self.next_loops.contains(&n) {
            let pat = self.t(w.pat.span());
            match strip(&w.expr) {
                syn::Expr::MethodCall(m) if m.method == "enumerate" => {
                    let x = self.t(m.receiver.span());
                    self.replace(s, ee, format!("{{ let mut it__{n} = {x}; let mut en__{n}: usize = 0; loop "));
                    self.insert(a + 1, 40, format!(" let v__{n} = match it__{n}.next() {{ Some(v__) => v__, None => break }}; let {pat} = (en__{n}, v__{n}); en__{n} += 1; "));
                }
                _ => {
                    let x = self.t(w.expr.span());
                    self.replace(s, ee, format!("{{ let mut it__{n} = {x}; loop "));
                    self.insert(a + 1, 40, format!(" let {pat} = match it__{n}.next() {{ Some(v__) => v__, None => break }}; "));
                }
            }
            self.insert(e, 40, " }".into());
            self.note("`for` over an iterator of this crate written as the loop over `next` that defines it");
            self.visit_block(&w.body);
            return;
        }
        // a computed upper bound gets a name (it is evaluated once either way)
        if let syn::Expr::Range(r) = strip(&w.expr) {
            if let (Some(lo), Some(hi)) = (&r.start, &r.end) {
                if chained(hi) && matches!(&**lo, syn::Expr::Lit(_)) {
                    let (h0, h1) = br(hi.span());
                    let h = self.t(hi.span());
                    self.insert(s, 30, format!("; {{ let hi__{n} = {h}; "));
                    self.replace(h0, h1, format!("hi__{n}"));
                    self.insert(e, 40, " }".into());
                    self.note("the computed upper bound of a range loop is bound to a name");
                    self.visit_block(&w.body);
                    return;
                }
            }
        }
        let (pt, pre) = self.pat(&w.pat, n);
        if !pre.is_empty() {
            self.replace(ps, pe, pt);
            self.insert(a + 1, 40, format!(" {pre} "));
            self.note("reference pattern of a for loop replaced by a dereference");
        }
        if !matches!(strip(&w.expr), syn::Expr::Range(_)) {
            let (es, _) = br(w.expr.span());
            self.insert(es, -10, format!("it__{n}: "));
        }
        visit::visit_expr_for_loop(self, w);
    }

    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        let (_, e) = br(m.span());
        if m.method == "for_each" && m.args.len() == 1 {
            if let syn::Expr::Closure(c) = &m.args[0] {
                if c.inputs.len() == 1 {
                    let n = self.loops.len();
                    let (rs, re) = br(m.receiver.span());
                    let (bs, be) = br(c.body.span());
                    let (pt, pre) = self.pat(&c.inputs[0], n);
                    if let syn::Expr::MethodCall(ch) = &*m.receiver {
                        if ch.method == "chunks" && pre.is_empty() {
                            let x = self.t(ch.receiver.span());
                            let k = self.t(ch.args[0].span());
                            self.replace(rs, bs, format!("{{ let mut ch__{n}: usize = 0; while ch__{n} < {x}.len() "));
                            self.loops.push(LoopInfo { header: bs, body: bs, bodyend: be, start: rs, after: self.stmts.last().map(|x| x.1).unwrap_or(e), needs_spec: true });
                            self.insert(bs, 91, format!(" {{ let hi__{n} = if {x}.len() - ch__{n} > {k} {{ ch__{n} + {k} }} else {{ {x}.len() }}; let {pt} = vstd::slice::slice_subrange({x}.as_slice(), ch__{n}, hi__{n}); ch__{n} = hi__{n}; "));
                            self.replace(be, e, "; } }".into());
                            self.note("`chunks(k).for_each(closure)` written as a loop over the chunks");
                            self.visit_expr(&c.body);
                            return;
                        }
                    }
                    // the definition of `for_each` over an iterator of this crate
                    if self.next_loops.contains(&n) {
                        self.insert(rs, -1, format!("{{ let mut it__{n} = "));
                        self.replace(re, bs, "; loop ".into());
                        self.loops.push(LoopInfo { header: bs, body: bs, bodyend: be, start: rs, after: self.stmts.last().map(|x| x.1).unwrap_or(e), needs_spec: true });
                        self.edits.push(Edit { at: bs, end: bs, prio: 91, text: format!(" {{ let {pt} = match it__{n}.next() {{ Some(v__) => v__, None => break }}; {pre} ") });
                        self.replace(be, e, "; } }".into());
                        self.note("`for_each` over an iterator written as the loop over `next` that defines it");
                        self.visit_expr(&m.receiver);
                        self.visit_expr(&c.body);
                        return;
                    }
                    // optional ".iter()" is kept: Verus iterates over it
                    self.insert(rs, -1, format!("for {pt} in it__{n}: "));
                    self.replace(re, bs, " ".into());
                    self.loops.push(LoopInfo { header: bs, body: bs, bodyend: be, start: rs, after: self.stmts.last().map(|x| x.1).unwrap_or(e), needs_spec: true });
                    self.insert(bs, 95, format!(""));
                    self.edits.push(Edit { at: bs, end: bs, prio: 91, text: format!(" {{ {pre} ") });
                    // the `body` anchor must come after the brace: prio 90 is the header anchor
                    self.replace(be, e, "; }".into());
                    self.note("`iter().for_each(closure)` written as a for loop");
                    self.visit_expr(&m.receiver);
                    self.visit_expr(&c.body);
                    return;
                }
            }
        }
        if m.method == "into_boxed_slice" && m.args.is_empty() {
            let (rs, re) = br(m.receiver.span());
            let (_, e) = br(m.span());
            self.insert(rs, -1, "into_box(".into());
            self.replace(re, e, ")".into());
            self.note("`into_boxed_slice` written as a call of a function with an assumed contract");
            self.visit_expr(&m.receiver);
            return;
        }
        // `iter.into_iter()[.map(Into::into)].collect()` into a vector, for a parameter that is any iterator
        if m.method == "collect" && m.args.is_empty() && m.turbofish.is_none() {
            if let syn::Expr::MethodCall(mp) = &*m.receiver {
                let f = if mp.method == "map" && mp.args.len() == 1 && self.t(mp.args[0].span()) == "Into::into" {
                    Some(("collect_into(", &*mp.receiver))
                } else if mp.method == "into_iter" && mp.args.is_empty() && self.collect_src {
                    Some(("collect_src(", &*m.receiver))
                } else {
                    None
                };
                if let Some((f, x)) = f {
                    let (rs, re) = br(x.span());
                    self.insert(rs, -1, f.into());
                    self.replace(re, e, ")".into());
                    self.note("`collect` of an iterator parameter written as a call of a verified loop over `next`");
                    self.visit_expr(x);
                    return;
                }
            }
        }
        if m.method == "clamp" && m.args.len() == 2 {
            let (rs, re) = br(m.receiver.span());
            let (a0, _) = br(m.args[0].span());
            let (_, a1) = br(m.args[1].span());
            self.insert(rs, -1, "({ let (x__c, l__c, h__c) = (".into());
            self.replace(re, a0, ", ".into());
            self.replace(a1, e, "); assert!(l__c <= h__c); if x__c < l__c { l__c } else if x__c > h__c { h__c } else { x__c } })".into());
            self.note("`x.clamp(lo, hi)` written out by its definition");
            self.visit_expr(&m.receiver);
            for a in &m.args { self.visit_expr(a); }
            return;
        }
        // X.iter().enumerate().min_by_key(|(_, &x)| x): the first index of a minimum
        if m.method == "min_by_key" && m.args.len() == 1 {
            if let (syn::Expr::MethodCall(en), syn::Expr::Closure(c)) = (&*m.receiver, &m.args[0]) {
                if let (true, syn::Expr::MethodCall(it)) = (en.method == "enumerate", &*en.receiver) {
                    let sig: String = self.t(c.span()).chars().filter(|c| !c.is_whitespace()).collect();
                    if it.method == "iter" && sig == "|(_,&x)|x" {
                        let (rs, re) = br(it.receiver.span());
                        if let syn::Expr::Index(ix) = &*it.receiver {
                            if let syn::Expr::Range(r) = &*ix.index {
                                if let (Some(a), Some(b), syn::RangeLimits::Closed(_)) = (&r.start, &r.end, &r.limits) {
                                    let t = format!("slice_incl(&{}, {}, {})", self.t(ix.expr.span()), self.t(a.span()), self.t(b.span()));
                                    self.replace(rs, re, t);
                                }
                            }
                        }
                        self.insert(rs, -1, "min_enum(".into());
                        self.replace(re, e, ")".into());
                        self.note("`x[a..=b].iter().enumerate().min_by_key(|(_, &x)| x)` written as a call of a verified function with that meaning");
                        return;
                    }
                }
            }
        }
        // E.enumerate().filter(|&(I, P)| C).map(|(I2, P2)| X).collect(): the vector of the items, built by the loop that defines it
        if m.method == "collect" {
            if let Some((src, en, f, x)) = filter_map_chain(&m.receiver) {
                let n = self.loops.len();
                let (ms, _) = br(m.span());
                let src = self.t(src.span());
                let fpat = match &f.inputs[0] {
                    syn::Pat::Reference(r) => Some(self.t(r.pat.span())),
                    _ => None,
                };
                if let Some(fpat) = fpat {
                    let xpat = self.t(x.inputs[0].span());
                    let (fs, fe) = br(f.body.span());
                    let (xs, xe) = br(x.body.span());
                    let item = if en { format!("(en__{n}, v__{n})") } else { format!("v__{n}") };
                    let step = if en { format!(" en__{n} += 1;") } else { String::new() };
                    let init = if en { format!("let mut en__{n}: usize = 0;") } else { String::new() };
                    self.replace(ms, fs, format!("{{ let mut items__{n} = Vec::new(); let mut it__{n} = {src}; {init} loop "));
                    self.insert(fs, 91, format!(" {{ let v__{n} = match it__{n}.next() {{ Some(v__) => v__, None => break }};"));
                    self.insert(fs, 99, format!(" let keep__{n} = {{ let {fpat} = {item}; "));
                    self.replace(fe, xs, format!(" }}; if keep__{n} {{ let {xpat} = {item}; items__{n}.push("));
                    self.replace(xe, e, format!("); }}{step}"));
                    self.insert(e, 7, format!(" }} items__{n} }}"));
                    self.loops.push(LoopInfo { header: fs, body: fs, bodyend: e, start: ms, after: self.stmts.last().map(|x| x.1).unwrap_or(e), needs_spec: true });
                    self.visit_expr(&f.body);
                    self.visit_expr(&x.body);
                    self.note("`iter.enumerate().filter(f).map(g).collect()` written as the loop over `next` that defines it");
                    return;
                }
            }
        }
        if self.into_u64 && m.method == "into" && m.args.is_empty() {
            let (rs, re) = br(m.receiver.span());
            self.insert(rs, -1, "bool_to_u64(".into());
            self.replace(re, e, ")".into());
            self.note("conversion of a bool to u64 written as a call of a verified function with that meaning");
            self.visit_expr(&m.receiver);
            return;
        }
        // (A..B).collect(): the vector of the numbers
        if m.method == "collect" && m.args.is_empty() {
            if let syn::Expr::Range(r) = strip(&m.receiver) {
                if let (syn::RangeLimits::HalfOpen(_), Some(a), Some(b)) = (&r.limits, &r.start, &r.end) {
                    let (a, b) = (self.t(a.span()), self.t(b.span()));
                    self.replace(br(m.span()).0, e, format!("range_vec({a}, {b})"));
                    self.note("`(a..b).collect()` written as a call of a verified function with that meaning");
                    return;
                }
            }
            // V.into_iter().map(BitVec::into).collect()
            if let syn::Expr::MethodCall(mp) = &*m.receiver {
                if let (true, syn::Expr::MethodCall(it)) = (mp.method == "map" && mp.args.len() == 1 && self.t(mp.args[0].span()) == "BitVec::into", &*mp.receiver) {
                    if it.method == "into_iter" && it.args.is_empty() {
                        let (rs, re) = br(it.receiver.span());
                        self.insert(rs, -1, "into_levels(".into());
                        self.replace(re, e, ")".into());
                        self.note("`v.into_iter().map(BitVec::into).collect()` written as a call of a verified function with that meaning");
                        return;
                    }
                }
            }
        }
        if m.args.is_empty() && (m.method == "len" || m.method == "is_empty") {
            let is_range = match strip(&m.receiver) {
                syn::Expr::Range(_) => true,
                syn::Expr::Path(p) => p.path.get_ident().map(|i| self.range_params.contains(&i.to_string())).unwrap_or(false),
                _ => false,
            };
            if is_range {
                let (rs, re) = br(m.receiver.span());
                self.insert(rs, -1, format!("range_{}(&", m.method));
                self.replace(re, e, ")".into());
                self.note("`len` and `is_empty` of a Range written as calls of verified functions with that meaning");
                self.visit_expr(&m.receiver);
                return;
            }
        }
        if m.method == "is_some_and" && m.args.len() == 1 {
            if let Some(c) = plain_closure(&m.args[0]) {
                let (rs, re) = br(m.receiver.span());
                let (bs, be) = br(c.body.span());
                let p = self.t(c.inputs[0].span());
                self.insert(rs, -1, "(match ".into());
                self.replace(re, bs, format!(" {{ Some({p}) => "));
                self.replace(be, e, ", None => false })".into());
                self.note("Option combinator with a closure literal written as the match that defines it");
                self.visit_expr(&m.receiver);
                self.visit_expr(&c.body);
                return;
            }
        }
        if m.method == "map" && m.args.len() == 1 {
            if let syn::Expr::Path(p) = &m.args[0] {
                if self.t(p.span()).ends_with("Into::into") {
                    let (rs, re) = br(m.receiver.span());
                    self.insert(rs, -1, "(match ".into());
                    self.replace(re, e, (if self.into_u64 { " { Some(v__) => Some(bool_to_u64(v__)), None => None })" } else { " { Some(v__) => Some(v__.into()), None => None })" }).into());
                    self.note("`map(Into::into)` on an option written as the match that defines it");
                    self.visit_expr(&m.receiver);
                    return;
                }
            }
        }
        // Result::map_or_else(|e| E, Some) and Result::map_or_else(|e| E, |v| V), by their definition
        if m.method == "map_or_else" && m.args.len() == 2 {
            if let Some(c) = plain_closure(&m.args[0]) {
                let (rs, re) = br(m.receiver.span());
                let (bs, be) = br(c.body.span());
                let fail = match c.inputs.len() {
                    0 => "None".to_string(),
                    _ => format!("Err({})", self.t(c.inputs[0].span())),
                };
                let good = if c.inputs.is_empty() { "Some" } else { "Ok" };
                let tail = match (&m.args[1], plain_closure(&m.args[1])) {
                    (syn::Expr::Path(f), _) => {
                        let f = self.t(f.span());
                        self.replace(be, e, format!(", {good}(v__) => {f}(v__) }})"));
                        true
                    }
                    (_, Some(g)) if g.inputs.len() == 1 => {
                        let (gs, ge) = br(g.body.span());
                        let p = self.t(g.inputs[0].span());
                        self.replace(be, gs, format!(", {good}({p}) => "));
                        self.replace(ge, e, " })".into());
                        self.visit_expr(&g.body);
                        true
                    }
                    _ => false,
                };
                if tail {
                    self.insert(rs, -1, "(match ".into());
                    self.replace(re, bs, format!(" {{ {fail} => "));
                    self.note("`map_or_else` with closure literals written as the match that defines it");
                    self.visit_expr(&m.receiver);
                    self.visit_expr(&c.body);
                    return;
                }
            }
        }
        // further combinators with closure literals, by their definition
        if let Some(c) = m.args.last().and_then(plain_closure) {
            let name = m.method.to_string();
            let (rs, re) = br(m.receiver.span());
            let (bs, be) = br(c.body.span());
            let n = (name.as_str(), m.args.len(), c.inputs.len());
            let (pre, post) = match n {
                ("filter", 1, 1) if !iterlike(&m.receiver) => {
                    let p = self.t(c.inputs[0].span());
                    let bind = match &c.inputs[0] {
                        syn::Pat::Reference(r) => format!("let {} = v__;", self.t(r.pat.span())),
                        _ => format!("let {p} = &v__;"),
                    };
                    (format!(" {{ Some(v__) => if {{ {bind} "), " } { Some(v__) } else { None }, None => None })".to_string())
                }
                ("is_none_or", 1, 1) => (format!(" {{ Some({}) => ", self.t(c.inputs[0].span())), ", None => true })".to_string()),
                ("map_or", 2, 1) => {
                    let d = self.t(m.args[0].span());
                    (format!(" {{ Some({}) => ", self.t(c.inputs[0].span())), format!(", None => {d} }})"))
                }
                ("unwrap_or_else", 1, 0) => (" { Some(v__) => v__, None => ".to_string(), " })".to_string()),
                ("or_else", 1, 0) => (" { Some(v__) => Some(v__), None => ".to_string(), " })".to_string()),
                ("ok_or_else", 1, 0) => (" { Some(v__) => Ok(v__), None => Err(".to_string(), ") })".to_string()),
                ("then", 1, 0) => (" { true => Some(".to_string(), "), false => None })".to_string()),
                _ => (String::new(), String::new()),
            };
            // the default of `map_or` is evaluated first and must not matter when
            let plain_arg = n.0 != "map_or" || matches!(m.args[0], syn::Expr::Lit(_) | syn::Expr::Path(_) | syn::Expr::Field(_));
            if !pre.is_empty() && plain_arg {
                self.insert(rs, -1, "(match ".into());
                self.replace(re, bs, pre);
                self.replace(be, e, post);
                self.note("combinator with a closure literal written as the match that defines it");
                self.visit_expr(&m.receiver);
                self.visit_expr(&c.body);
                return;
            }
        }
        // Option combinators with a closure literal, by their definition
        if m.args.len() == 1 {
            if let Some(c) = plain_closure(&m.args[0]) {
                let name = m.method.to_string();
                let is_opt_map = name == "map" && (self.all_opt_map || !self.iterad && !iterlike(&m.receiver)) || name == "map" && self.opt_map.contains(&(br(m.span()).0, br(m.span()).1));
                if (name == "and_then" || is_opt_map) && c.inputs.len() == 1 {
                    let (rs, re) = br(m.receiver.span());
                    let (bs, be) = br(c.body.span());
                    let p = self.t(c.inputs[0].span());
                    self.insert(rs, -1, "(match ".into());
                    let (o, cl) = if is_opt_map { ("Some(", ")") } else { ("", "") };
                    self.replace(re, bs, format!(" {{ Some({p}) => {o}"));
                    self.replace(be, e, format!("{cl}, None => None }})"));
                    self.note("Option combinator with a closure literal written as the match that defines it");
                    self.visit_expr(&m.receiver);
                    self.visit_expr(&c.body);
                    return;
                }
            }
        }
        // X.skip(n), X.take(n), X.map(f)
        if self.iterad && m.args.len() == 1 && (m.method == "skip" || m.method == "take" || m.method == "map") {
            let (rs, re) = br(m.receiver.span());
            let (a0, _) = br(m.args[0].span());
            let n = m.method.to_string();
            self.insert(rs, -1, format!("iter_{n}("));
            self.replace(re, a0, ", ".into());
            self.note("std iterator adapters `skip`, `take`, `map` written as calls of functions whose contracts state the documented meaning");
            self.visit_expr(&m.receiver);
            self.visit_expr(&m.args[0]);
            return;
        }
        // X.try_into().unwrap_or(literal), by its definition
        if m.method == "unwrap_or" && m.args.len() == 1 {
            if let (syn::Expr::MethodCall(mp), syn::Expr::Lit(_)) = (&*m.receiver, &m.args[0]) {
                if mp.method == "try_into" {
                    let (rs, re) = br(m.receiver.span());
                    let lit = self.t(m.args[0].span());
                    self.insert(rs, -1, "(match ".into());
                    self.replace(re, e, format!(" {{ Ok(v__) => v__, Err(_) => {lit} }})"));
                    self.note("`try_into().unwrap_or(literal)` written as the match that defines it");
                    self.visit_expr(&m.receiver);
                    return;
                }
            }
        }
        if m.method.to_string().starts_with("unwrap_or") {
            if let syn::Expr::MethodCall(mp) = &*m.receiver {
                if mp.method == "map" {
                    self.opt_map.push(br(mp.span()));
                }
            }
        }
        // A.iter().zip(B.iter()).any(|(a, b)| E)
        if m.method == "any" && m.args.len() == 1 {
            if let (syn::Expr::MethodCall(z), syn::Expr::Closure(c)) = (&*m.receiver, &m.args[0]) {
                if let (true, syn::Expr::MethodCall(ia), Some(syn::Expr::MethodCall(ib)), Some(syn::Pat::Tuple(t))) =
                    (z.method == "zip", &*z.receiver, z.args.first(), c.inputs.first())
                {
                    if ia.method == "iter" && ib.method == "iter" && t.elems.len() == 2 {
                        let n = self.loops.len();
                        let a = self.t(ia.receiver.span());
                        let b = self.t(ib.receiver.span());
                        let (a1, b1) = (self.t(t.elems[0].span()), self.t(t.elems[1].span()));
                        let (ms, _) = br(m.span());
                        let (bs, be) = br(c.body.span());
                        self.replace(ms, bs, format!("{{ let a__{n} = &{a}; let b__{n} = &{b}; let mut any__{n} = false; for i__{n} in 0..min(a__{n}.len(), b__{n}.len()) "));
                        self.loops.push(LoopInfo { header: bs, body: bs, bodyend: be, start: ms, after: e, needs_spec: true });
                        self.insert(bs, 91, format!(" {{ let {a1} = a__{n}[i__{n}]; let {b1} = b__{n}[i__{n}]; "));
                        self.insert(bs, 99, "if ".into());
                        self.replace(be, e, format!(" {{ any__{n} = true; }} }} any__{n} }}"));
                        self.note("`a.iter().zip(b.iter()).any(pure closure)` written as a loop over all pairs, items by value");
                        self.visit_expr(&c.body);
                        return;
                    }
                }
            }
        }
        // A.iter().zip(&B).map(|(&a, &b)| E)  ->  the vector of its items
        if m.method == "map" && m.args.len() == 1 {
            if let (syn::Expr::MethodCall(z), syn::Expr::Closure(c)) = (&*m.receiver, &m.args[0]) {
                if let (true, syn::Expr::MethodCall(it)) = (z.method == "zip", &*z.receiver) {
                    if let (syn::Expr::Reference(bx), Some(syn::Pat::Tuple(t))) = (&z.args[0], c.inputs.first()) {
                        if let (true, syn::Pat::Reference(pa), syn::Pat::Reference(pb)) = (it.method == "iter", &t.elems[0], &t.elems[1]) {
                            let n = self.loops.len();
                            let a = self.t(it.receiver.span());
                            let b = self.t(bx.expr.span());
                            let (a1, b1) = (self.t(pa.pat.span()), self.t(pb.pat.span()));
                            let (ms, _) = br(m.span());
                            let (bs, be) = br(c.body.span());
                            self.replace(ms, bs, format!("{{ let mut items__{n} = Vec::new(); for i__{n} in 0..min({a}.len(), {b}.len()) "));
                            self.loops.push(LoopInfo { header: bs, body: bs, bodyend: be, start: ms, after: e, needs_spec: true });
                            self.insert(bs, 91, format!(" {{ let {a1} = {a}[i__{n}]; let {b1} = {b}[i__{n}]; "));
                            self.insert(bs, 99, format!("items__{n}.push("));
                            self.replace(be, e, format!("); }} items__{n} }}"));
                            self.note("`a.iter().zip(&b).map(closure)` evaluated eagerly into the vector of its items");
                            self.visit_expr(&c.body);
                            return;
                        }
                    }
                }
            }
        }
        if m.method == "sum" {
            if let syn::Expr::MethodCall(mp) = &*m.receiver {
                if mp.method == "map" && mp.args.len() == 1 {
                    if let syn::Expr::Closure(c) = &mp.args[0] {
                        if c.inputs.len() == 1 {
                            let n = self.loops.len();
                            let (rs, re) = br(mp.receiver.span());
                            let (bs, be) = br(c.body.span());
                            if let syn::Expr::MethodCall(tk) = &*mp.receiver {
                                if tk.method == "take" {
                                    // a materialised sequence (see "impl Iterator results")
                                    let (r0, r1) = br(tk.receiver.span());
                                    let cnt = self.t(tk.args[0].span());
                                    let p = self.t(c.inputs[0].span());
                                    self.insert(r0, -1, format!("{{ let seq__{n} = "));
                                    self.replace(r1, bs, format!("; let mut sum__{n} = 0; for i__{n} in 0..min({cnt}, seq__{n}.len()) "));
                                    self.loops.push(LoopInfo { header: bs, body: bs, bodyend: be, start: rs, after: e, needs_spec: true });
                                    self.insert(bs, 91, format!(" {{ let {p} = seq__{n}[i__{n}]; "));
                                    self.insert(bs, 99, format!("sum__{n} += "));
                                    self.replace(be, e, format!("; }} sum__{n} }}"));
                                    self.note("`iter.take(k).map(closure).sum()` written as an accumulation loop over the materialised items");
                                    self.visit_expr(&tk.receiver);
                                    self.visit_expr(&c.body);
                                    return;
                                }
                            }
                            let (pt, pre) = self.pat(&c.inputs[0], n);
                            let ty = match &m.turbofish {
                                Some(t) => format!(": {}", self.t(t.args.span())),
                                None => String::new(),
                            };
                            self.insert(rs, -1, format!("{{ let mut sum__{n}{ty} = 0; for {pt} in it__{n}: "));
                            self.replace(re, bs, " ".into());
                            self.loops.push(LoopInfo { header: bs, body: bs, bodyend: be, start: rs, after: e, needs_spec: true });
                            self.edits.push(Edit { at: bs, end: bs, prio: 91, text: format!(" {{ {pre} ") });
                            self.insert(bs, 99, format!("sum__{n} += "));
                            self.replace(be, e, format!("; }} sum__{n} }}"));
                            self.note("`iter().map(closure).sum()` written as an accumulation loop");
                            self.visit_expr(&mp.receiver);
                            self.visit_expr(&c.body);
                            return;
                        }
                    }
                }
            }
        }
        self.call_name(m.method.to_string());
        visit::visit_expr_method_call(self, m);
    }
}

/// `S[.enumerate()].filter(closure).map(closure)`
fn filter_map_chain(e: &syn::Expr) -> Option<(&syn::Expr, bool, &syn::ExprClosure, &syn::ExprClosure)> {
    let syn::Expr::MethodCall(mp) = e else { return None };
    let (true, Some(syn::Expr::Closure(x))) = (mp.method == "map", mp.args.first()) else { return None };
    let syn::Expr::MethodCall(fl) = &*mp.receiver else { return None };
    let (true, Some(syn::Expr::Closure(f))) = (fl.method == "filter", fl.args.first()) else { return None };
    if f.inputs.len() != 1 || x.inputs.len() != 1 {
        return None;
    }
    match &*fl.receiver {
        syn::Expr::MethodCall(en) if en.method == "enumerate" => Some((&en.receiver, true, f, x)),
        e => Some((e, false, f, x)),
    }
}

fn chained(e: &syn::Expr) -> bool {
    match strip(e) {
        syn::Expr::MethodCall(m) => matches!(strip(&m.receiver), syn::Expr::MethodCall(_)),
        syn::Expr::Cast(c) => chained(&c.expr),
        _ => false,
    }
}

fn block_end(b: &syn::Block) -> Option<usize> {
    match b.stmts.last() {
        Some(syn::Stmt::Expr(x, None)) => Some(br(x.span()).0),
        _ => None,
    }
}

fn strip(e: &syn::Expr) -> &syn::Expr {
    match e {
        syn::Expr::Paren(p) => strip(&p.expr),
        e => e,
    }
}

/// `len` and `is_empty` of ranges
struct RangeCalls<'a> {
    params: &'a HashSet<String>,
    found: Vec<(usize, usize, usize, String)>,
}
impl<'ast, 'a> Visit<'ast> for RangeCalls<'a> {
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        if m.args.is_empty() && (m.method == "len" || m.method == "is_empty") {
            let is_range = match strip(&m.receiver) {
                syn::Expr::Range(_) => true,
                syn::Expr::Path(p) => p.path.get_ident().map(|i| self.params.contains(&i.to_string())).unwrap_or(false),
                _ => false,
            };
            if is_range {
                let (rs, re) = br(m.receiver.span());
                self.found.push((rs, re, br(m.span()).1, m.method.to_string()));
                return;
            }
        }
        syn::visit::visit_expr_method_call(self, m);
    }
}

/// a closure literal whose body does not leave it early
pub fn plain_closure(e: &syn::Expr) -> Option<&syn::ExprClosure> {
    struct Leaves(bool);
    impl<'a> Visit<'a> for Leaves {
        fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) { self.0 = true; }
        fn visit_expr_try(&mut self, _: &'a syn::ExprTry) { self.0 = true; }
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    }
    let syn::Expr::Closure(c) = e else { return None };
    let mut v = Leaves(false);
    v.visit_expr(&c.body);
    if v.0 { None } else { Some(c) }
}

/// the names a pattern binds
struct Names(Vec<String>);
impl<'ast> Visit<'ast> for Names {
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        self.0.push(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
}

/// an expression that is an iterator by its form
fn iterlike(e: &syn::Expr) -> bool {
    const IT: &[&str] = &[
        "iter", "iter_mut", "into_iter", "zip", "enumerate", "rev", "skip", "take", "step_by", "chunks", "chunks_exact", "windows", "filter", "chain", "peekable",
        "skip_while", "take_while", "cloned", "copied", "drain", "by_ref", "iter0", "iter1", "select_iter", "bits", "flat_map", "scan", "filter_map", "cycle",
    ];
    match e {
        syn::Expr::MethodCall(m) if m.method == "map" || m.method == "filter" => iterlike(&m.receiver),
        syn::Expr::MethodCall(m) => IT.iter().any(|n| m.method == n),
        syn::Expr::Range(_) => true,
        syn::Expr::Paren(p) => iterlike(&p.expr),
        syn::Expr::Path(_) => false,
        _ => false,
    }
}
