//! The rewrite rules: from a function of /repo to text Verus accepts. Each rule is documented in
//! DESIGN.md ("What the extraction changes"); anything outside the rules is an error, and the
//! function is then not claimed as proved on that run.
use std::collections::{BTreeMap, BTreeSet};

use quote::ToTokens;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, Stmt};

use crate::unit::FnDir;
use crate::{squash, FoundFn};

#[derive(Default, Debug)]
pub struct Cfg {
    pub types:    Vec<(String, String)>,
    pub cells:    Vec<(String, String)>,
    pub heapfns:  Vec<(String, Vec<String>)>,
    pub methods:  Vec<(String, String)>,
    pub paths:    Vec<(String, String)>,
    pub macros:   Vec<(String, String)>,
    pub opassign: Vec<String>,
    pub indexes:  Vec<String>,
    pub lazies:   BTreeSet<String>,
    pub dropped:  Vec<String>,
    pub known:    BTreeSet<String>,
    pub macro_files: Vec<String>,
}

pub fn glob(p: &str, t: &str) -> bool {
    let parts: Vec<&str> = p.split('*').collect();
    if parts.len() == 1 {
        return p == t;
    }
    let mut rest = t;
    for (i, part) in parts.iter().enumerate() {
        if i == 0 {
            match rest.strip_prefix(part) {
                Some(r) => rest = r,
                None => return false,
            }
        } else if i == parts.len() - 1 {
            return rest.ends_with(part);
        } else {
            match rest.find(part) {
                Some(k) => rest = &rest[k + part.len()..],
                None => return false,
            }
        }
    }
    true
}

pub struct Rewriter<'a> {
    cfg:          &'a Cfg,
    d:            &'a FnDir,
    pub helpers:  BTreeMap<String, Vec<FoundFn>>,
    pub notes:    BTreeSet<String>,
    pub errors:   Vec<String>,
    pub n_loops:  usize,
    pub used_ats: BTreeSet<String>,
    n_tmp:        usize,
    n_collect:    usize,
    path_src:     bool,
    n_map:        usize,
    inlined:      usize,
}

fn callee(e: &Expr) -> Option<String> {
    match e {
        Expr::MethodCall(m) => Some(m.method.to_string()),
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
            _ => None,
        },
        Expr::Macro(m) => m.mac.path.segments.last().map(|s| format!("{}!", s.ident)),
        _ => None,
    }
}

/// Calls in the part of a statement that belongs to no nested block.
struct Shallow {
    names: Vec<String>,
}
impl<'ast> Visit<'ast> for Shallow {
    fn visit_expr(&mut self, e: &'ast Expr) {
        syn::visit::visit_expr(self, e);
        if let Some(n) = callee(e) {
            self.names.push(n);
        }
        if let Expr::Return(_) = e {
            self.names.push("return".into())
        }
        if let Expr::Assign(a) = e {
            self.names.push(format!("={}", squash(&a.left)))
        }
        if let Expr::Binary(a) = e {
            if squash(&a.op).ends_with('=') && !["==", "!=", "<=", ">="].contains(&squash(&a.op).as_str()) {
                self.names.push(format!("={}", squash(&a.left)))
            }
        }
    }

    fn visit_block(&mut self, _: &'ast Block) {}

    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
}

struct Finder {
    ret:   bool,
    try_:  bool,
    await_: bool,
}
impl<'ast> Visit<'ast> for Finder {
    fn visit_expr(&mut self, e: &'ast Expr) {
        match e {
            Expr::Return(_) => self.ret = true,
            Expr::Try(_) => self.try_ = true,
            Expr::Await(_) => self.await_ = true,
            _ => {}
        }
        syn::visit::visit_expr(self, e)
    }

    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
}
fn find_flow<T>(f: impl Fn(&mut Finder) -> T) -> Finder {
    let mut x = Finder { ret: false, try_: false, await_: false };
    f(&mut x);
    x
}

fn is_log(name: &str) -> bool {
    ["trace", "debug", "info", "warn", "error", "log", "println", "eprintln", "print", "dbg"].contains(&name)
        || name.starts_with("debug_assert")
}

/// `format!("a{}b", x)` with plain `{}` only: `F0().F("a").F(&x).F("b")`.
/// A match on byte string literals as a chain of comparisons.
fn byte_match(m: &syn::ExprMatch) -> Option<Expr> {
    fn lits(p: &syn::Pat) -> Option<Vec<Vec<u8>>> {
        match p {
            syn::Pat::Lit(syn::ExprLit { lit: syn::Lit::ByteStr(l), .. }) => Some(vec![l.value()]),
            syn::Pat::Or(o) => {
                let mut v = vec![];
                for c in &o.cases {
                    v.extend(lits(c)?);
                }
                Some(v)
            }
            syn::Pat::Paren(p) => lits(&p.pat),
            _ => None,
        }
    }
    if !m.arms.iter().any(|a| lits(&a.pat).is_some()) {
        return None;
    }
    let mut out: Option<Expr> = None;
    for a in m.arms.iter().rev() {
        let body = &a.body;
        if a.guard.is_some() {
            return None;
        }
        if let Some(v) = lits(&a.pat) {
            let rest = out?;
            let cs: Vec<Expr> = v.iter().map(|b| parse_quote!(vx_is(__mb, vx_b([#(#b),*])))).collect();
            out = Some(parse_quote!(if #(#cs)||* { #body } else { #rest }));
        } else if let syn::Pat::Wild(_) = a.pat {
            out = Some(parse_quote!({ #body }));
        } else if let syn::Pat::Ident(x) = &a.pat {
            let id = &x.ident;
            out = Some(parse_quote!({ let #id = __mb; #body }));
        } else {
            return None;
        }
    }
    let (x, out) = (&m.expr, out?);
    Some(parse_quote!({ let __mb = #x; #out }))
}

fn concat_form(f: &str, args: Vec<Expr>) -> Option<Expr> {
    let Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. }) = args.first()? else { return None };
    let text = l.value();
    if text.contains("{{") || text.contains("}}") {
        return None;
    }
    let parts: Vec<&str> = text.split("{}").collect();
    if parts.len() != args.len() || parts.iter().any(|p| p.contains('{') || p.contains('}')) {
        return None;
    }
    let start = syn::Ident::new(&format!("{}0", f), proc_macro2::Span::call_site());
    let then = syn::Ident::new(f, proc_macro2::Span::call_site());
    let mut e: Expr = parse_quote!(#start());
    for (i, p) in parts.iter().enumerate() {
        if i > 0 {
            let a = &args[i];
            e = parse_quote!(#e.#then(&(#a)));
        }
        if !p.is_empty() {
            let l = syn::LitStr::new(p, proc_macro2::Span::call_site());
            e = parse_quote!(#e.#then(#l));
        }
    }
    Some(e)
}

fn ex(s: &str) -> Expr {
    syn::parse_str(s).unwrap_or_else(|e| crate::die(&format!("bad expression {:?}: {}", s, e)))
}

fn strip_paren(e: Expr) -> Expr {
    match e {
        Expr::Paren(p) => strip_paren(*p.expr),
        e => e,
    }
}

enum Adapt {
    Map(Expr),
    Filter(Expr),
    FilterMap(Expr),
    Flatten,
    Cloned,
    Copied,
}

impl<'a> Rewriter<'a> {
    pub fn new(cfg: &'a Cfg, d: &'a FnDir) -> Self {
        Rewriter {
            cfg,
            d,
            helpers: BTreeMap::new(),
            notes: BTreeSet::new(),
            errors: vec![],
            n_loops: 0,
            used_ats: BTreeSet::new(),
            n_tmp: 0,
            n_collect: 0,
            path_src: false,
            n_map: 0,
            inlined: 0,
        }
    }

    fn err(&mut self, s: impl Into<String>) {
        self.errors.push(s.into())
    }

    pub fn types_only(&mut self, sig: &mut syn::Signature) {
        for (k, a) in sig.inputs.iter_mut().enumerate() {
            match a {
                syn::FnArg::Receiver(r) => {
                    r.attrs.clear();
                    if r.reference.is_none() {
                        r.mutability = None;
                    }
                    if self.d.selfmode == "mut" && r.reference.is_some() {
                        *r = parse_quote!(&mut self);
                    }
                }
                syn::FnArg::Typed(t) => {
                    t.attrs.clear();
                    if let syn::Pat::Wild(_) = *t.pat {
                        let id = syn::Ident::new(&format!("_p{}", k), proc_macro2::Span::call_site());
                        *t.pat = parse_quote!(#id);
                    }
                    self.visit_type_mut(&mut t.ty)
                }
            }
        }
        if let syn::ReturnType::Type(_, t) = &mut sig.output {
            self.visit_type_mut(t)
        }
    }

    pub fn one_type(&mut self, t: &mut syn::Type) {
        self.visit_type_mut(t)
    }

    pub fn item_types(&mut self, it: &mut syn::Item, f: &mut dyn FnMut(syn::Item)) {
        self.visit_item_mut(it);
        f(it.clone())
    }

    /// `let f = |x| body;`: the closure is put where `f` is used. What it captures does not change while it
    /// is alive (the borrow checker sees to it), but a name it captures may be bound anew: then it stays.
    fn local_closures(&mut self, b: &mut Block) {
        struct Names(BTreeSet<String>, BTreeSet<String>);
        fn toks(t: proc_macro2::TokenStream, o: &mut BTreeSet<String>) {
            for x in t {
                match x {
                    proc_macro2::TokenTree::Ident(i) => {
                        o.insert(i.to_string());
                    }
                    proc_macro2::TokenTree::Group(g) => toks(g.stream(), o),
                    _ => {}
                }
            }
        }
        // every name that occurs, and those a pattern binds
        impl<'ast> Visit<'ast> for Names {
            fn visit_ident(&mut self, i: &'ast syn::Ident) {
                self.0.insert(i.to_string());
            }

            fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
                self.1.insert(p.ident.to_string());
                syn::visit::visit_pat_ident(self, p)
            }

            fn visit_macro(&mut self, m: &'ast syn::Macro) {
                toks(m.tokens.clone(), &mut self.0)
            }
        }
        struct Put<'x>(&'x str, &'x syn::ExprClosure);
        impl<'x> VisitMut for Put<'x> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                visit_mut::visit_expr_mut(self, e);
                let is = |e: &Expr| matches!(e, Expr::Path(p) if p.path.is_ident(self.0));
                if let Expr::Call(c) = e {
                    if let Expr::Paren(f) = &*c.func {
                        if let Expr::Closure(f) = &*f.expr {
                            if c.args.len() == 1 && f.inputs.len() == 1 {
                                let p = match &f.inputs[0] {
                                    syn::Pat::Type(t) => (*t.pat).clone(),
                                    p => p.clone(),
                                };
                                let (a, b) = (&c.args[0], &f.body);
                                *e = parse_quote!({ let #p = #a; #b });
                                return;
                            }
                        }
                    }
                }
                if is(e) {
                    let c = self.1;
                    *e = parse_quote!((#c));
                }
            }
        }
        let mut i = 0;
        while i < b.stmts.len() {
            if let Stmt::Local(l) = &b.stmts[i] {
                if let (syn::Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                    if let (Expr::Closure(c), None, None) = (&*init.expr, &p.mutability, &init.diverge) {
                        let (name, c) = (p.ident.to_string(), c.clone());
                        let fl = find_flow(|x| x.visit_expr(&c.body));
                        let mut inner = Names(BTreeSet::new(), BTreeSet::new());
                        inner.visit_expr(&c.body);
                        let mut rest = Names(BTreeSet::new(), BTreeSet::new());
                        for s in &b.stmts[i + 1..] {
                            rest.visit_stmt(s);
                        }
                        if c.inputs.len() == 1 && !fl.ret && !fl.try_ && !rest.1.contains(&name) && rest.1.is_disjoint(&inner.0) {
                            let mut put = Put(&name, &c);
                            for s in b.stmts[i + 1..].iter_mut() {
                                put.visit_stmt_mut(s);
                            }
                            let mut left = Names(BTreeSet::new(), BTreeSet::new());
                            for s in &b.stmts[i + 1..] {
                                left.visit_stmt(s);
                            }
                            if !left.0.contains(&name) {
                                b.stmts.remove(i);
                                continue;
                            }
                        }
                    }
                }
            }
            i += 1;
        }
    }

    /// `select! { p = e => b, complete => c }`: which arm is ready is anyone's choice, an arm taken has its
    /// answer.
    fn selects(&mut self, b: &mut Block) {
        struct Arms(Vec<(Option<syn::Pat>, Option<Expr>, Expr)>);
        impl syn::parse::Parse for Arms {
            fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                let mut v = vec![];
                while !i.is_empty() {
                    let f = i.fork();
                    let word = f.parse::<syn::Ident>().map(|x| x.to_string()).unwrap_or_default();
                    let (p, e) = if word == "complete" && f.peek(syn::Token![=>]) {
                        i.parse::<syn::Ident>()?;
                        (None, None)
                    } else {
                        let p = syn::Pat::parse_multi(i)?;
                        i.parse::<syn::Token![=]>()?;
                        (Some(p), Some(i.parse()?))
                    };
                    i.parse::<syn::Token![=>]>()?;
                    let body: Expr = if i.peek(syn::token::Brace) {
                        let b: Block = i.parse()?;
                        parse_quote!(#b)
                    } else {
                        i.parse()?
                    };
                    if i.peek(syn::Token![,]) {
                        i.parse::<syn::Token![,]>()?;
                    }
                    v.push((p, e, body));
                }
                Ok(Arms(v))
            }
        }
        fn choice(m: &syn::Macro) -> Option<Expr> {
            if m.path.segments.last()?.ident != "select" {
                return None;
            }
            let a: Arms = syn::parse2(m.tokens.clone()).ok()?;
            let mut arms: Vec<syn::Arm> = vec![];
            let n = a.0.len();
            for (k, (p, e, b)) in a.0.into_iter().enumerate() {
                let k: syn::Pat = if k + 1 == n {
                    parse_quote!(_)
                } else {
                    let k = k as u8;
                    parse_quote!(#k)
                };
                arms.push(match (p, e) {
                    (Some(p), Some(e)) => parse_quote!(#k => { let #p = #e; #b }),
                    _ => parse_quote!(#k => { #b }),
                });
            }
            Some(parse_quote!(match vx_select() { #(#arms)* }))
        }
        struct V;
        impl VisitMut for V {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::Macro(m) = e {
                    if let Some(c) = choice(&m.mac) {
                        *e = c;
                    }
                }
                visit_mut::visit_expr_mut(self, e)
            }

            fn visit_stmt_mut(&mut self, s: &mut Stmt) {
                if let Stmt::Macro(m) = s {
                    if let Some(c) = choice(&m.mac) {
                        *s = Stmt::Expr(c, Some(Default::default()));
                    }
                }
                visit_mut::visit_stmt_mut(self, s)
            }
        }
        V.visit_block_mut(b)
    }

    pub fn run(&mut self, b: &mut Block, _sig: &syn::Signature) {
        self.selects(b);
        self.local_closures(b);
        self.inline_block(b);
        tail_any(b);
        for s in b.stmts.iter_mut() {
            strip_stmt_attrs(s);
        }
        self.anchors(b);
        self.visit_block_mut(b);
        if self.d.ats.contains_key("start") {
            self.used_ats.insert("start".into());
            b.stmts.insert(0, parse_quote!(__vx_at!("start");));
        }
        if self.d.ats.contains_key("end") {
            self.used_ats.insert("end".into());
            match b.stmts.pop() {
                Some(Stmt::Expr(e, None)) => {
                    b.stmts.push(parse_quote!(let __r = #e;));
                    b.stmts.push(parse_quote!(__vx_at!("end");));
                    b.stmts.push(Stmt::Expr(parse_quote!(__r), None));
                }
                Some(s) => {
                    b.stmts.push(s);
                    b.stmts.push(parse_quote!(__vx_at!("end");));
                }
                None => b.stmts.push(parse_quote!(__vx_at!("end");)),
            }
        }
    }

    // ---------------------------------------------------------------- anchors
    fn anchors(&mut self, b: &mut Block) {
        let wanted: BTreeSet<String> = self
            .d
            .ats
            .keys()
            .filter(|k| k.starts_with("after:") || k.starts_with("before:"))
            .cloned()
            .collect();
        if wanted.is_empty() {
            return;
        }
        let mut counts: BTreeMap<String, usize> = BTreeMap::new();
        let mut used = BTreeSet::new();
        fn go(b: &mut Block, wanted: &BTreeSet<String>, counts: &mut BTreeMap<String, usize>, used: &mut BTreeSet<String>) {
            let stmts = std::mem::take(&mut b.stmts);
            for mut s in stmts {
                let mut sh = Shallow { names: vec![] };
                sh.visit_stmt(&s);
                let mut before = vec![];
                let mut after = vec![];
                for n in sh.names {
                    let k = counts.entry(n.clone()).or_insert(0);
                    let (kb, ka) = (format!("before:{}:{}", n, k), format!("after:{}:{}", n, k));
                    *k += 1;
                    if wanted.contains(&kb) {
                        before.push(kb)
                    }
                    if wanted.contains(&ka) {
                        after.push(ka)
                    }
                }
                // nested blocks
                struct Nest<'x>(&'x BTreeSet<String>, &'x mut BTreeMap<String, usize>, &'x mut BTreeSet<String>);
                impl<'x> VisitMut for Nest<'x> {
                    fn visit_block_mut(&mut self, b: &mut Block) {
                        go(b, self.0, self.1, self.2)
                    }

                    fn visit_expr_closure_mut(&mut self, c: &mut syn::ExprClosure) {
                        visit_mut::visit_expr_closure_mut(self, c)
                    }
                }
                Nest(wanted, counts, used).visit_stmt_mut(&mut s);
                for k in before {
                    b.stmts.push(parse_quote!(__vx_at!(#k);));
                    used.insert(k);
                }
                if after.is_empty() {
                    b.stmts.push(s);
                } else {
                    match s {
                        Stmt::Expr(e, None) if !matches!(e, Expr::If(_) | Expr::While(_) | Expr::ForLoop(_)) => {
                            b.stmts.push(parse_quote!(let __t = #e;));
                            for k in after {
                                b.stmts.push(parse_quote!(__vx_at!(#k);));
                                used.insert(k);
                            }
                            b.stmts.push(Stmt::Expr(parse_quote!(__t), None));
                        }
                        s => {
                            b.stmts.push(s);
                            for k in after {
                                b.stmts.push(parse_quote!(__vx_at!(#k);));
                                used.insert(k);
                            }
                        }
                    }
                }
            }
        }
        go(b, &wanted, &mut counts, &mut used);
        self.used_ats.extend(used);
    }

    // ---------------------------------------------------------------- inlining
    fn inline_block(&mut self, b: &mut Block) {
        struct Inl<'x, 'y> {
            rw:    &'x mut Rewriter<'y>,
            depth: usize,
        }
        impl<'x, 'y> Inl<'x, 'y> {
            fn candidate(&self, e: &Expr) -> Option<(FoundFn, Vec<Expr>)> {
                let (name, args, recv) = match e {
                    Expr::MethodCall(m) => {
                        if squash(&m.receiver) != "self" {
                            return None;
                        }
                        (m.method.to_string(), m.args.iter().cloned().collect::<Vec<_>>(), true)
                    }
                    Expr::Call(c) => match &*c.func {
                        Expr::Path(p) if p.qself.is_none() => {
                            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                            let ok = segs.len() == 1 || (segs.len() == 2 && segs[0] == "Self");
                            if !ok {
                                return None;
                            }
                            (segs.last().unwrap().clone(), c.args.iter().cloned().collect(), false)
                        }
                        _ => return None,
                    },
                    _ => return None,
                };
                if self.rw.cfg.known.contains(&name) && !self.rw.d.inline.contains(&name) {
                    return None;
                }
                let c = self.rw.helpers.get(&name)?;
                if c.len() != 1 || c[0].block.is_none() {
                    return None;
                }
                let f = c[0].clone();
                let has_self = matches!(f.sig.inputs.first(), Some(syn::FnArg::Receiver(_)));
                if has_self != recv {
                    return None;
                }
                Some((f, args))
            }

            fn splice(&mut self, f: FoundFn, args: Vec<Expr>, try_ok: bool) -> Option<Expr> {
                let mut block = f.block.clone().unwrap();
                let fl = find_flow(|x| x.visit_block(&block));
                if fl.ret || (fl.try_ && !try_ok) {
                    let n = f.sig.ident.to_string();
                    self.rw.err(format!("helper {} has no contract and cannot be inlined", n));
                    return None;
                }
                if self.depth > 6 {
                    self.rw.err("inlining too deep");
                    return None;
                }
                let generic = !f.sig.generics.params.is_empty();
                let k = self.rw.inlined;
                self.rw.inlined += 1;
                let mut lets: Vec<Stmt> = vec![];
                let mut binds: Vec<Stmt> = vec![];
                let params = f.sig.inputs.iter().filter_map(|a| match a {
                    syn::FnArg::Typed(t) => Some(t.clone()),
                    _ => None,
                });
                for (i, (p, a)) in params.zip(args.into_iter()).enumerate() {
                    let tmp = syn::Ident::new(&format!("__a{}_{}", k, i), proc_macro2::Span::call_site());
                    let pat = p.pat.clone();
                    let ty = p.ty.clone();
                    let is_impl = squash(&ty).contains("impl");
                    if generic || is_impl {
                        lets.push(parse_quote!(let #tmp = #a;));
                    } else {
                        lets.push(parse_quote!(let #tmp: #ty = #a;));
                    }
                    binds.push(parse_quote!(let #pat = #tmp;));
                }
                self.rw.notes.insert(format!("helper {} inlined", f.sig.ident));
                self.depth += 1;
                self.visit_block_mut(&mut block);
                self.depth -= 1;
                let mut stmts = block.stmts;
                // the helper's return type, where an expression in its place would leave it open
                if let syn::ReturnType::Type(_, ty) = &f.sig.output {
                    let text = squash(ty);
                    if !generic && !text.contains("impl") && !text.contains('\'') && !text.contains('&') {
                        if let Some(Stmt::Expr(_, None)) = stmts.last() {
                            if let Some(Stmt::Expr(e, None)) = stmts.pop() {
                                let r = syn::Ident::new(&format!("__h{}", k), proc_macro2::Span::call_site());
                                stmts.push(parse_quote!(let #r: #ty = #e;));
                                stmts.push(Stmt::Expr(parse_quote!(#r), None));
                            }
                        }
                    }
                }
                Some(parse_quote!({ #(#lets)* #(#binds)* #(#stmts)* }))
            }
        }
        impl<'x, 'y> VisitMut for Inl<'x, 'y> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::Try(t) = e {
                    let mut inner = &*t.expr;
                    if let Expr::Await(a) = inner {
                        inner = &*a.base;
                    }
                    if let Some((f, mut args)) = self.candidate(inner) {
                        for a in args.iter_mut() {
                            self.visit_expr_mut(a)
                        }
                        if let Some(n) = self.splice(f, args, true) {
                            *t.expr = n;
                        }
                        return;
                    }
                }
                visit_mut::visit_expr_mut(self, e);
                if let Some((f, args)) = self.candidate(e) {
                    if let Some(n) = self.splice(f, args, false) {
                        *e = n;
                    }
                }
            }
        }
        // a helper call in tail position may use `?`
        let mut inl = Inl { rw: self, depth: 0 };
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            if let Some((f, mut args)) = inl.candidate(e) {
                for a in args.iter_mut() {
                    inl.visit_expr_mut(a)
                }
                if let Some(n) = inl.splice(f, args, true) {
                    *e = n;
                }
            }
        }
        inl.visit_block_mut(b);
    }

    // ---------------------------------------------------------------- loops
    fn tmp(&mut self, p: &str) -> syn::Ident {
        self.n_tmp += 1;
        syn::Ident::new(&format!("__{}{}", p, self.n_tmp), proc_macro2::Span::call_site())
    }

    fn loop_head(&mut self) -> (usize, syn::Ident, Stmt, Vec<Stmt>, Vec<Stmt>, Vec<Stmt>) {
        let n = self.n_loops;
        self.n_loops += 1;
        let lit = proc_macro2::Literal::usize_unsuffixed(n);
        let it = syn::Ident::new(&format!("__it{}", n), proc_macro2::Span::call_site());
        let mut marks = |k: &str| -> Vec<Stmt> {
            let key = format!("loop:{}:{}", n, k);
            if self.d.ats.contains_key(&key) {
                self.used_ats.insert(key.clone());
                vec![parse_quote!(__vx_at!(#key);)]
            } else {
                vec![]
            }
        };
        let (s, e, a) = (marks("start"), marks("end"), marks("after"));
        (n, it, parse_quote!(__vx_loop!(#lit);), s, e, a)
    }

    fn source(&mut self, e: &Expr) -> (Expr, Option<Expr>) {
        // returns (iterator expression, Some(place) for iter_mut)
        let e = strip_paren(e.clone());
        match &e {
            Expr::Range(r) => {
                let lo = r.start.clone().map(|x| *x).unwrap_or_else(|| ex("0"));
                match (&r.end, &r.limits) {
                    (Some(hi), syn::RangeLimits::HalfOpen(_)) => (parse_quote!(vx_range(#lo, #hi)), None),
                    (Some(hi), syn::RangeLimits::Closed(_)) => (parse_quote!(vx_range_incl(#lo, #hi)), None),
                    _ => {
                        self.err("open range");
                        (e, None)
                    }
                }
            }
            Expr::Reference(r) => {
                let inner = &*r.expr;
                if r.mutability.is_some() {
                    (e.clone(), Some(inner.clone()))
                } else {
                    (parse_quote!((#inner).vx_iter()), None)
                }
            }
            Expr::MethodCall(m) if m.method == "iter_mut" => (e.clone(), Some((*m.receiver).clone())),
            Expr::MethodCall(_) => {
                let (f, it) = self.iter_method(e.clone());
                if it {
                    (f, None)
                } else {
                    (parse_quote!((#f).vx_into_iter()), None)
                }
            }
            _ => (parse_quote!((#e).vx_into_iter()), None),
        }
    }

    /// Rename iterator-producing methods to their models; true if the expression is an iterator.
    fn iter_method(&mut self, e: Expr) -> (Expr, bool) {
        match strip_paren(e) {
            Expr::MethodCall(mut m) => {
                let mut n = m.method.to_string();
                // rayon: one of the orders a parallel iterator may take
                if let Some(k) = match n.as_str() {
                    "par_iter" => Some("iter"),
                    "into_par_iter" => Some("into_iter"),
                    _ => None,
                } {
                    n = k.to_owned();
                    m.method = syn::Ident::new(k, m.method.span());
                }
                match n.as_str() {
                    "iter" | "into_iter" | "drain" | "keys" | "values" | "chars" | "bytes" | "split" | "chunks"
                    | "windows" | "values_mut" | "into_values" | "range" => {
                        if n == "into_iter" {
                            let (r, it) = self.iter_method((*m.receiver).clone());
                            if it {
                                return (r, true);
                            }
                        }
                        m.method = syn::Ident::new(&format!("vx_{}", n), m.method.span());
                        if n == "drain" && m.args.iter().any(|a| squash(a) == "..") {
                            m.args.clear();
                        }
                        m.turbofish = None;
                        (Expr::MethodCall(m), true)
                    }
                    "enumerate" | "rev" | "skip" | "take" | "zip" | "chain" | "peekable" | "step_by" => {
                        let (r, it) = self.iter_method((*m.receiver).clone());
                        if !it {
                            if let Expr::Range(_) = &r {
                                let (s, _) = self.source(&r);
                                m.receiver = Box::new(s);
                            } else {
                                return (Expr::MethodCall(m), false);
                            }
                        } else {
                            m.receiver = Box::new(r);
                        }
                        m.method = syn::Ident::new(&format!("vx_{}", n), m.method.span());
                        if n == "zip" || n == "chain" {
                            let a = m.args.pop().unwrap().into_value();
                            let (s, _) = self.source(&a);
                            m.args.push(s);
                        }
                        (Expr::MethodCall(m), true)
                    }
                    _ => (Expr::MethodCall(m), false),
                }
            }
            e => (e, false),
        }
    }

    fn for_loop(&mut self, f: syn::ExprForLoop) -> Expr {
        let (n, it, mark, s, e, a) = self.loop_head();
        let bkey = format!("loop:{}:before", n);
        let b: Vec<Stmt> = if self.d.ats.contains_key(&bkey) {
            self.used_ats.insert(bkey.clone());
            vec![parse_quote!(__vx_at!(#bkey);)]
        } else {
            vec![]
        };
        let (src, mutable) = self.source(&f.expr);
        let pat = f.pat;
        let mut body = f.body.stmts;
        if let Some(Stmt::Expr(_, semi @ None)) = body.last_mut() {
            *semi = Some(Default::default());
        }
        let label = f.label;
        match mutable {
            None => parse_quote!({
                #(#b)*
                let mut #it = #src;
                #label while #it.has_next() {
                    #mark
                    #(#s)*
                    let #pat = #it.take_next();
                    #(#body)*
                    #(#e)*
                }
                #(#a)*
            }),
            Some(place) => {
                let i = syn::Ident::new(&format!("__i{}", n), proc_macro2::Span::call_site());
                let len = syn::Ident::new(&format!("__len{}", n), proc_macro2::Span::call_site());
                parse_quote!({
                    #(#b)*
                    let #len = (#place).len();
                    let mut #i: usize = 0;
                    #label while #i < #len {
                        #mark
                        #(#s)*
                        let #pat = &mut (#place)[#i];
                        #i = #i + 1;
                        #(#body)*
                        #(#e)*
                    }
                    #(#a)*
                })
            }
        }
    }

    /// `SRC.adaptor(..)...` split at the first non-source method.
    fn chain(&mut self, e: &Expr, adapts: &mut Vec<Adapt>) -> Option<Expr> {
        match e {
            Expr::Paren(p) => self.chain(&p.expr, adapts),
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match (n.as_str(), m.args.len()) {
                    ("map", 1) => {
                        let s = self.chain(&m.receiver, adapts)?;
                        adapts.push(Adapt::Map(m.args[0].clone()));
                        Some(s)
                    }
                    ("filter", 1) => {
                        let s = self.chain(&m.receiver, adapts)?;
                        adapts.push(Adapt::Filter(m.args[0].clone()));
                        Some(s)
                    }
                    ("filter_map", 1) => {
                        let s = self.chain(&m.receiver, adapts)?;
                        adapts.push(Adapt::FilterMap(m.args[0].clone()));
                        Some(s)
                    }
                    ("cloned", 0) => {
                        let s = self.chain(&m.receiver, adapts)?;
                        adapts.push(Adapt::Cloned);
                        Some(s)
                    }
                    ("flatten", 0) => {
                        let s = self.chain(&m.receiver, adapts)?;
                        adapts.push(Adapt::Flatten);
                        Some(s)
                    }
                    ("flat_map", 1) => {
                        let s = self.chain(&m.receiver, adapts)?;
                        adapts.push(Adapt::Map(m.args[0].clone()));
                        adapts.push(Adapt::Flatten);
                        Some(s)
                    }
                    ("copied", 0) => {
                        let s = self.chain(&m.receiver, adapts)?;
                        adapts.push(Adapt::Copied);
                        Some(s)
                    }
                    _ => {
                        let (s, it) = self.iter_method(e.clone());
                        if it {
                            Some(e.clone())
                        } else if n == "take" && m.args.len() == 1 && self.chain(&m.receiver, &mut vec![]).is_some() {
                            // the first of what comes through
                            let (x, k) = (&m.receiver, &m.args[0]);
                            Some(parse_quote!(vx_first(#x.collect::<Vec<_>>(), #k).into_iter()))
                        } else {
                            let _ = s;
                            None
                        }
                    }
                }
            }
            Expr::Range(_) => Some(e.clone()),
            Expr::Path(_) if self.path_src => Some(e.clone()),
            _ => None,
        }
    }

    fn apply(&mut self, f: &Expr, arg: Expr) -> Expr {
        match strip_paren(f.clone()) {
            Expr::Closure(c) => {
                let fl = find_flow(|x| x.visit_expr(&c.body));
                if fl.ret || fl.try_ {
                    self.err("closure with early exit in an iterator chain");
                }
                let body = &c.body;
                match c.inputs.len() {
                    1 => {
                        let p = match &c.inputs[0] {
                            syn::Pat::Type(t) => (*t.pat).clone(),
                            p => p.clone(),
                        };
                        parse_quote!({ let #p = #arg; #body })
                    }
                    0 => parse_quote!(#body),
                    _ => {
                        self.err("closure with several parameters in a chain");
                        parse_quote!(#body)
                    }
                }
            }
            f => parse_quote!(#f(#arg)),
        }
    }

    fn nest(&mut self, adapts: &[Adapt], cur: syn::Ident, last: &mut dyn FnMut(&mut Self, syn::Ident) -> Vec<Stmt>) -> Vec<Stmt> {
        match adapts.split_first() {
            None => last(self, cur),
            Some((a, rest)) => {
                let nx = self.tmp("x");
                match a {
                    Adapt::Map(f) => {
                        let v = self.apply(f, parse_quote!(#cur));
                        let mut o: Vec<Stmt> = vec![parse_quote!(let #nx = #v;)];
                        o.extend(self.nest(rest, nx, last));
                        o
                    }
                    Adapt::Cloned => {
                        let mut o: Vec<Stmt> = vec![parse_quote!(let #nx = (*#cur).clone();)];
                        o.extend(self.nest(rest, nx, last));
                        o
                    }
                    Adapt::Flatten => {
                        let o = self.nest(rest, nx.clone(), last);
                        vec![parse_quote!(for #nx in #cur { #(#o)* })]
                    }
                    Adapt::Copied => {
                        let mut o: Vec<Stmt> = vec![parse_quote!(let #nx = *#cur;)];
                        o.extend(self.nest(rest, nx, last));
                        o
                    }
                    Adapt::Filter(f) => {
                        let v = self.apply(f, parse_quote!(&#cur));
                        let o = self.nest(rest, cur, last);
                        vec![parse_quote!(if #v { #(#o)* })]
                    }
                    Adapt::FilterMap(f) => {
                        let v = self.apply(f, parse_quote!(#cur));
                        let o = self.nest(rest, nx.clone(), last);
                        vec![parse_quote!(if let Some(#nx) = #v { #(#o)* })]
                    }
                }
            }
        }
    }

    /// An iterator chain with a terminal operation becomes a loop over the source.
    fn terminal(&mut self, e: &Expr, tried: bool) -> Option<Expr> {
        let Expr::MethodCall(m) = e else { return None };
        let t = m.method.to_string();
        if !["collect", "any", "all", "sum", "count", "for_each", "find", "position", "fold"].contains(&t.as_str()) {
            return None;
        }
        let mut adapts = vec![];
        // only an iterator can be mapped and collected, so a variable is a source there
        self.path_src = t == "collect";
        let src = self.chain(&m.receiver, &mut adapts);
        self.path_src = false;
        let src = src?;
        let cur = self.tmp("x");
        let acc = self.tmp("v");
        let acc2 = acc.clone();
        let arg = m.args.first().cloned();
        let (init, fin): (Expr, Expr);
        let mut last: Box<dyn FnMut(&mut Self, syn::Ident) -> Vec<Stmt>>;
        match t.as_str() {
            "collect" => {
                let ci = self.n_collect;
                self.n_collect += 1;
                let tf = m.turbofish.as_ref().map(|t| squash(t)).unwrap_or_default();
                let mut kind = self.d.collect.get(&ci).cloned().unwrap_or_default();
                if kind.is_empty() {
                    kind = if tried || tf.starts_with("::<Result") || tf.starts_with("::<ProtocolResult") {
                        if tried { "result".into() } else { "result_ok".into() }
                    } else if tf.contains("HashSet") {
                        "set:HashSet".into()
                    } else if tf.contains("HashMap") {
                        "map:HashMap".into()
                    } else if tf.contains("BTreeMap") {
                        "map:BTreeMap".into()
                    } else {
                        "vec".into()
                    };
                }
                if kind == "result" && !tried {
                    kind = "result_ok".into()
                }
                let (k, cont) = match kind.split_once(':') {
                    Some((a, b)) => (a.to_owned(), b.to_owned()),
                    None => (kind.clone(), "Vec".to_owned()),
                };
                init = ex(&format!("{}::new()", cont));
                match k.as_str() {
                    "vec" => last = Box::new(move |_, x| vec![parse_quote!(#acc2.push(#x);)]),
                    "set" => last = Box::new(move |_, x| vec![parse_quote!(#acc2.insert(#x);)]),
                    "map" => last = Box::new(move |_, x| vec![parse_quote!(#acc2.insert(#x.0, #x.1);)]),
                    "result" | "result_ok" => last = Box::new(move |_, x| vec![parse_quote!(#acc2.push(#x?);)]),
                    "resultmap" => {
                        last = Box::new(move |s, x| {
                            let y = s.tmp("y");
                            vec![parse_quote!(let #y = #x?;), parse_quote!(#acc2.insert(#y.0, #y.1);)]
                        })
                    }
                    "option" => {
                        last = Box::new(move |_, x| {
                            vec![parse_quote!(match #x { Some(x) => { #acc2.push(x); } None => return None })]
                        })
                    }
                    _ => {
                        self.err(format!("collect kind {}", kind));
                        return None;
                    }
                }
                fin = if k == "result_ok" { parse_quote!(Ok(#acc)) } else { parse_quote!(#acc) };
            }
            "any" | "all" => {
                let f = arg?;
                let any = t == "any";
                init = if any { ex("false") } else { ex("true") };
                last = Box::new(move |s, x| {
                    let v = s.apply(&f, parse_quote!(#x));
                    if any {
                        vec![parse_quote!(if #v { #acc2 = true; })]
                    } else {
                        vec![parse_quote!(if !(#v) { #acc2 = false; })]
                    }
                });
                fin = parse_quote!(#acc);
            }
            "sum" => {
                init = ex("0");
                last = Box::new(move |_, x| vec![parse_quote!(#acc2 = #acc2 + #x;)]);
                fin = parse_quote!(#acc);
            }
            "count" => {
                init = ex("0usize");
                last = Box::new(move |_, _| vec![parse_quote!(#acc2 = #acc2 + 1;)]);
                fin = parse_quote!(#acc);
            }
            "for_each" => {
                let f = arg?;
                init = ex("()");
                last = Box::new(move |s, x| {
                    let v = s.apply(&f, parse_quote!(#x));
                    vec![parse_quote!(#v;)]
                });
                fin = parse_quote!(());
            }
            "find" => {
                let f = arg?;
                init = ex("None");
                last = Box::new(move |s, x| {
                    let v = s.apply(&f, parse_quote!(&#x));
                    vec![parse_quote!(if #acc2.is_none() && #v { #acc2 = Some(#x); })]
                });
                fin = parse_quote!(#acc);
            }
            _ => {
                self.err(format!("iterator terminal {}", t));
                return None;
            }
        }
        let body = self.nest(&adapts, cur.clone(), &mut *last);
        drop(last);
        let unit_acc = t == "for_each";
        Some(if unit_acc {
            parse_quote!({ for #cur in #src { #(#body)* } #fin })
        } else {
            parse_quote!({ let mut #acc = #init; for #cur in #src { #(#body)* } #fin })
        })
    }

    // ---------------------------------------------------------------- combinators
    fn closure_arm(&mut self, f: &Expr) -> Option<(syn::Pat, Expr)> {
        match strip_paren(f.clone()) {
            Expr::Closure(c) => {
                let fl = find_flow(|x| x.visit_expr(&c.body));
                if fl.ret || fl.try_ {
                    return None;
                }
                let body = (*c.body).clone();
                let p: syn::Pat = match c.inputs.first() {
                    Some(syn::Pat::Type(t)) => (*t.pat).clone(),
                    Some(p) => p.clone(),
                    None => parse_quote!(_),
                };
                Some((p, body))
            }
            Expr::Path(p) => {
                let x = self.tmp("c");
                Some((parse_quote!(#x), parse_quote!(#p(#x))))
            }
            _ => None,
        }
    }

    fn combinator(&mut self, m: &syn::ExprMethodCall) -> Option<Expr> {
        let n = m.method.to_string();
        let r = &m.receiver;
        let args: Vec<&Expr> = m.args.iter().collect();
        match (n.as_str(), args.len()) {
            ("map_err", 1) => {
                if self.cfg.methods.iter().any(|(a, _)| a == "map_err/1") {
                    return None;
                }
                let (p, b) = self.closure_arm(args[0])?;
                Some(parse_quote!((match #r { Ok(__o) => Ok(__o), Err(#p) => Err(#b) })))
            }
            ("map", 1) => {
                let k = self.n_map;
                self.n_map += 1;
                let (p, b) = self.closure_arm(args[0])?;
                let res = self.d.resmap.contains(&k) || matches!(&**r, Expr::Paren(x) if squash(x).contains("Err(__e)=>Err(__e)")) || squash(r).ends_with(".map_err");
                if res {
                    Some(parse_quote!((match #r { Ok(#p) => Ok(#b), Err(__e) => Err(__e) })))
                } else {
                    Some(parse_quote!((match #r { Some(#p) => Some(#b), None => None })))
                }
            }
            ("and_then", 1) => {
                let k = self.n_map;
                self.n_map += 1;
                let (p, b) = self.closure_arm(args[0])?;
                if self.d.resmap.contains(&k) {
                    Some(parse_quote!((match #r { Ok(#p) => #b, Err(__e) => Err(__e) })))
                } else {
                    Some(parse_quote!((match #r { Some(#p) => #b, None => None })))
                }
            }
            ("unwrap_or_else", 1) => {
                let Expr::Closure(c) = strip_paren(args[0].clone()) else {
                    let f = args[0];
                    return Some(parse_quote!((match #r { Some(__o) => __o, None => #f() })));
                };
                let b = (*c.body).clone();
                if c.inputs.is_empty() {
                    Some(parse_quote!((match #r { Some(__o) => __o, None => #b })))
                } else {
                    let p = &c.inputs[0];
                    Some(parse_quote!((match #r { Ok(__o) => __o, Err(#p) => #b })))
                }
            }
            ("ok_or_else", 1) => {
                let (_, b) = self.closure_arm(args[0])?;
                Some(parse_quote!((match #r { Some(__o) => Ok(__o), None => Err(#b) })))
            }
            ("map_or", 2) => {
                let (p, b) = self.closure_arm(args[1])?;
                let d = args[0];
                Some(parse_quote!((match #r { Some(#p) => #b, None => #d })))
            }
            ("or_else", 1) => {
                let (_, b) = self.closure_arm(args[0])?;
                Some(parse_quote!((match #r { Some(__o) => Some(__o), None => #b })))
            }
            _ => None,
        }
    }

    /// `CELL.read()` / `CELL.write()` of a cell with heap `-`: the place, and whether it is written
    /// `let w = F(&mut v);` where `w` finishes writing into `v` when it is dropped: `w` takes `v` and gives it
    /// back at the end of the block, or where it is dropped explicitly.
    fn dropped(&mut self, f: &str, b: &mut Block) {
        let mut back: Vec<(usize, syn::Ident, syn::Ident)> = vec![];
        for (i, s) in b.stmts.iter_mut().enumerate() {
            let Stmt::Local(l) = s else { continue };
            let (syn::Pat::Ident(p), Some(init)) = (&mut l.pat, &mut l.init) else { continue };
            let Expr::Call(c) = &mut *init.expr else { continue };
            if squash(&c.func) != f || c.args.len() != 1 {
                continue;
            }
            let Expr::Reference(r) = &c.args[0] else { continue };
            let Expr::Path(v) = &*r.expr else { continue };
            let Some(v) = v.path.get_ident().cloned() else { continue };
            p.mutability = Some(Default::default());
            c.args[0] = parse_quote!(#v);
            back.push((i, p.ident.clone(), v));
        }
        for (i, w, v) in back.into_iter().rev() {
            let done: Stmt = parse_quote!(#v = #w.vx_drop(););
            let gone = |s: &Stmt| {
                if let Stmt::Expr(Expr::Call(c), Some(_)) = s {
                    return squash(&c.func).ends_with("drop") && c.args.len() == 1 && squash(&c.args[0]) == w.to_string();
                }
                false
            };
            if let Some(k) = b.stmts.iter().skip(i).position(gone) {
                b.stmts[i + k] = done;
                continue;
            }
            if let Some(Stmt::Expr(_, None)) = b.stmts.last() {
                let Some(Stmt::Expr(e, _)) = b.stmts.pop() else { unreachable!() };
                let t = self.tmp("d");
                b.stmts.push(parse_quote!(let #t = #e;));
                b.stmts.push(done);
                b.stmts.push(Stmt::Expr(parse_quote!(#t), None));
            } else {
                b.stmts.push(done);
            }
        }
    }

    fn plain_guard(&self, e: &Expr) -> Option<(Expr, bool)> {
        let Expr::MethodCall(m) = strip_paren(e.clone()) else { return None };
        let n = m.method.to_string();
        let mu = match n.as_str() {
            "read" | "borrow" => false,
            "write" | "lock" | "borrow_mut" => true,
            _ => return None,
        };
        if !m.args.is_empty() {
            return None;
        }
        let r = squash(&m.receiver);
        let hit = self.cfg.cells.iter().find(|(g, _)| glob(g, &r))?;
        if hit.1 == "-" { Some(((*m.receiver).clone(), mu)) } else { None }
    }

    fn entry(&mut self, m: &syn::ExprMethodCall) -> Option<Expr> {
        let n = m.method.to_string();
        if !["or_insert", "or_insert_with", "or_default", "and_modify"].contains(&n.as_str()) {
            return None;
        }
        // `entry(k).and_modify(f);`, with nothing put in
        if n == "and_modify" {
            let Expr::MethodCall(en) = &*m.receiver else { return None };
            let Expr::Closure(c) = strip_paren(m.args[0].clone()) else { return None };
            if en.method != "entry" {
                return None;
            }
            let (map, key) = (&en.receiver, &en.args[0]);
            let p = match &c.inputs[0] {
                syn::Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            };
            let b = &c.body;
            let k = self.tmp("k");
            return Some(parse_quote!({
                let #k = #key;
                if let Some(#p) = (#map).get_mut(&#k) { #b; }
            }));
        }
        let (mid, modify) = match &*m.receiver {
            Expr::MethodCall(x) if x.method == "and_modify" => (&*x.receiver, Some(x.args[0].clone())),
            r => (r, None),
        };
        let Expr::MethodCall(en) = mid else { return None };
        if en.method != "entry" {
            return None;
        }
        let map = &en.receiver;
        let key = &en.args[0];
        let ins: Expr = match n.as_str() {
            "or_insert" => m.args[0].clone(),
            "or_insert_with" => match &m.args[0] {
                Expr::Closure(c) => (*c.body).clone(),
                f => parse_quote!(#f()),
            },
            "or_default" => ex("Default::default()"),
            _ => return None,
        };
        let k = self.tmp("k");
        match modify {
            Some(Expr::Closure(c)) => {
                let p = match &c.inputs[0] {
                    syn::Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                let b = &c.body;
                // the default is evaluated eagerly by or_insert, lazily by or_insert_with
                Some(parse_quote!({
                    let #k = #key;
                    match (#map).get_mut(&#k) {
                        Some(#p) => { #b; }
                        None => { (#map).insert(#k, #ins); }
                    }
                }))
            }
            Some(_) => None,
            None => Some(parse_quote!({
                let #k = #key;
                if !(#map).contains_key(&#k) { (#map).insert(#k.clone(), #ins); }
                (#map).get_mut(&#k).unwrap()
            })),
        }
    }

    fn mac(&mut self, m: &syn::Macro) -> Option<Expr> {
        let n = m.path.segments.last().unwrap().ident.to_string();
        if n.starts_with("__vx") {
            return None;
        }
        for (k, v) in &self.cfg.macros {
            if *k == n {
                if let Some(f) = v.strip_prefix("args:") {
                    let args = m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated);
                    let Ok(args) = args else {
                        self.err(format!("macro {} arguments", n));
                        return Some(ex("()"));
                    };
                    let mut it = args.into_iter();
                    let fmt = it.next();
                    let rest: Vec<Expr> = it.collect();
                    let id = syn::Ident::new(&format!("{}{}", f, rest.len()), proc_macro2::Span::call_site());
                    return Some(parse_quote!(#id(#fmt #(, &#rest)*)));
                }
                if let Some(f) = v.strip_prefix("concat:") {
                    let args = m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated);
                    let Some(x) = args.ok().and_then(|a| concat_form(f, a.into_iter().collect())) else {
                        self.err(format!("form of {}!", n));
                        return Some(ex("()"));
                    };
                    return Some(x);
                }
                return Some(ex(v));
            }
        }
        if is_log(&n) {
            return Some(ex("()"));
        }
        match n.as_str() {
            "panic" | "unreachable" | "unimplemented" | "todo" => Some(ex("vx_panic()")),
            "format" => Some(ex("vx_format()")),
            "vec" => {
                let t = squash(&m.tokens);
                if t.is_empty() {
                    return Some(ex("Vec::new()"));
                }
                if let Ok(a) = m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) {
                    let id = syn::Ident::new(&format!("vx_vec{}", a.len()), proc_macro2::Span::call_site());
                    let a: Vec<_> = a.into_iter().collect();
                    return Some(parse_quote!(#id(#(#a),*)));
                }
                struct Rep(Expr, Expr);
                impl syn::parse::Parse for Rep {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let a = i.parse()?;
                        let _: syn::Token![;] = i.parse()?;
                        Ok(Rep(a, i.parse()?))
                    }
                }
                if let Ok(Rep(a, b)) = syn::parse2::<Rep>(m.tokens.clone()) {
                    return Some(parse_quote!(vx_vec_rep(#a, #b)));
                }
                self.err("vec! form");
                None
            }
            "assert" => {
                let a = m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated).ok()?;
                let c = &a[0];
                Some(parse_quote!(if !(#c) { vx_panic() }))
            }
            "assert_eq" | "assert_ne" => {
                let a = m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated).ok()?;
                let (x, y) = (&a[0], &a[1]);
                if n == "assert_eq" {
                    Some(parse_quote!(if !(#x == #y) { vx_panic() }))
                } else {
                    Some(parse_quote!(if #x == #y { vx_panic() }))
                }
            }
            "matches" => None,
            _ => {
                self.err(format!("macro {}!", n));
                Some(ex("()"))
            }
        }
    }

    fn slice(&mut self, i: &syn::ExprIndex) -> Option<Expr> {
        let Expr::Range(r) = strip_paren((*i.index).clone()) else { return None };
        let e = &i.expr;
        let closed = matches!(r.limits, syn::RangeLimits::Closed(_));
        match (&r.start, &r.end) {
            (None, None) => Some(parse_quote!((#e).vx_slice_full())),
            (Some(a), None) => Some(parse_quote!((#e).vx_slice_from(#a))),
            (None, Some(b)) if !closed => Some(parse_quote!((#e).vx_slice_to(#b))),
            (Some(a), Some(b)) if !closed => Some(parse_quote!((#e).vx_slice(#a, #b))),
            (Some(a), Some(b)) => Some(parse_quote!((#e).vx_slice(#a, (#b) + 1))),
            (None, Some(b)) => Some(parse_quote!((#e).vx_slice_to((#b) + 1))),
        }
    }
}

fn strip_stmt_attrs(s: &mut Stmt) {
    if let Stmt::Local(l) = s {
        l.attrs.clear()
    }
}

/// `let x = ….collect(); let x = x?;` is `let x = ….collect()?;`.
/// `let x = ITER.map(f); ... x ...`: an iterator is lazy, so it is put where it is used, when that is
/// in the next statement and only once.
fn merge_lazy(stmts: &mut Vec<Stmt>) {
    struct Uses<'a>(&'a str, usize);
    impl<'a, 'ast> Visit<'ast> for Uses<'a> {
        fn visit_ident(&mut self, i: &'ast syn::Ident) {
            if i == self.0 {
                self.1 += 1;
            }
        }
        fn visit_macro(&mut self, m: &'ast syn::Macro) {
            if squash(m).contains(self.0) {
                self.1 += 2;
            }
        }
    }
    struct Put<'a>(&'a str, &'a Expr);
    impl<'a> VisitMut for Put<'a> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Path(p) = e {
                if p.path.is_ident(self.0) {
                    *e = self.1.clone();
                    return;
                }
            }
            visit_mut::visit_expr_mut(self, e)
        }
    }
    fn lazy(e: &Expr) -> bool {
        match e {
            Expr::MethodCall(m) => match m.method.to_string().as_str() {
                "map" | "filter" | "filter_map" | "cloned" | "copied" | "flatten" | "flat_map" => lazy(&m.receiver),
                "iter" | "into_iter" | "values" | "keys" | "par_iter" => true,
                _ => false,
            },
            _ => false,
        }
    }
    let mut i = 0;
    while i + 1 < stmts.len() {
        let mut hit = None;
        if let Stmt::Local(a) = &stmts[i] {
            if let (syn::Pat::Ident(p), Some(init)) = (&a.pat, &a.init) {
                let adapted = match &*init.expr {
                    Expr::MethodCall(m) => {
                        ["map", "filter", "filter_map", "cloned", "copied", "flatten", "flat_map"].contains(&m.method.to_string().as_str())
                    }
                    _ => false,
                };
                if p.by_ref.is_none() && init.diverge.is_none() && adapted && lazy(&init.expr) {
                    let x = p.ident.to_string();
                    let count = |s: &[Stmt]| {
                        let mut u = Uses(&x, 0);
                        s.iter().for_each(|s| u.visit_stmt(s));
                        u.1
                    };
                    if count(&stmts[i + 1..i + 2]) == 1 && count(&stmts[i + 2..]) == 0 {
                        hit = Some((x, (*init.expr).clone()));
                    }
                }
            }
        }
        match hit {
            Some((x, e)) => {
                Put(&x, &e).visit_stmt_mut(&mut stmts[i + 1]);
                stmts.remove(i);
            }
            None => i += 1,
        }
    }
}

fn merge_collected(stmts: &mut Vec<Stmt>) {
    fn name(p: &syn::Pat) -> Option<String> {
        match p {
            syn::Pat::Ident(i) if i.subpat.is_none() => Some(i.ident.to_string()),
            syn::Pat::Type(t) => name(&t.pat),
            _ => None,
        }
    }
    let mut i = 0;
    while i + 1 < stmts.len() {
        let mut merged = None;
        if let (Stmt::Local(a), Stmt::Local(b)) = (&stmts[i], &stmts[i + 1]) {
            if let (Some(x), Some(y), Some(ai), Some(bi)) = (name(&a.pat), name(&b.pat), &a.init, &b.init) {
                let is_collect = match &*ai.expr {
                    Expr::MethodCall(m) => m.method == "collect",
                    _ => false,
                };
                let is_try = match &*bi.expr {
                    Expr::Try(t) => squash(&t.expr) == x,
                    _ => false,
                };
                if x == y && is_collect && is_try && ai.diverge.is_none() && bi.diverge.is_none() {
                    let e = (*ai.expr).clone();
                    let mut l = b.clone();
                    if let Some(n) = &mut l.init {
                        n.expr = Box::new(parse_quote!(#e?));
                    }
                    merged = Some(Stmt::Local(l));
                }
            }
        }
        if let Some(m) = merged {
            stmts[i] = m;
            stmts.remove(i + 1);
        }
        i += 1;
    }
}

/// `ITER.any(f)`, or `!ITER.all(f)`: the iterator, and the test with a name put in.
fn some_item(e: &Expr, not: bool, x: &syn::Ident) -> Option<(Expr, Expr)> {
    match strip_paren(e.clone()) {
        Expr::Unary(u) if matches!(u.op, syn::UnOp::Not(_)) => some_item(&u.expr, !not, x),
        Expr::MethodCall(m) if m.args.len() == 1 && m.method == if not { "all" } else { "any" } => {
            let Expr::Closure(c) = strip_paren(m.args[0].clone()) else { return None };
            let fl = find_flow(|x| x.visit_expr(&c.body));
            if fl.ret || fl.try_ || c.inputs.len() != 1 {
                return None;
            }
            let p = match &c.inputs[0] {
                syn::Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            };
            let (src, b) = (&m.receiver, &c.body);
            let t: Expr = if not { parse_quote!(!(#b)) } else { parse_quote!(#b) };
            Some((parse_quote!(#src), parse_quote!({ let #p = #x; #t })))
        }
        _ => None,
    }
}

/// `if ITER.any(f) { …return…; }` is a loop that returns at the first such item.
fn unroll_any(stmts: &mut Vec<Stmt>) {
    let x = quote::format_ident!("__q");
    for s in stmts.iter_mut() {
        let Stmt::Expr(Expr::If(i), _) = s else { continue };
        let leaves = matches!(i.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)));
        if i.else_branch.is_some() || !leaves {
            continue;
        }
        if let Some((src, t)) = some_item(&i.cond, false, &x) {
            let b = &i.then_branch;
            *s = parse_quote!(for #x in #src { if #t #b });
        }
    }
}

/// The value of a function is `ITER.any(f)` or `ITER.all(f)`: a loop that returns at the first such item.
fn tail_any(b: &mut Block) {
    let x = quote::format_ident!("__q");
    let Some(Stmt::Expr(e, None)) = b.stmts.last() else { return };
    let (src, t, hit) = match (some_item(e, false, &x), some_item(e, true, &x)) {
        (Some((src, t)), _) => (src, t, true),
        (_, Some((src, t))) => (src, t, false),
        _ => return,
    };
    let miss = !hit;
    b.stmts.pop();
    b.stmts.push(parse_quote!(for #x in #src { if #t { return #hit; } }));
    b.stmts.push(Stmt::Expr(parse_quote!(#miss), None));
}

impl<'a> VisitMut for Rewriter<'a> {
    fn visit_attribute_mut(&mut self, _: &mut syn::Attribute) {}

    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        let s = squash(t);
        let mut rules: Vec<(String, String)> = self.d.types.iter().chain(self.cfg.types.iter()).cloned().collect();
        // whole types before wrappers
        rules.sort_by_key(|(a, _)| a.ends_with("<$>"));
        for (a, b) in &rules {
            if let Some(pre) = a.strip_suffix("<$>") {
                if let syn::Type::Path(p) = t {
                    if let Some(seg) = p.path.segments.last() {
                        if seg.ident == pre {
                            if let syn::PathArguments::AngleBracketed(ab) = &seg.arguments {
                                let inner = ab.args.first().cloned();
                                if let Some(syn::GenericArgument::Type(inner)) = inner {
                                    if b == "$" {
                                        *t = inner;
                                        self.visit_type_mut(t);
                                        return;
                                    }
                                    let txt = b.replace('$', &inner.to_token_stream().to_string());
                                    *t = syn::parse_str(&txt).unwrap_or_else(|e| crate::die(&format!("type {}: {}", txt, e)));
                                    if let syn::Type::Path(p) = t {
                                        if let Some(seg) = p.path.segments.last_mut() {
                                            if let syn::PathArguments::AngleBracketed(ab) = &mut seg.arguments {
                                                for g in ab.args.iter_mut() {
                                                    if let syn::GenericArgument::Type(x) = g {
                                                        self.visit_type_mut(x)
                                                    }
                                                }
                                            }
                                        }
                                    }
                                    return;
                                }
                            }
                        }
                    }
                }
            } else if *a == s {
                *t = syn::parse_str(b).unwrap_or_else(|e| crate::die(&format!("type {}: {}", b, e)));
                return;
            }
        }
        visit_mut::visit_type_mut(self, t)
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        for s in b.stmts.iter_mut() {
            strip_stmt_attrs(s);
        }
        // macro statements
        let stmts = std::mem::take(&mut b.stmts);
        for s in stmts {
            match s {
                Stmt::Macro(m) => {
                    let n = m.mac.path.segments.last().unwrap().ident.to_string();
                    if n.starts_with("__vx") {
                        b.stmts.push(Stmt::Macro(m));
                        continue;
                    }
                    if is_log(&n) && !self.cfg.macros.iter().any(|(k, _)| *k == n) {
                        continue;
                    }
                    match self.mac(&m.mac) {
                        Some(e) => b.stmts.push(Stmt::Expr(e, m.semi_token)),
                        None => b.stmts.push(Stmt::Macro(m)),
                    }
                }
                Stmt::Item(syn::Item::Use(_)) | Stmt::Item(syn::Item::Enum(_)) | Stmt::Item(syn::Item::Struct(_)) => {}
                // a guard of a cell that is a plain value: a reference to that value
                Stmt::Local(mut l) => {
                    if let syn::Pat::Ident(p) = &mut l.pat {
                        if self.d.mutlets.contains(&p.ident.to_string()) {
                            p.mutability = Some(Default::default());
                        }
                    }
                    if let Some(init) = &mut l.init {
                        if let Some((r, mu)) = self.plain_guard(&init.expr) {
                            if let syn::Pat::Ident(p) = &mut l.pat {
                                p.mutability = None;
                            }
                            *init.expr = if mu { parse_quote!(&mut #r) } else { parse_quote!(&#r) };
                        }
                    }
                    b.stmts.push(Stmt::Local(l));
                }
                s => b.stmts.push(s),
            }
        }
        for f in self.cfg.dropped.clone() {
            self.dropped(&f, b);
        }
        merge_collected(&mut b.stmts);
        unroll_any(&mut b.stmts);
        merge_lazy(&mut b.stmts);
        for s in b.stmts.iter_mut() {
            // `x.extend(items);`: one by one
            if let Stmt::Expr(e @ Expr::MethodCall(_), Some(_)) = s {
                let Expr::MethodCall(m) = e.clone() else { continue };
                if m.method == "extend" && m.args.len() == 1 {
                    let (x, a) = (&m.receiver, &m.args[0]);
                    let v = self.tmp("x");
                    *e = if self.chain(a, &mut vec![]).is_some() {
                        parse_quote!(#a.for_each(|#v| #x.vx_put(#v)))
                    } else {
                        parse_quote!(for #v in #a { #x.vx_put(#v); })
                    };
                }
            }
        }
        visit_mut::visit_block_mut(self, b)
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // ---- before the children
        loop {
            match e {
                Expr::Await(a) => {
                    let b = (*a.base).clone();
                    *e = b;
                    continue;
                }
                Expr::Closure(c) if c.inputs.iter().any(|p| matches!(p, syn::Pat::Wild(_))) => {
                    for (k, p) in c.inputs.iter_mut().enumerate() {
                        if let syn::Pat::Wild(_) = p {
                            let id = syn::Ident::new(&format!("_p{}", k), proc_macro2::Span::call_site());
                            *p = parse_quote!(#id);
                        }
                    }
                    continue;
                }
                Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => {
                    // `*cell.write() = v`, where the cell is a plain value
                    if let Some((r, _)) = self.plain_guard(&u.expr) {
                        *e = r;
                        continue;
                    }
                }
                Expr::Async(a) => {
                    let b = a.block.clone();
                    *e = parse_quote!(#b);
                    continue;
                }
                Expr::Try(t) => {
                    let mut inner = (*t.expr).clone();
                    if let Expr::Await(a) = &inner {
                        inner = (*a.base).clone();
                    }
                    if let Some(n) = self.terminal(&inner, true) {
                        *e = n;
                        continue;
                    }
                }
                Expr::MethodCall(m) => {
                    if let Some(n) = self.entry(m) {
                        *e = n;
                        continue;
                    }
                    // some of the items of an iterator
                    if m.method == "choose_multiple" && m.args.len() == 2 {
                        let mut ad = vec![];
                        if self.chain(&m.receiver, &mut ad).is_some() {
                            let (x, g, n) = (&m.receiver, &m.args[0], &m.args[1]);
                            *e = parse_quote!(vx_choose_multiple(#x.collect::<Vec<_>>(), #g, #n));
                            continue;
                        }
                    }
                    let me = Expr::MethodCall(m.clone());
                    if let Some(n) = self.terminal(&me, false) {
                        *e = n;
                        continue;
                    }
                }
                Expr::ForLoop(f) => {
                    let f = f.clone();
                    *e = self.for_loop(f);
                    // children: visit the pieces of the produced block, but not the loop again
                    if let Expr::Block(b) = e {
                        for s in b.block.stmts.iter_mut() {
                            match s {
                                Stmt::Expr(Expr::While(w), _) => {
                                    visit_mut::visit_expr_mut(self, &mut w.cond);
                                    self.visit_block_mut(&mut w.body);
                                }
                                s => self.visit_stmt_mut(s),
                            }
                        }
                    }
                    return;
                }
                Expr::While(w) => {
                    if let Expr::Let(l) = &*w.cond {
                        let (p, x, b, lab) = (&l.pat, &l.expr, &w.body, &w.label);
                        let n: Expr = parse_quote!(#lab loop { match #x { #p => #b _ => break, } });
                        *e = n;
                        continue;
                    }
                    let (_, _, mark, s, en, a) = self.loop_head();
                    visit_mut::visit_expr_mut(self, &mut w.cond);
                    // while conditions need their own rewriting
                    let mut c = (*w.cond).clone();
                    self.visit_expr_mut(&mut c);
                    *w.cond = c;
                    self.visit_block_mut(&mut w.body);
                    w.body.stmts.insert(0, mark);
                    for (i, x) in s.into_iter().enumerate() {
                        w.body.stmts.insert(1 + i, x);
                    }
                    if let Some(Stmt::Expr(_, semi @ None)) = w.body.stmts.last_mut() {
                        if !en.is_empty() {
                            *semi = Some(Default::default());
                        }
                    }
                    w.body.stmts.extend(en);
                    if !a.is_empty() {
                        let w = w.clone();
                        *e = parse_quote!({ #w #(#a)* });
                    }
                    return;
                }
                Expr::Loop(w) => {
                    let (_, _, mark, s, en, a) = self.loop_head();
                    self.visit_block_mut(&mut w.body);
                    w.body.stmts.insert(0, mark);
                    for (i, x) in s.into_iter().enumerate() {
                        w.body.stmts.insert(1 + i, x);
                    }
                    if let Some(Stmt::Expr(_, semi @ None)) = w.body.stmts.last_mut() {
                        if !en.is_empty() {
                            *semi = Some(Default::default());
                        }
                    }
                    w.body.stmts.extend(en);
                    if !a.is_empty() {
                        let w = w.clone();
                        *e = parse_quote!({ #w #(#a)* });
                    }
                    return;
                }
                Expr::Macro(m) => {
                    if let Some(n) = self.mac(&m.mac.clone()) {
                        *e = n;
                        continue;
                    }
                }
                _ => {}
            }
            break;
        }
        // Rc::new(RefCell::new(x))
        if let Expr::Call(c) = e {
            let f = squash(&c.func);
            if (f == "Rc::new" || f == "Arc::new") && c.args.len() == 1 && !self.d.newcell.is_empty() {
                if let Expr::Call(c2) = &c.args[0] {
                    if ["RefCell::new", "RwLock::new", "Mutex::new"].contains(&squash(&c2.func).as_str()) {
                        let x = &c2.args[0];
                        let h: Expr = ex(&self.d.newcell);
                        *e = parse_quote!(vx_newcell(#x, #h));
                    }
                }
            }
        }
        // arm macros, attributes of arms
        if let Expr::Match(m) = e {
            for a in m.arms.iter_mut() {
                a.attrs.clear();
            }
        }
        // `match bytes { b"x" => .., _ => .. }`
        if let Expr::Match(m) = e {
            if let Some(n) = byte_match(m) {
                *e = n;
            }
        }
        if let Expr::Lit(syn::ExprLit { lit: syn::Lit::ByteStr(l), .. }) = e {
            let v = l.value();
            *e = parse_quote!(vx_b([#(#v),*]));
        }
        visit_mut::visit_expr_mut(self, e);
        // ---- after the children
        let mut out: Option<Expr> = None;
        match e {
            Expr::Call(c) => {
                let f = squash(&c.func);
                if (f == "Rc::clone"
                    || f == "Arc::clone"
                    || ((f.starts_with("Arc::<") || f.starts_with("Rc::<")) && f.ends_with(">::clone")))
                    && c.args.len() == 1
                {
                    let mut a = c.args[0].clone();
                    if let Expr::Reference(r) = a {
                        a = *r.expr;
                    }
                    out = Some(parse_quote!((#a).clone()));
                } else if ["Arc::new", "Rc::new", "Box::new", "RefCell::new", "RwLock::new", "Mutex::new"].contains(&f.as_str())
                    && c.args.len() == 1
                    && self.cfg.types.iter().any(|(a, b)| *b == "$" && *a == format!("{}<$>", f.split("::").next().unwrap()))
                {
                    out = Some(c.args[0].clone());
                } else {
                    let last = f.rsplit("::").next().unwrap().to_owned();
                    if let Some((_, h)) =
                        self.d.heapfns.iter().chain(self.cfg.heapfns.iter()).find(|(k, _)| *k == last || glob(k, &f))
                    {
                        for x in h {
                            c.args.push(ex(x));
                        }
                    }
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if (n == "borrow" || n == "borrow_mut" || n == "read" || n == "write" || n == "lock") && m.args.is_empty() {
                    let r = squash(&m.receiver);
                    let hit = self.cfg.cells.iter().find(|(g, _)| glob(g, &r)).map(|(_, h)| h.clone());
                    match hit {
                        Some(h) if h == "-" => {
                            let r = &m.receiver;
                            out = Some(parse_quote!(#r));
                        }
                        Some(h) => m.args.push(ex(&h)),
                        None => {
                            if n.starts_with("borrow") {
                                self.err(format!("borrow of unknown cell {}", r))
                            }
                        }
                    }
                } else if let Some(x) = if self.d.renames.iter().any(|(a, _)| *a == n) { None } else { self.combinator(&m.clone()) } {
                    out = Some(x);
                } else if n == "concat" && m.args.is_empty() {
                    if let Expr::Array(a) = strip_paren((*m.receiver).clone()) {
                        let id = syn::Ident::new(&format!("vx_concat{}", a.elems.len()), proc_macro2::Span::call_site());
                        let a: Vec<_> = a.elems.into_iter().collect();
                        out = Some(parse_quote!(#id(#(#a),*)));
                    }
                } else {
                    let full = format!("{}.{}", squash(&m.receiver), n);
                    if let Some((_, h)) =
                        self.d.heapfns.iter().chain(self.cfg.heapfns.iter()).find(|(k, _)| *k == n || glob(k, &full))
                    {
                        for x in h {
                            m.args.push(ex(x));
                        }
                    }
                    for (a, b) in self.d.renames.iter().chain(self.cfg.methods.iter()) {
                        let (name, ar) = match a.split_once('/') {
                            Some((x, y)) => (x.to_owned(), y.parse::<usize>().ok()),
                            None => (a.clone(), None),
                        };
                        if name == n && ar.map(|k| k == m.args.len()).unwrap_or(true) {
                            if b == "-" {
                                let r = &m.receiver;
                                out = Some(parse_quote!(#r));
                            } else {
                                m.method = syn::Ident::new(b, m.method.span());
                            }
                            break;
                        }
                    }
                }
            }
            Expr::Index(x) => {
                let s = squash(&x.expr);
                if self.cfg.indexes.iter().any(|g| glob(g, &s)) {
                    let (a, i) = (&x.expr, &x.index);
                    out = Some(parse_quote!(vx_at(&(#a), #i)));
                }
            }
            Expr::Path(p) => {
                let s = squash(p);
                if let Some((_, b)) = self.cfg.paths.iter().find(|(a, _)| *a == s) {
                    out = Some(ex(b));
                } else if p.path.segments.len() == 1 && self.cfg.lazies.contains(&s) {
                    out = Some(ex(&format!("(*vx_static_{}())", s)));
                }
            }
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => {
                // *LAZY
                let inner = strip_paren((*u.expr).clone());
                if squash(&inner).starts_with("*vx_static_") && matches!(inner, Expr::Unary(_)) {
                    out = Some((*u.expr).clone());
                }
            }
            Expr::Binary(b) => {
                let op = squash(&b.op);
                if op == "+=" || op == "-=" {
                    let l = squash(&b.left);
                    if self.cfg.opassign.iter().chain(self.d.opassign.iter()).any(|g| glob(g, &l)) {
                        let (x, y) = (&b.left, &b.right);
                        out = Some(if op == "+=" {
                            parse_quote!((#x).vx_add_assign(#y))
                        } else {
                            parse_quote!((#x).vx_sub_assign(#y))
                        });
                    }
                }
            }
            Expr::Reference(r) => {
                if let Expr::Index(i) = &*r.expr {
                    if let Some(x) = self.slice(i) {
                        if r.mutability.is_some() {
                            self.err("mutable slice");
                        }
                        out = Some(x);
                    }
                }
            }
            Expr::Index(i) => {
                // `&E[a..b]` is handled by the parent reference
                let _ = i;
            }
            _ => {}
        }
        if let Some(x) = out {
            *e = x;
        }
    }
}

// `squash` is used with references to syn nodes
#[allow(dead_code)]
fn _unused<T: ToTokens>(t: &T) -> String {
    squash(t)
}
