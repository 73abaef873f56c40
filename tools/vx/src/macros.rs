//! `macro_rules!` macros of /repo, expanded as the compiler does: by pattern, with substitution and
//! with the local variables of the macro kept apart from those of the caller.
use std::collections::{BTreeMap, BTreeSet};

use proc_macro2::{Delimiter, Group, Ident, Spacing, TokenStream, TokenTree};
use quote::ToTokens;
use syn::parse::{Parse, ParseStream, Parser};
use syn::visit_mut::{self, VisitMut};
use syn::{Block, Expr, Item, Stmt};

#[derive(Clone, Debug)]
enum Pat {
    Tok(TokenTree),
    Group(Delimiter, Vec<Pat>),
    Var(String, String),
    Rep(Vec<Pat>, Option<String>, char),
}

#[derive(Clone, Debug)]
enum Bind {
    One(TokenStream),
    Many(Vec<BTreeMap<String, Bind>>),
}
type Binds = BTreeMap<String, Bind>;

#[derive(Clone, Debug)]
pub struct Macro {
    rules: Vec<(Vec<Pat>, TokenStream)>,
}

pub type Macros = BTreeMap<String, Macro>;

fn pats(ts: TokenStream) -> Option<Vec<Pat>> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut o = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => match v.get(i + 1)? {
                TokenTree::Ident(n) => {
                    // $name : frag
                    match v.get(i + 3)? {
                        TokenTree::Ident(f) => o.push(Pat::Var(n.to_string(), f.to_string())),
                        _ => return None,
                    }
                    i += 4;
                }
                TokenTree::Group(g) => {
                    let inner = pats(g.stream())?;
                    let mut j = i + 2;
                    let mut sep = None;
                    let op = loop {
                        match v.get(j)? {
                            TokenTree::Punct(p) if "*+?".contains(p.as_char()) => break p.as_char(),
                            t => sep = Some(format!("{}{}", sep.unwrap_or_default(), t)),
                        }
                        j += 1;
                    };
                    o.push(Pat::Rep(inner, sep, op));
                    i = j + 1;
                }
                _ => return None,
            },
            TokenTree::Group(g) => {
                o.push(Pat::Group(g.delimiter(), pats(g.stream())?));
                i += 1;
            }
            t => {
                o.push(Pat::Tok(t.clone()));
                i += 1;
            }
        }
    }
    Some(o)
}

fn simple(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Field(_) | Expr::Paren(_)
        | Expr::Macro(_) | Expr::Index(_) | Expr::Tuple(_) | Expr::Array(_) | Expr::Block(_) => true,
        _ => false,
    }
}

fn match_pats(ps: &[Pat], input: ParseStream, b: &mut Binds) -> syn::Result<()> {
    for (k, p) in ps.iter().enumerate() {
        match p {
            Pat::Tok(t) => {
                let got: TokenTree = input.parse()?;
                if got.to_string() != t.to_string() {
                    return Err(input.error("token"));
                }
            }
            Pat::Group(d, inner) => {
                let got: TokenTree = input.parse()?;
                let TokenTree::Group(g) = got else { return Err(input.error("group")) };
                if g.delimiter() != *d {
                    return Err(input.error("delimiter"));
                }
                let mut nb = Binds::new();
                (|i: ParseStream| -> syn::Result<()> {
                    match_pats(inner, i, &mut nb)?;
                    if i.is_empty() {
                        Ok(())
                    } else {
                        Err(i.error("rest"))
                    }
                })
                .parse2(g.stream())?;
                b.extend(nb);
            }
            Pat::Var(n, f) => {
                let ts = match f.as_str() {
                    "expr" => {
                        let e: Expr = input.parse()?;
                        if simple(&e) {
                            e.to_token_stream()
                        } else {
                            quote::quote!((#e))
                        }
                    }
                    "ident" => {
                        // `self` counts as an identifier here
                        let t: TokenTree = input.parse()?;
                        match t {
                            TokenTree::Ident(i) => i.to_token_stream(),
                            _ => return Err(input.error("ident")),
                        }
                    }
                    "ty" => input.parse::<syn::Type>()?.to_token_stream(),
                    "path" => input.parse::<syn::Path>()?.to_token_stream(),
                    "pat" => syn::Pat::parse_multi(input)?.to_token_stream(),
                    "block" => input.parse::<Block>()?.to_token_stream(),
                    "literal" => input.parse::<syn::Lit>()?.to_token_stream(),
                    "lifetime" => input.parse::<syn::Lifetime>()?.to_token_stream(),
                    "tt" => input.parse::<TokenTree>()?.to_token_stream(),
                    "vis" => input.parse::<syn::Visibility>()?.to_token_stream(),
                    _ => return Err(input.error("fragment")),
                };
                b.insert(n.clone(), Bind::One(ts));
            }
            Pat::Rep(inner, sep, op) => {
                let _ = k;
                let mut many: Vec<Binds> = vec![];
                loop {
                    if input.is_empty() {
                        break;
                    }
                    let f = input.fork();
                    if !many.is_empty() {
                        if let Some(s) = sep {
                            let mut txt = String::new();
                            let mut ok = true;
                            while txt.len() < s.len() {
                                match f.parse::<TokenTree>() {
                                    Ok(t) => txt.push_str(&t.to_string()),
                                    Err(_) => {
                                        ok = false;
                                        break;
                                    }
                                }
                            }
                            if !ok || txt != *s {
                                break;
                            }
                        }
                    }
                    let mut nb = Binds::new();
                    if match_pats(inner, &f, &mut nb).is_err() {
                        break;
                    }
                    many.push(nb);
                    use syn::parse::discouraged::Speculative;
                    input.advance_to(&f);
                    if *op == '?' {
                        break;
                    }
                }
                if *op == '+' && many.is_empty() {
                    return Err(input.error("repetition"));
                }
                let mut names = BTreeSet::new();
                vars(inner, &mut names);
                for n in names {
                    b.insert(n, Bind::Many(many.clone()));
                }
            }
        }
    }
    Ok(())
}

fn vars(ps: &[Pat], out: &mut BTreeSet<String>) {
    for p in ps {
        match p {
            Pat::Var(n, _) => {
                out.insert(n.clone());
            }
            Pat::Group(_, i) => vars(i, out),
            Pat::Rep(i, ..) => vars(i, out),
            _ => {}
        }
    }
}

fn locals(ts: &TokenStream, out: &mut BTreeSet<String>) {
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    for (i, t) in v.iter().enumerate() {
        if let TokenTree::Group(g) = t {
            locals(&g.stream(), out)
        }
        if let TokenTree::Ident(k) = t {
            if k == "let" || k == "for" {
                let mut j = i + 1;
                if matches!(v.get(j), Some(TokenTree::Ident(m)) if m == "mut") {
                    j += 1
                }
                if let Some(TokenTree::Ident(n)) = v.get(j) {
                    let n = n.to_string();
                    if !n.starts_with(char::is_uppercase) {
                        out.insert(n);
                    } else if let Some(TokenTree::Group(g)) = v.get(j + 1) {
                        // `let Some(x)`
                        for t in g.stream() {
                            if let TokenTree::Ident(n) = t {
                                let n = n.to_string();
                                if n.starts_with(char::is_lowercase) && !["ref", "mut"].contains(&n.as_str()) {
                                    out.insert(n);
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}

fn used_vars(ts: &TokenStream, out: &mut BTreeSet<String>) {
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    for (i, t) in v.iter().enumerate() {
        match t {
            TokenTree::Group(g) => used_vars(&g.stream(), out),
            TokenTree::Punct(p) if p.as_char() == '$' => {
                if let Some(TokenTree::Ident(n)) = v.get(i + 1) {
                    out.insert(n.to_string());
                }
            }
            _ => {}
        }
    }
}

fn subst(ts: TokenStream, b: &Binds, locals: &BTreeSet<String>, tag: usize) -> Option<TokenStream> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut o = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => match v.get(i + 1)? {
                TokenTree::Ident(n) if n == "crate" => {
                    o.extend(n.to_token_stream());
                    i += 2;
                }
                TokenTree::Ident(n) => {
                    match b.get(&n.to_string())? {
                        Bind::One(t) => o.extend(t.clone()),
                        Bind::Many(_) => return None,
                    }
                    i += 2;
                }
                TokenTree::Group(g) => {
                    let mut used = BTreeSet::new();
                    used_vars(&g.stream(), &mut used);
                    let many = used.iter().find_map(|n| match b.get(n) {
                        Some(Bind::Many(m)) => Some(m.clone()),
                        _ => None,
                    })?;
                    let mut j = i + 2;
                    let mut sep = TokenStream::new();
                    loop {
                        match v.get(j)? {
                            TokenTree::Punct(p) if "*+?".contains(p.as_char()) => break,
                            t => sep.extend(t.to_token_stream()),
                        }
                        j += 1;
                    }
                    for (k, m) in many.iter().enumerate() {
                        if k > 0 {
                            o.extend(sep.clone());
                        }
                        let mut nb = b.clone();
                        nb.extend(m.clone());
                        o.extend(subst(g.stream(), &nb, locals, tag)?);
                    }
                    i = j + 1;
                }
                _ => return None,
            },
            TokenTree::Group(g) => {
                let mut ng = Group::new(g.delimiter(), subst(g.stream(), b, locals, tag)?);
                ng.set_span(g.span());
                o.extend(TokenTree::Group(ng).to_token_stream());
                i += 1;
            }
            TokenTree::Ident(n) => {
                let after_dot = i > 0
                    && matches!(&v[i - 1], TokenTree::Punct(p) if p.as_char() == '.' && p.spacing() == Spacing::Alone)
                    && !(i > 1 && matches!(&v[i - 2], TokenTree::Punct(p) if p.as_char() == '.'));
                if locals.contains(&n.to_string()) && !after_dot {
                    o.extend(Ident::new(&format!("__m{}_{}", tag, n), n.span()).to_token_stream());
                } else {
                    o.extend(n.to_token_stream());
                }
                i += 1;
            }
            t => {
                o.extend(t.to_token_stream());
                i += 1;
            }
        }
    }
    Some(o)
}

impl Parse for Macro {
    fn parse(i: ParseStream) -> syn::Result<Self> {
        let mut rules = vec![];
        while !i.is_empty() {
            let p: TokenTree = i.parse()?;
            let _: syn::Token![=>] = i.parse()?;
            let b: TokenTree = i.parse()?;
            if !i.is_empty() {
                let _: syn::Token![;] = i.parse()?;
            }
            let (TokenTree::Group(p), TokenTree::Group(b)) = (p, b) else { return Err(i.error("rule")) };
            let Some(ps) = pats(p.stream()) else { return Err(i.error("pattern")) };
            rules.push((ps, b.stream()));
        }
        Ok(Macro { rules })
    }
}

pub fn collect(items: &[Item], out: &mut Macros) {
    for it in items {
        match it {
            Item::Macro(m) if m.mac.path.is_ident("macro_rules") => {
                if let Some(id) = &m.ident {
                    if let Ok(x) = syn::parse2::<Macro>(m.mac.tokens.clone()) {
                        out.insert(id.to_string(), x);
                    }
                }
            }
            Item::Mod(m) => {
                if let Some((_, items)) = &m.content {
                    collect(items, out)
                }
            }
            _ => {}
        }
    }
}

pub fn expand(ms: &Macros, mac: &syn::Macro, tag: &mut usize) -> Option<TokenStream> {
    let n = mac.path.segments.last()?.ident.to_string();
    let m = ms.get(&n)?;
    for (ps, body) in &m.rules {
        let mut b = Binds::new();
        let ok = (|i: ParseStream| -> syn::Result<()> {
            match_pats(ps, i, &mut b)?;
            if i.is_empty() {
                Ok(())
            } else {
                Err(i.error("rest"))
            }
        })
        .parse2(mac.tokens.clone())
        .is_ok();
        if ok {
            *tag += 1;
            let mut l = BTreeSet::new();
            locals(body, &mut l);
            return subst(body.clone(), &b, &l, *tag);
        }
    }
    None
}

pub fn expand_items(items: Vec<Item>, ms: &Macros, tag: &mut usize, depth: usize) -> Vec<Item> {
    let mut out = vec![];
    for it in items {
        if let Item::Macro(m) = &it {
            if m.ident.is_none() && depth < 8 {
                if let Some(ts) = expand(ms, &m.mac, tag) {
                    if let Ok(f) = syn::parse2::<syn::File>(ts) {
                        out.extend(expand_items(f.items, ms, tag, depth + 1));
                        continue;
                    }
                }
            }
        }
        out.push(it);
    }
    out
}

/// Expands the macros of a function body; returns how many were expanded.
pub fn expand_block(b: &mut Block, ms: &Macros, tag: &mut usize) -> usize {
    struct X<'a> {
        ms:    &'a Macros,
        tag:   &'a mut usize,
        n:     usize,
        depth: usize,
    }
    impl<'a> VisitMut for X<'a> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let stmts = std::mem::take(&mut b.stmts);
            let mut work: Vec<(Stmt, usize)> = stmts.into_iter().rev().map(|s| (s, 0)).collect();
            while let Some((s, d)) = work.pop() {
                if let Stmt::Macro(m) = &s {
                    if d < 8 {
                        if let Some(ts) = expand(self.ms, &m.mac, self.tag) {
                            if let Ok(mut v) = Block::parse_within.parse2(ts) {
                                self.n += 1;
                                if m.semi_token.is_some() {
                                    if let Some(Stmt::Expr(_, semi @ None)) = v.last_mut() {
                                        *semi = Some(Default::default());
                                    }
                                }
                                for x in v.into_iter().rev() {
                                    work.push((x, d + 1));
                                }
                                continue;
                            }
                        }
                    }
                }
                b.stmts.push(s);
            }
            visit_mut::visit_block_mut(self, b)
        }

        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Macro(m) = e {
                if self.depth < 8 {
                    if let Some(ts) = expand(self.ms, &m.mac, self.tag) {
                        let got: Option<Expr> = match syn::parse2::<Expr>(ts.clone()) {
                            Ok(x) => Some(x),
                            Err(_) => Block::parse_within.parse2(ts).ok().map(|stmts| syn::parse_quote!({ #(#stmts)* })),
                        };
                        if let Some(x) = got {
                            self.n += 1;
                            *e = x;
                            self.depth += 1;
                            self.visit_expr_mut(e);
                            self.depth -= 1;
                            return;
                        }
                    }
                }
            }
            visit_mut::visit_expr_mut(self, e)
        }
    }
    // macros defined inside the body
    struct L<'a>(&'a mut Macros);
    impl<'a> VisitMut for L<'a> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let mut own = vec![];
            b.stmts.retain(|s| match s {
                Stmt::Item(i @ Item::Macro(m)) if m.mac.path.is_ident("macro_rules") => {
                    own.push(i.clone());
                    false
                }
                _ => true,
            });
            collect(&own, self.0);
            visit_mut::visit_block_mut(self, b)
        }
    }
    let mut all = ms.clone();
    L(&mut all).visit_block_mut(b);
    let mut x = X { ms: &all, tag, n: 0, depth: 0 };
    x.visit_block_mut(b);
    x.n
}
