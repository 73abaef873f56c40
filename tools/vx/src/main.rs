//! vx: mechanical extraction of functions of /repo into Verus files.
//!
//! vx gen --unit U.vrs --repo /repo --out OUT.rs --map OUT.json [--degrade f,g] [--vacuity] [--sigs FILE] [--write-sigs FILE]
//!
//! A unit file is Verus text plus directives (lines starting with `//@`); see DESIGN.md.
mod macros;
mod rules;
mod unit;

use std::collections::{BTreeMap, BTreeSet};
use std::fs;

use proc_macro2::TokenStream;
use quote::ToTokens;

use rules::{Cfg, Rewriter};
use unit::{Chunk, FnDir, ItemDir};

pub fn die(msg: &str) -> ! {
    eprintln!("vx: {}", msg);
    std::process::exit(3)
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn tok(s: &str) -> String {
    s.parse::<TokenStream>()
        .unwrap_or_else(|e| die(&format!("bad tokens {:?}: {}", s, e)))
        .to_string()
}

/// Tokens without any whitespace, for comparisons.
pub fn squash<T: ToTokens>(t: &T) -> String {
    t.to_token_stream()
        .to_string()
        .chars()
        .filter(|c| !c.is_whitespace())
        .collect()
}

#[derive(Clone)]
pub struct FoundFn {
    pub sig:     syn::Signature,
    pub block:   Option<syn::Block>,
    pub line:    usize,
    #[allow(dead_code)]
    pub in_impl: bool,
}

fn last_seg(ty: &syn::Type) -> String {
    match ty {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => last_seg(&r.elem),
        _ => String::new(),
    }
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = squash(a);
        s.contains("cfg(test)") || s == "#[test]"
    })
}

/// What prost's derived code needs to be lossless: every field has a tag, no tag is used twice, and a
/// oneof field lists exactly the tags of its variants.
fn prost_tags(name: &str, fields: &[Vec<syn::Attribute>], oneof: bool) -> Result<String, String> {
    let value = |t: &str, key: &str| -> Option<String> {
        let pat = format!("{}=\"", key);
        let mut from = 0;
        while let Some(i) = t[from..].find(&pat) {
            let at = from + i;
            if at == 0 || !t.as_bytes()[at - 1].is_ascii_alphanumeric() {
                let rest = &t[at + pat.len()..];
                return rest.find('"').map(|j| rest[..j].to_owned());
            }
            from = at + pat.len();
        }
        None
    };
    let nums = |t: &str| -> Result<Vec<u32>, String> {
        t.split(',').map(|x| x.trim().parse::<u32>().map_err(|_| format!("{}: tag {:?}", name, x))).collect()
    };
    let mut all: Vec<u32> = vec![];
    let mut body = String::new();
    for attrs in fields {
        let a = attrs.iter().find(|a| a.path().is_ident("prost")).ok_or_else(|| format!("{}: a field without a prost attribute", name))?;
        let t = squash(a);
        if let Some(o) = value(&t, "oneof") {
            let tags = nums(&value(&t, "tags").ok_or_else(|| format!("{}: oneof without tags", name))?)?;
            let list = tags.iter().map(|n| format!("{}int", n)).collect::<Vec<_>>().join(", ");
            body.push_str(&format!("    assert(set![{}] =~= prost_set_{}());\n", list, o.rsplit("::").next().unwrap()));
            all.extend(tags);
        } else {
            all.extend(nums(&value(&t, "tag").ok_or_else(|| format!("{}: a field without a tag", name))?)?);
        }
    }
    for i in 0..all.len() {
        for j in 0..i {
            body.push_str(&format!("    assert({}int != {}int);\n", all[j], all[i]));
        }
    }
    let mut out = format!("pub proof fn prost_tags_{}() {{\n{}}}\n", name, body);
    if oneof {
        let list = all.iter().map(|n| format!("{}int", n)).collect::<Vec<_>>().join(", ");
        out.push_str(&format!("pub open spec fn prost_set_{}() -> Set<int> {{ set![{}] }}\n", name, list));
    }
    Ok(out)
}

/// Selector: `name`, `Type::name` or `Type@TraitTokens::name`.
pub fn find_fn(items: &[syn::Item], sel: &str, out: &mut Vec<FoundFn>) {
    let (ty, name) = match sel.rfind("::") {
        Some(i) => (Some(&sel[..i]), &sel[i + 2..]),
        None => (None, sel),
    };
    for it in items {
        match it {
            syn::Item::Fn(f) if ty.is_none() && f.sig.ident == name && !is_test(&f.attrs) => {
                out.push(FoundFn {
                    sig:     f.sig.clone(),
                    block:   Some((*f.block).clone()),
                    line:    f.sig.ident.span().start().line,
                    in_impl: false,
                })
            }
            syn::Item::Impl(im) if !is_test(&im.attrs) => {
                let Some(ty) = ty else { continue };
                let (tn, tr) = match ty.find('@') {
                    Some(i) => (&ty[..i], Some(&ty[i + 1..])),
                    None => (ty, None),
                };
                let self_full = squash(&*im.self_ty);
                if last_seg(&im.self_ty) != tn && self_full != tn {
                    continue;
                }
                if let Some(tr) = tr {
                    match &im.trait_ {
                        Some((_, p, _)) => {
                            let full = squash(p);
                            let last = p.segments.last().map(|s| squash(s)).unwrap_or_default();
                            let bare = p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                            if full != tr && last != tr && bare != tr {
                                continue;
                            }
                        }
                        None => {
                            if tr != "-" {
                                continue;
                            }
                        }
                    }
                }
                for ii in &im.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        if f.sig.ident == name {
                            out.push(FoundFn {
                                sig:     f.sig.clone(),
                                block:   Some(f.block.clone()),
                                line:    f.sig.ident.span().start().line,
                                in_impl: true,
                            })
                        }
                    }
                }
            }
            syn::Item::Trait(t) => {
                let Some(ty) = ty else { continue };
                if t.ident != ty {
                    continue;
                }
                for ii in &t.items {
                    if let syn::TraitItem::Fn(f) = ii {
                        if f.sig.ident == name {
                            out.push(FoundFn {
                                sig:     f.sig.clone(),
                                block:   f.default.clone(),
                                line:    f.sig.ident.span().start().line,
                                in_impl: true,
                            })
                        }
                    }
                }
            }
            syn::Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, items)) = &m.content {
                    find_fn(items, sel, out)
                }
            }
            _ => {}
        }
    }
}

/// Every function of a file by bare name, for inlining of functions without a contract.
pub fn all_fns(items: &[syn::Item], out: &mut BTreeMap<String, Vec<FoundFn>>) {
    for it in items {
        match it {
            syn::Item::Fn(f) if !is_test(&f.attrs) => {
                out.entry(f.sig.ident.to_string()).or_default().push(FoundFn {
                    sig:     f.sig.clone(),
                    block:   Some((*f.block).clone()),
                    line:    0,
                    in_impl: false,
                })
            }
            syn::Item::Impl(im) if !is_test(&im.attrs) => {
                for ii in &im.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        out.entry(f.sig.ident.to_string()).or_default().push(FoundFn {
                            sig:     f.sig.clone(),
                            block:   Some(f.block.clone()),
                            line:    0,
                            in_impl: true,
                        })
                    }
                }
            }
            syn::Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, items)) = &m.content {
                    all_fns(items, out)
                }
            }
            _ => {}
        }
    }
}

fn find_item<'a>(items: &'a [syn::Item], kind: &str, name: &str) -> Option<&'a syn::Item> {
    for it in items {
        let hit = match it {
            syn::Item::Struct(s) => kind == "struct" && s.ident == name,
            syn::Item::Enum(s) => kind == "enum" && s.ident == name,
            syn::Item::Const(s) => kind == "const" && s.ident == name,
            syn::Item::Type(s) => kind == "type" && s.ident == name,
            syn::Item::Macro(m) => {
                if kind == "lazy" && m.mac.path.segments.last().unwrap().ident == "lazy_static" {
                    squash(&m.mac.tokens).contains(&format!("ref{}:", name))
                } else {
                    false
                }
            }
            syn::Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, items)) = &m.content {
                    if let Some(x) = find_item(items, kind, name) {
                        return Some(x);
                    }
                }
                false
            }
            _ => false,
        };
        if hit {
            return Some(it);
        }
    }
    None
}

pub struct Files {
    repo:   String,
    cache:  BTreeMap<String, Option<syn::File>>,
    macros: BTreeMap<String, macros::Macros>,
    shared: macros::Macros,
}

impl Files {
    pub fn get(&mut self, path: &str) -> Option<syn::File> {
        if !self.cache.contains_key(path) {
            let full = format!("{}/{}", self.repo, path);
            let mut f = fs::read_to_string(&full).ok().and_then(|t| syn::parse_file(&t).ok());
            if let Some(f) = f.as_mut() {
                let mut ms = self.shared.clone();
                macros::collect(&f.items, &mut ms);
                let mut tag = 0;
                f.items = macros::expand_items(std::mem::take(&mut f.items), &ms, &mut tag, 0);
                // types defined inside function bodies, for `//@item`
                struct Loc(Vec<syn::Item>);
                impl<'a> syn::visit::Visit<'a> for Loc {
                    fn visit_block(&mut self, b: &'a syn::Block) {
                        for s in &b.stmts {
                            if let syn::Stmt::Item(i @ (syn::Item::Enum(_) | syn::Item::Struct(_))) = s {
                                self.0.push(i.clone());
                            }
                        }
                        syn::visit::visit_block(self, b)
                    }
                }
                let mut loc = Loc(vec![]);
                syn::visit::Visit::visit_file(&mut loc, f);
                f.items.extend(loc.0);
                self.macros.insert(path.to_owned(), ms);
            }
            self.cache.insert(path.to_owned(), f);
        }
        self.cache[path].clone()
    }
}

fn rustfmt(src: &str) -> Option<String> {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let mut c = Command::new("rustfmt").current_dir("/")
        .args(["--edition", "2021", "--config", "max_width=100", "--emit", "stdout"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    c.stdin.take()?.write_all(src.as_bytes()).ok()?;
    let o = c.wait_with_output().ok()?;
    if !o.status.success() {
        return None;
    }
    String::from_utf8(o.stdout).ok()
}

/// Output of one function directive.
struct Emitted {
    text:   String,
    status: &'static str, // "ok" | "lost" | "degraded"
    reason: String,
    line:   usize,
    notes:  BTreeSet<String>,
    sig:    String,
    loops:  usize,
}

fn spec_text(d: &FnDir, with_ensures: bool) -> String {
    let mut s = String::new();
    for (kw, t) in [("requires", &d.requires), ("ensures", &d.ensures), ("decreases", &d.decreases)] {
        if t.trim().is_empty() || (kw != "requires" && !with_ensures) {
            continue;
        }
        s.push_str(&format!("    {}\n{}\n", kw, t.trim_end()));
    }
    s
}

fn build_sig(sig: &syn::Signature, d: &FnDir, cfg: &Cfg, name: &str) -> String {
    if let Some(s) = &d.sig {
        let g = d.generics.clone().unwrap_or_default();
        return format!("{}fn {}{}{}", if d.nopub { "" } else { "pub " }, name, g, s);
    }
    let mut sig = sig.clone();
    sig.asyncness = None;
    let mut rw = Rewriter::new(cfg, d);
    rw.types_only(&mut sig);
    let mut params = vec![];
    for a in &sig.inputs {
        params.push(a.to_token_stream().to_string());
    }
    if !d.params.is_empty() {
        params.push(d.params.clone());
    }
    let ret = match &sig.output {
        syn::ReturnType::Default => String::new(),
        syn::ReturnType::Type(_, t) => format!(" -> ({}: {})", d.ret, t.to_token_stream()),
    };
    let (ig, wc) = match &d.generics {
        Some(g) => (g.clone(), String::new()),
        None => {
            let mut g = sig.generics.clone();
            let wc = g.where_clause.take();
            (g.to_token_stream().to_string(), wc.map(|w| w.to_token_stream().to_string()).unwrap_or_default())
        }
    };
    format!("{}fn {}{}({}){} {}", if d.nopub { "" } else { "pub " }, name, ig, params.join(", "), ret, wc)
}

struct AsyncCut {
    call:  String,
    block: Option<syn::Block>,
    n:     usize,
}

impl syn::visit_mut::VisitMut for AsyncCut {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Async(a) = e {
            self.n += 1;
            self.block = Some(a.block.clone());
            if !self.call.is_empty() {
                *e = syn::parse_str(&self.call).unwrap_or_else(|x| die(&format!("bad call {}: {}", self.call, x)));
            }
            return;
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}

/// `fn f(mut self)`: the verifier knows no mutable binding of self, so the body works on a local of its own.
fn own_self(block: &mut syn::Block, sig: &syn::Signature) {
    struct Own;
    impl syn::visit_mut::VisitMut for Own {
        fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
            if p.path.is_ident("self") {
                *p = syn::parse_quote!(__self);
            }
        }

        fn visit_item_mut(&mut self, _: &mut syn::Item) {}
    }
    if let Some(syn::FnArg::Receiver(r)) = sig.inputs.first() {
        if r.reference.is_none() && r.colon_token.is_none() && r.mutability.is_some() {
            syn::visit_mut::VisitMut::visit_block_mut(&mut Own, block);
            block.stmts.insert(0, syn::parse_quote!(let mut __self = self;));
        }
    }
}

fn emit_fn(
    d: &FnDir,
    files: &mut Files,
    cfg: &Cfg,
    degraded: bool,
    vacuity: bool,
    sigs: &BTreeMap<String, String>,
) -> Emitted {
    let mut e = Emitted {
        text:   String::new(),
        status: "ok",
        reason: String::new(),
        line:   0,
        notes:  BTreeSet::new(),
        sig:    String::new(),
        loops:  0,
    };
    let lost = |mut e: Emitted, why: String| -> Emitted {
        e.status = "lost";
        e.reason = why;
        let known = if e.sig.is_empty() { sigs.get(&d.key).cloned() } else { Some(e.sig.clone()) };
        match known {
            Some(sig) => {
                e.sig = sig.clone();
                e.text = format!(
                    "#[verifier::external_body]\n{}\n{}{{ unimplemented!() }}\n",
                    sig,
                    spec_text(d, true)
                );
            }
            None => e.reason.push_str(" (and no recorded signature)"),
        }
        e
    };
    let Some(file) = files.get(&d.file) else {
        return lost(e, format!("{} is missing or does not parse", d.file));
    };
    let mut found = vec![];
    let (sel, part) = match d.selector.split_once('#') {
        Some((a, b)) => (a.to_owned(), Some(b.to_owned())),
        None => (d.selector.clone(), None),
    };
    find_fn(&file.items, &sel, &mut found);
    if found.len() != 1 {
        return lost(e, format!("{} functions match {}", found.len(), sel));
    }
    let f = found.pop().unwrap();
    e.line = f.line;
    let Some(mut block) = f.block.clone() else {
        return lost(e, "no body".into());
    };
    if part.as_deref() == Some("async") || !d.asyncs.is_empty() {
        // the one `async` block of the function: its body on its own, or a call of it in its place
        let mut c = AsyncCut { call: d.asyncs.clone(), block: None, n: 0 };
        syn::visit_mut::VisitMut::visit_block_mut(&mut c, &mut block);
        if c.n != 1 {
            return lost(e, format!("{} async blocks", c.n));
        }
        if d.asyncs.is_empty() {
            block = c.block.unwrap();
        }
    }
    let sig = build_sig(&f.sig, d, cfg, &d.name);
    e.sig = sig.clone();
    if let Some(old) = sigs.get(&d.key) {
        // A changed signature is not an error: callers are checked against the new one.
        if *old != sig {
            e.notes.insert("signature differs from the recorded one".into());
        }
    }
    if degraded || d.assume {
        e.status = if d.assume { "assumed" } else { "degraded" };
        e.text = format!(
            "#[verifier::external_body]\n{}\n{}{{ unimplemented!() }}\n",
            sig,
            spec_text(d, true)
        );
        return e;
    }
    if vacuity {
        e.text = format!(
            "#[verifier::external_body]\n{}\n{}{{ unimplemented!() }}\n",
            sig,
            spec_text(d, true)
        );
        if !d.requires.trim().is_empty() {
            let vs = build_sig(&f.sig, d, cfg, &format!("vxvac_{}", d.name));
            e.text.push_str(&format!("{}\n{}{{ assert(false); vx_any() }}\n", vs, spec_text(d, false)));
        }
        return e;
    }
    let mut helpers = BTreeMap::new();
    all_fns(&file.items, &mut helpers);
    let mut tag = 0;
    let ms = files.macros.get(&d.file).cloned().unwrap_or_default();
    macros::expand_block(&mut block, &ms, &mut tag);
    for fs in helpers.values_mut() {
        for f in fs.iter_mut() {
            if let Some(b) = f.block.as_mut() {
                macros::expand_block(b, &ms, &mut tag);
            }
        }
    }
    let mut rw = Rewriter::new(cfg, d);
    rw.helpers = helpers;
    let ran = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rw.run(&mut block, &f.sig)));
    if ran.is_err() {
        return lost(e, "the rewriting failed on this body".into());
    }
    e.notes.extend(rw.notes.iter().cloned());
    e.loops = rw.n_loops;
    if let Some(err) = rw.errors.first() {
        return lost(e, err.clone());
    }
    own_self(&mut block, &f.sig);
    let want: BTreeSet<usize> = d.loops.keys().cloned().collect();
    let have: BTreeSet<usize> = (0..rw.n_loops).collect();
    if want != have {
        return lost(e, format!("loop annotations {:?} do not fit the {} loops of the function", want, rw.n_loops));
    }
    for k in d.ats.keys() {
        if !rw.used_ats.contains(k) {
            if d.soft.contains(k) {
                e.notes.insert(format!("proof anchor {} not present", k));
                continue;
            }
            return lost(e, format!("proof anchor {} not found", k));
        }
    }
    let body = block.to_token_stream().to_string();
    let Some(fmt) = rustfmt(&format!("fn __vx_body() {}", body)) else {
        return lost(e, "rustfmt rejected the rewritten body".into());
    };
    let body = fmt.trim_start().strip_prefix("fn __vx_body()").unwrap_or(&fmt).to_owned();
    let out = splice(d, &body);
    e.text = format!("{}{}\n{}{}", d.attr, sig, spec_text(d, true), out);
    e
}

/// Puts the loop invariants and proof blocks of the unit in their places.
fn splice(d: &FnDir, body: &str) -> String {
    let mut out = String::new();
    for line in body.lines() {
        let t = line.trim();
        if let Some(r) = t.strip_prefix("__vx_loop!(") {
            let n: usize = r.trim_end_matches(");").trim().parse().unwrap();
            // move invariants before the opening brace of the loop body
            let p = out.rfind('{').unwrap();
            let tail = out[p + 1..].to_owned();
            out.truncate(p);
            out.push('\n');
            out.push_str(d.loops[&n].trim_end());
            out.push_str("\n{");
            out.push_str(&tail);
        } else if let Some(r) = t.strip_prefix("__vx_at!(\"") {
            let k = r.trim_end_matches("\");");
            out.push_str(d.ats[k].trim_end());
            out.push('\n');
        } else {
            out.push_str(line);
            out.push('\n');
        }
    }
    out
}

fn emit_item(d: &ItemDir, files: &mut Files, cfg: &Cfg) -> Result<String, String> {
    let file = files.get(&d.file).ok_or_else(|| format!("{} missing", d.file))?;
    if d.kind == "assoc" {
        let (ty, tr) = d.name.split_once('@').ok_or("assoc needs Type@Trait")?;
        for it in &file.items {
            if let syn::Item::Impl(im) = it {
                let t = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default());
                if t.as_deref() == Some(tr) && last_seg(&im.self_ty) == ty {
                    let dummy = FnDir::default();
                    let mut rw = Rewriter::new(cfg, &dummy);
                    let mut out = String::new();
                    for ii in &im.items {
                        if let syn::ImplItem::Type(t) = ii {
                            let mut t2 = t.ty.clone();
                            rw.one_type(&mut t2);
                            out.push_str(&format!("type {} = {};\n", t.ident, t2.to_token_stream()));
                        }
                    }
                    return Ok(out);
                }
            }
        }
        return Err(format!("impl {} not found", d.name));
    }
    let it = find_item(&file.items, &d.kind, &d.name)
        .ok_or_else(|| format!("{} {} not found in {}", d.kind, d.name, d.file))?;
    let dummy = FnDir::default();
    let mut rw = Rewriter::new(cfg, &dummy);
    let mut it = it.clone();
    if let Some(n) = &d.rename {
        let n = syn::Ident::new(n, proc_macro2::Span::call_site());
        match &mut it {
            syn::Item::Struct(s) => s.ident = n,
            syn::Item::Enum(s) => s.ident = n,
            _ => return Err("as: on this kind of item".into()),
        }
    }
    let derives = |attrs: &[syn::Attribute]| -> String {
        attrs.iter().filter(|a| a.path().is_ident("derive")).map(|a| squash(a)).collect::<Vec<_>>().join("")
    };
    let mut extra = String::new();
    let gen_derive = |name: &str, dv: &str, extra: &mut String| -> Result<(), String> {
        for need in &d.need {
            if !dv.contains(need.as_str()) {
                return Err(format!("{} no longer derives {}", name, need));
            }
            match need.as_str() {
                "Clone" => extra.push_str(&format!(
                    "impl Clone for {0} {{\n#[verifier::external_body]\nfn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }}\n}}\n",
                    name
                )),
                "PartialEq" => extra.push_str(&format!(
                    "impl vstd::std_specs::cmp::PartialEqSpecImpl for {0} {{\nopen spec fn obeys_eq_spec() -> bool {{ true }}\nopen spec fn eq_spec(&self, o: &{0}) -> bool {{ *self == *o }}\n}}\nimpl PartialEq for {0} {{\n#[verifier::external_body]\nfn eq(&self, o: &{0}) -> bool {{ unimplemented!() }}\n}}\n",
                    name
                )),
                "Default" => {}
                "Copy" => extra.push_str(&format!("impl Copy for {} {{}}\n", name)),
                _ => return Err(format!("derive {} unknown", need)),
            }
        }
        Ok(())
    };
    match &mut it {
        syn::Item::Struct(s) => {
            gen_derive(&d.name, &derives(&s.attrs), &mut extra)?;
            s.attrs.clear();
            if d.prost {
                let f: Vec<_> = s.fields.iter().map(|f| f.attrs.clone()).collect();
                extra.push_str(&prost_tags(&d.name, &f, false)?);
            }
            s.vis = syn::parse_quote!(pub);
            if d.drop_generics {
                s.generics = Default::default();
            }
            for f in s.fields.iter_mut() {
                f.attrs.clear();
                f.vis = syn::parse_quote!(pub);
            }
            rw.item_types(&mut syn::Item::Struct(s.clone()), &mut |x| {
                if let syn::Item::Struct(y) = x {
                    *s = y
                }
            });
        }
        syn::Item::Enum(s) => {
            gen_derive(&d.name, &derives(&s.attrs), &mut extra)?;
            s.attrs.clear();
            if d.prost && s.variants.iter().any(|v| v.attrs.iter().any(|a| a.path().is_ident("prost"))) {
                let f: Vec<_> = s.variants.iter().map(|v| v.attrs.clone()).collect();
                extra.push_str(&prost_tags(&d.name, &f, true)?);
            }
            s.vis = syn::parse_quote!(pub);
            for v in s.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.attrs.clear();
                }
            }
            rw.item_types(&mut syn::Item::Enum(s.clone()), &mut |x| {
                if let syn::Item::Enum(y) = x {
                    *s = y
                }
            });
        }
        syn::Item::Const(s) => {
            if let syn::Type::Reference(r) = &mut *s.ty {
                r.lifetime = Some(syn::parse_quote!('static));
            }
            s.attrs.clear();
            s.vis = syn::parse_quote!(pub);
        }
        syn::Item::Type(s) => {
            s.attrs.clear();
            s.vis = syn::parse_quote!(pub);
            rw.item_types(&mut syn::Item::Type(s.clone()), &mut |x| {
                if let syn::Item::Type(y) = x {
                    *s = y
                }
            });
        }
        _ => return Err("unsupported item".into()),
    }
    let text = it.to_token_stream().to_string();
    let text = rustfmt(&text).unwrap_or(text);
    Ok(format!("{}{}", text, extra))
}

fn emit_lazy(d: &FnDir, files: &mut Files, cfg: &Cfg, degraded: bool) -> Result<(String, String), String> {
    // `static ref NAME: T = EXPR;` inside lazy_static! becomes `fn NAME_lazy() -> T { EXPR }`
    let file = files.get(&d.file).ok_or_else(|| format!("{} missing", d.file))?;
    let it = find_item(&file.items, "lazy", &d.selector).ok_or_else(|| format!("lazy {} not found", d.selector))?;
    let syn::Item::Macro(m) = it else { return Err("not a macro".into()) };
    struct Lazy {
        name: syn::Ident,
        ty:   syn::Type,
        ex:   syn::Expr,
    }
    struct All(Vec<Lazy>);
    impl syn::parse::Parse for All {
        fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
            let mut v = vec![];
            while !i.is_empty() {
                let _ = i.call(syn::Attribute::parse_outer)?;
                let _: syn::Visibility = i.parse()?;
                let _: syn::Token![static] = i.parse()?;
                let _: syn::Token![ref] = i.parse()?;
                let name = i.parse()?;
                let _: syn::Token![:] = i.parse()?;
                let ty = i.parse()?;
                let _: syn::Token![=] = i.parse()?;
                let ex = i.parse()?;
                let _: syn::Token![;] = i.parse()?;
                v.push(Lazy { name, ty, ex });
            }
            Ok(All(v))
        }
    }
    let all: All = syn::parse2(m.mac.tokens.clone()).map_err(|e| e.to_string())?;
    let l = all.0.into_iter().find(|l| l.name == d.selector).ok_or("lazy not found")?;
    let ty = l.ty;
    let ex = l.ex;
    let f: syn::ItemFn = syn::parse_quote!(fn x() -> #ty { #ex });
    let mut rw = Rewriter::new(cfg, d);
    let sig = build_sig(&f.sig, d, cfg, &d.name);
    // every use of the static sees one value that the initialiser may return
    let ty2 = {
        let mut f2 = f.sig.clone();
        rw.types_only(&mut f2);
        match f2.output {
            syn::ReturnType::Type(_, t) => t.to_token_stream().to_string(),
            _ => String::new(),
        }
    };
    let st = format!(
        "#[verifier::external_body]\npub fn vx_static_{0}() -> (r: &'static {1})\n    ensures call_ensures({2}, (), *r),\n{{ unimplemented!() }}\n",
        d.selector, ty2, d.name
    );
    if degraded {
        return Ok((
            sig.clone(),
            format!("{}#[verifier::external_body]\n{}\n{}{{ unimplemented!() }}\n", st, sig, spec_text(d, true)),
        ));
    }
    let mut block = (*f.block).clone();
    rw.run(&mut block, &f.sig);
    if let Some(e) = rw.errors.first() {
        return Err(e.clone());
    }
    let body = rustfmt(&format!("fn __vx_body() {}", block.to_token_stream())).ok_or("rustfmt")?;
    let body = body.trim_start().strip_prefix("fn __vx_body()").unwrap().to_owned();
    let body = splice(d, &body);
    Ok((sig.clone(), format!("{}{}\n{}{}", st, sig, spec_text(d, true), body)))
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let has = |k: &str| args.iter().any(|a| a == k);
    let unit_path = opt("--unit").unwrap_or_else(|| die("--unit"));
    let repo = opt("--repo").unwrap_or_else(|| "/repo".into());
    let out = opt("--out").unwrap_or_else(|| die("--out"));
    let map = opt("--map").unwrap_or_else(|| die("--map"));
    let degrade: BTreeSet<String> = opt("--degrade")
        .map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.to_owned()).collect())
        .unwrap_or_default();
    let vacuity = has("--vacuity");
    let mut sigs = BTreeMap::new();
    if let Some(p) = opt("--sigs") {
        if let Ok(t) = fs::read_to_string(&p) {
            for l in t.lines() {
                if let Some((k, v)) = l.split_once('\t') {
                    sigs.insert(k.to_owned(), v.to_owned());
                }
            }
        }
    }
    let (mut cfg, chunks) = unit::parse(&unit_path);
    // every function name known to the unit (so that it is not inlined)
    for c in &chunks {
        match c {
            Chunk::Fn(d) => {
                cfg.known.insert(d.selector.rsplit("::").next().unwrap().to_owned());
                cfg.known.insert(d.name.clone());
            }
            Chunk::Raw(t) => {
                let mut prev = String::new();
                for w in t.split(|c: char| !(c.is_alphanumeric() || c == '_')) {
                    if w.is_empty() {
                        continue;
                    }
                    if prev == "fn" {
                        cfg.known.insert(w.to_owned());
                    }
                    prev = w.to_owned();
                }
            }
            _ => {}
        }
    }
    let mut files = Files { repo, cache: BTreeMap::new(), macros: BTreeMap::new(), shared: BTreeMap::new() };
    for f in &cfg.macro_files {
        if files.get(f).is_none() {
            die(&format!("macro file {} is missing or does not parse", f));
        }
        let ms = files.macros[f].clone();
        files.shared.extend(ms);
    }
    files.cache.clear();
    let mut text = String::new();
    let mut fns = vec![];
    let mut problems = vec![];
    let mut new_sigs = String::new();
    for c in &chunks {
        match c {
            Chunk::Raw(t) => text.push_str(t),
            Chunk::Item(d) => match emit_item(d, &mut files, &cfg) {
                Ok(t) => {
                    text.push_str(&format!("// {} {} from {}\n", d.kind, d.name, d.file));
                    text.push_str(&t);
                }
                Err(e) => problems.push(format!("item {}: {}", d.name, e)),
            },
            Chunk::Fn(d) => {
                let start = text.lines().count() + 1;
                let em = if d.lazy {
                    let mut e = Emitted {
                        text:   String::new(),
                        status: "ok",
                        reason: String::new(),
                        line:   0,
                        notes:  BTreeSet::new(),
                        sig:    String::new(),
                        loops:  0,
                    };
                    match emit_lazy(d, &mut files, &cfg, vacuity || d.assume || degrade.contains(&d.key)) {
                        Ok((s, t)) => {
                            e.sig = s;
                            e.text = t;
                            if d.assume {
                                e.status = "assumed";
                            } else if degrade.contains(&d.key) {
                                e.status = "degraded";
                            }
                        }
                        Err(why) => {
                            e.status = "lost";
                            e.reason = why;
                            if let Some(sig) = sigs.get(&d.key) {
                                e.text = format!(
                                    "#[verifier::external_body]\n{}\n{}{{ unimplemented!() }}\n",
                                    sig,
                                    spec_text(d, true)
                                );
                            }
                        }
                    }
                    e
                } else {
                    emit_fn(d, &mut files, &cfg, degrade.contains(&d.key), vacuity, &sigs)
                };
                new_sigs.push_str(&format!("{}\t{}\n", d.key, em.sig));
                text.push_str(&format!("// ---- {}:{} {}\n", d.file, em.line, d.selector));
                // Verus does not take raw identifiers as field names
                text.push_str(&em.text.replace("r#", "raw_"));
                if !text.ends_with('\n') {
                    text.push('\n');
                }
                let end = text.lines().count();
                if em.text.is_empty() {
                    problems.push(format!("{}: {}", d.key, em.reason));
                }
                fns.push(format!(
                    "{{\"key\":{},\"name\":{},\"file\":{},\"selector\":{},\"line\":{},\"start\":{},\"end\":{},\"status\":{},\"reason\":{},\"loops\":{},\"requires\":{},\"notes\":[{}]}}",
                    esc(&d.key),
                    esc(&d.name),
                    esc(&d.file),
                    esc(&d.selector),
                    em.line,
                    start,
                    end,
                    esc(em.status),
                    esc(&em.reason),
                    em.loops,
                    !d.requires.trim().is_empty(),
                    em.notes.iter().map(|n| esc(n)).collect::<Vec<_>>().join(",")
                ));
            }
        }
    }
    text.push_str("\nfn main() {}\n");
    fs::write(&out, &text).unwrap_or_else(|e| die(&e.to_string()));
    fs::write(
        &map,
        format!(
            "{{\"functions\":[{}],\"problems\":[{}]}}\n",
            fns.join(",\n"),
            problems.iter().map(|p| esc(p)).collect::<Vec<_>>().join(",")
        ),
    )
    .unwrap();
    if let Some(p) = opt("--write-sigs") {
        fs::write(p, new_sigs).unwrap();
    }
}
