//! Parser of unit files (`.vrs`): Verus text plus `//@` directives.
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::Path;

use crate::die;
use crate::rules::Cfg;

#[derive(Clone, Default, Debug)]
pub struct FnDir {
    pub file:      String,
    pub selector:  String,
    pub name:      String,
    pub key:       String,
    pub params:    String,
    pub sig:       Option<String>,
    pub asyncs:    String,
    pub ret:       String,
    pub generics:  Option<String>,
    pub requires:  String,
    pub ensures:   String,
    pub decreases: String,
    pub loops:     BTreeMap<usize, String>,
    pub ats:       BTreeMap<String, String>,
    pub soft:      BTreeSet<String>,
    pub attr:      String,
    pub lazy:      bool,
    pub assume:    bool,
    pub nopub:     bool,
    /// receiver override: "mut" (&self becomes &mut self)
    pub selfmode:  String,
    pub newcell:   String,
    pub mutlets:   Vec<String>,
    pub resmap:    BTreeSet<usize>,
    pub collect:   BTreeMap<usize, String>,
    pub renames:   Vec<(String, String)>,
    pub types:     Vec<(String, String)>,
    pub opassign:  Vec<String>,
    pub inline:    BTreeSet<String>,
    pub heapfns:   Vec<(String, Vec<String>)>,
}

#[derive(Clone, Default, Debug)]
pub struct ItemDir {
    pub file:          String,
    pub kind:          String,
    pub name:          String,
    pub drop_generics: bool,
    pub need:          Vec<String>,
    pub prost:         bool,
    pub rename:        Option<String>,
}

#[derive(Clone, Debug)]
pub enum Chunk {
    Raw(String),
    Fn(FnDir),
    Item(ItemDir),
}

fn two(s: &str) -> (String, String) {
    match s.split_once("=>") {
        Some((a, b)) => (
            a.trim().trim_matches('"').to_owned(),
            b.trim().trim_matches('"').to_owned(),
        ),
        None => die(&format!("expected A => B in {:?}", s)),
    }
}

fn nosp(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

pub fn parse(path: &str) -> (Cfg, Vec<Chunk>) {
    let mut cfg = Cfg::default();
    let mut out = vec![];
    let mut seen = BTreeSet::new();
    parse_into(path, false, &mut cfg, &mut out, &mut seen);
    (cfg, out)
}

fn parse_into(path: &str, assume: bool, cfg: &mut Cfg, out: &mut Vec<Chunk>, seen: &mut BTreeSet<String>) {
    if !seen.insert(path.to_owned()) {
        return;
    }
    let text = fs::read_to_string(path).unwrap_or_else(|e| die(&format!("{}: {}", path, e)));
    let dir = Path::new(path).parent().unwrap().to_owned();
    let mut raw = String::new();
    let mut cur: Option<FnDir> = None;
    let mut sect = String::new();
    let mut buf = String::new();
    let flush_sect = |d: &mut FnDir, sect: &str, buf: &mut String| {
        let b = std::mem::take(buf);
        let mut w = sect.split_whitespace();
        match w.next().unwrap_or("") {
            "" => {
                if !b.trim().is_empty() {
                    die(&format!("text outside a section in {}: {}", d.key, b))
                }
            }
            "requires" => d.requires.push_str(&b),
            "ensures" => d.ensures.push_str(&b),
            "decreases" => d.decreases.push_str(&b),
            "attr" => d.attr.push_str(&b),
            "loop" => {
                let n: usize = w.next().and_then(|x| x.parse().ok()).unwrap_or_else(|| die("loop N"));
                d.loops.insert(n, b);
            }
            "at" => {
                let k = w.next().unwrap_or_else(|| die("at KEY")).to_owned();
                if w.next() == Some("opt") {
                    d.soft.insert(k.clone());
                }
                d.ats.insert(k, b);
            }
            x => die(&format!("section {} unknown", x)),
        }
    };
    for line in text.lines() {
        let t = line.trim_start();
        if let Some(r) = t.strip_prefix("//@.") {
            let Some(d) = cur.as_mut() else { die(&format!("{}: stray {}", path, line)) };
            flush_sect(d, &sect, &mut buf);
            sect = String::new();
            let r = r.trim();
            let (k, v) = match r.find(char::is_whitespace) {
                Some(i) => (&r[..i], r[i..].trim()),
                None => (r, ""),
            };
            match k {
                "params" => d.params = v.to_owned(),
                "sig" => d.sig = Some(v.to_owned()),
                "async" => d.asyncs = v.to_owned(),
                "nopub" => d.nopub = true,
                "ret" => d.ret = v.to_owned(),
                "generics" => d.generics = Some(v.to_owned()),
                "self" => d.selfmode = v.to_owned(),
                "newcell" => d.newcell = v.to_owned(),
                "resmap" => d.resmap = v.split_whitespace().map(|x| x.parse().unwrap()).collect(),
                "collect" => {
                    let mut w = v.split_whitespace();
                    let n = w.next().unwrap().parse().unwrap();
                    d.collect.insert(n, w.next().unwrap().to_owned());
                }
                "rename" => d.renames.push(two(v)),
                "type" => {
                    let (a, b) = two(v);
                    d.types.push((nosp(&a), b));
                }
                "opassign" => d.opassign.push(v.to_owned()),
                "heapfn" => {
                    let mut w = v.split_whitespace().map(|x| x.to_owned());
                    let n = w.next().unwrap();
                    d.heapfns.push((n, w.collect()));
                }
                "mutlet" => d.mutlets.extend(v.split_whitespace().map(|x| x.to_owned())),
                "inline" => d.inline.extend(v.split_whitespace().map(|x| x.to_owned())),
                _ => sect = r.to_owned(),
            }
            continue;
        }
        if let Some(r) = t.strip_prefix("//@") {
            let r = r.trim();
            let (k, v) = match r.find(char::is_whitespace) {
                Some(i) => (&r[..i], r[i..].trim()),
                None => (r, ""),
            };
            if k == "end" {
                let mut d = cur.take().unwrap_or_else(|| die("stray //@end"));
                flush_sect(&mut d, &sect, &mut buf);
                sect = String::new();
                out.push(Chunk::Fn(d));
                continue;
            }
            if cur.is_some() {
                die(&format!("{}: directive inside //@fn: {}", path, line));
            }
            match k {
                "type" => {
                    let (a, b) = two(v);
                    cfg.types.push((nosp(&a), b))
                }
                "cell" => {
                    let w: Vec<_> = v.split_whitespace().collect();
                    cfg.cells.push((w[0].to_owned(), w[1].to_owned()))
                }
                "heapfn" => {
                    let mut w = v.split_whitespace().map(|x| x.to_owned());
                    let n = w.next().unwrap();
                    cfg.heapfns.push((n, w.collect()));
                }
                "method" => cfg.methods.push(two(v)),
                "path" => {
                    let (a, b) = two(v);
                    cfg.paths.push((nosp(&a), b))
                }
                "macro" => cfg.macros.push(two(v)),
                "opassign" => cfg.opassign.push(v.to_owned()),
                "index" => cfg.indexes.push(v.to_owned()),
                "lazy" => {
                    cfg.lazies.insert(v.to_owned());
                }
                "dropped" => cfg.dropped.push(nosp(v)),
                "macros" => cfg.macro_files.push(v.to_owned()),
                "known" => cfg.known.extend(v.split_whitespace().map(|x| x.to_owned())),
                "include" => {
                    if !raw.is_empty() {
                        out.push(Chunk::Raw(std::mem::take(&mut raw)));
                    }
                    let mut w = v.split_whitespace();
                    let p = dir.join(w.next().unwrap());
                    let a = w.next() == Some("assume");
                    parse_into(p.to_str().unwrap(), assume || a, cfg, out, seen);
                }
                "item" => {
                    if !raw.is_empty() {
                        out.push(Chunk::Raw(std::mem::take(&mut raw)));
                    }
                    let w: Vec<_> = v.split_whitespace().collect();
                    let mut d = ItemDir {
                        file: w[0].to_owned(),
                        kind: w[1].to_owned(),
                        name: w[2].to_owned(),
                        ..Default::default()
                    };
                    for x in &w[3..] {
                        if *x == "prost" {
                            d.prost = true
                        } else if *x == "drop_generics" {
                            d.drop_generics = true
                        } else if let Some(n) = x.strip_prefix("as:") {
                            d.rename = Some(n.to_owned())
                        } else if let Some(n) = x.strip_prefix("need:") {
                            d.need = n.split(',').map(|x| x.to_owned()).collect()
                        } else {
                            die(&format!("item option {}", x))
                        }
                    }
                    out.push(Chunk::Item(d));
                }
                "fn" => {
                    if !raw.is_empty() {
                        out.push(Chunk::Raw(std::mem::take(&mut raw)));
                    }
                    let w: Vec<_> = v.split_whitespace().collect();
                    let mut d = FnDir {
                        file: w[0].to_owned(),
                        selector: w[1].to_owned(),
                        ret: "r".into(),
                        assume,
                        ..Default::default()
                    };
                    d.name = w[1].rsplit("::").next().unwrap().to_owned();
                    d.key = w[1].to_owned();
                    let mut i = 2;
                    while i < w.len() {
                        match w[i] {
                            "as" => {
                                d.name = w[i + 1].to_owned();
                                i += 2
                            }
                            "key" => {
                                d.key = w[i + 1].to_owned();
                                i += 2
                            }
                            "lazy" => {
                                d.lazy = true;
                                i += 1
                            }
                            "assume" => {
                                d.assume = true;
                                i += 1
                            }
                            x => die(&format!("fn option {}", x)),
                        }
                    }
                    if d.lazy {
                        d.name = format!("{}_lazy", d.selector);
                        cfg.lazies.insert(d.selector.clone());
                    }
                    cur = Some(d);
                    sect = String::new();
                    buf = String::new();
                }
                x => die(&format!("{}: directive {} unknown", path, x)),
            }
            continue;
        }
        if cur.is_some() {
            buf.push_str(line);
            buf.push('\n');
        } else {
            raw.push_str(line);
            raw.push('\n');
        }
    }
    if cur.is_some() {
        die(&format!("{}: //@fn without //@end", path));
    }
    if !raw.is_empty() {
        out.push(Chunk::Raw(raw));
    }
}
