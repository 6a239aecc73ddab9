//! vx: mechanical extraction of functions of /repo into a single Verus file.
//!
//! Input: a unit specification (verbatim Verus text + directives, see DESIGN.md) and /repo.
//! Output: the Verus file and a JSON report (functions emitted, rewrites applied, anchors lost).
use std::collections::{BTreeMap, HashMap};
use std::fs;
use std::path::{Path, PathBuf};

mod norm;
mod render;
mod spec;

use spec::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut repo = PathBuf::from("/repo");
    let mut props: Vec<String> = vec![];
    let mut vacuity = false;
    let mut assume: Vec<String> = vec![];
    let mut pos = vec![];
    let (mut norm_all, mut norm_none) = (false, false);
    let mut i = 1;
    while i < a.len() {
        match a[i].as_str() {
            "--repo" => { repo = PathBuf::from(&a[i + 1]); i += 1 }
            "--prop" => { props.push(a[i + 1].clone()); i += 1 }
            "--assume" => { assume.push(a[i + 1].clone()); i += 1 }
            "--vacuity" => vacuity = true,
            "--norm-all" => norm_all = true,
            "--norm-none" => norm_none = true,
            x => pos.push(x.to_string()),
        }
        i += 1;
    }
    if pos[0] == "base" {
        // the functions of a file, for base_fns.txt
        for p in &pos[1..] { for it in syn::parse_file(&fs::read_to_string(p).unwrap()).unwrap().items { match it {
            syn::Item::Impl(i) => for x in i.items { if let syn::ImplItem::Fn(f) = x { println!("{}::{}", render::type_name(&i.self_ty), f.sig.ident) } },
            syn::Item::Trait(t) => for x in t.items { if let syn::TraitItem::Fn(f) = x { println!("{}::{}", t.ident, f.sig.ident) } },
            syn::Item::Fn(f) => println!("::{}", f.sig.ident),
            _ => {}
        } } }
        return;
    }
    if pos[0] == "norm" { let (t, n) = norm::normalise(&fs::read_to_string(&pos[1]).unwrap(), &|_| false); eprintln!("{:?}", n); print!("{}", t); return; }
    let unit_path = Path::new(&pos[0]);
    let out_path = Path::new(&pos[1]);
    let text = spec::load(unit_path, &props);
    let unit = spec::parse(&text);
    let mut g = Gen { repo, files: HashMap::new(), out: String::new(), fns: vec![], edits: BTreeMap::new(), lost: vec![], unit: &unit, vacuity, vac: vec![], inlined: vec![], items: vec![], assume, props: props.clone(), norm_all, norm_none };
    g.run();
    if g.vacuity { g.out = g.out.replacen("verus! {", "verus! { uninterp spec fn vx_vac(i: int) -> bool;", 1); }
    fs::write(out_path, &g.out).unwrap();
    let rep = serde_json::json!({
        "functions": g.fns, "edits": g.edits, "lost": g.lost, "vacuity_points": g.vac, "inlined": g.inlined, "items": g.items,
    });
    fs::write(out_path.with_extension("json"), serde_json::to_string_pretty(&rep).unwrap()).unwrap();
}

pub struct SrcFile {
    pub path: String,
    pub text: String,
    pub ast: syn::File,
    pub line_off: Vec<usize>,
}

pub struct Gen<'u> {
    pub repo: PathBuf,
    pub files: HashMap<String, std::rc::Rc<SrcFile>>,
    pub out: String,
    pub fns: Vec<serde_json::Value>,
    pub edits: BTreeMap<String, usize>,
    pub lost: Vec<String>,
    pub unit: &'u Unit,
    pub vacuity: bool,
    pub vac: Vec<serde_json::Value>,
    pub inlined: Vec<String>,
    pub items: Vec<String>,
    pub assume: Vec<String>,
    pub props: Vec<String>,
    pub norm_all: bool,
    pub norm_none: bool,
}

impl<'u> Gen<'u> {
    /// all source files of the crate
    pub fn sources(&self) -> Vec<String> {
        fn walk(d: &std::path::Path, rel: &str, out: &mut Vec<String>) {
            let mut es: Vec<_> = fs::read_dir(d).map(|r| r.flatten().collect()).unwrap_or_else(|_| vec![]);
            es.sort_by_key(|e| e.file_name());
            for e in es { let n = format!("{}/{}", rel, e.file_name().to_string_lossy()); if e.path().is_dir() { walk(&e.path(), &n, out) } else if n.ends_with(".rs") { out.push(n) } }
        }
        let mut v = vec![]; walk(&self.repo.join("src"), "src", &mut v); v
    }
    pub fn file(&mut self, p: &str) -> Option<std::rc::Rc<SrcFile>> {
        if let Some(f) = self.files.get(p) { return Some(f.clone()); }
        let text = fs::read_to_string(self.repo.join(p)).ok()?;
        let unit = self.unit;
        let all = self.norm_all;
        let (text, notes) = if self.norm_none { (text, vec![]) } else { norm::normalise(&text, &|n| !all && unit.known(n)) };
        for n in notes { self.note(n); }
        // syn's byte ranges are char based for columns; use byte_range() from span-locations
        let ast = match syn::parse_file(&text) { Ok(a) => a, Err(_) => return None };
        let mut line_off = vec![0];
        for (i, b) in text.bytes().enumerate() { if b == b'\n' { line_off.push(i + 1); } }
        let f = std::rc::Rc::new(SrcFile { path: p.to_string(), text, ast, line_off });
        self.files.insert(p.to_string(), f.clone());
        Some(f)
    }
    fn run(&mut self) {
        let unit = self.unit;
        for node in &unit.nodes {
            match node {
                Node::Raw(t) => { self.out.push_str(t); self.out.push('\n'); }
                Node::Item { file, kind, name, attrs, inner } => self.item(file, kind, name, attrs, inner),
                Node::Impl(b) => self.impl_block(b),
                Node::Trait(b) => self.trait_block(b),
                Node::Fn(file, f) => self.free_fn(file, f),
            }
        }
    }
    pub fn note(&mut self, k: &str) { *self.edits.entry(k.to_string()).or_insert(0) += 1; }
    pub fn lose(&mut self, s: String) { self.lost.push(s); }
}
