use std::fs;
use std::path::Path;

#[derive(Debug, Default, Clone)]
pub struct LoopSpec { pub inv: String, pub start: String, pub end: String, pub before: String, pub after: String, pub attr: String, pub used: bool }

#[derive(Debug, Default, Clone)]
pub struct FnSpec {
    pub name: String,
    pub ret: String,
    pub attrs: Vec<String>,
    pub spec: String,
    pub start: String,
    pub end: String,
    pub onret: String,
    pub loops: Vec<(usize, LoopSpec)>,
    pub closures: Vec<(usize, String, String)>, // idx, params, spec
    pub substs: Vec<(String, String)>,
    pub sig: Vec<(String, String)>,
    pub assumed: bool,
    pub flags: Vec<String>,
    pub optional: bool,
    pub owner: Vec<String>,
}

#[derive(Debug)]
pub struct Block { pub file: String, pub ty: String, pub tr: Option<String>, pub header: Option<String>, pub add: String, pub fns: Vec<FnSpec>, pub attrs: Vec<String>, pub types: bool }

#[derive(Debug)]
pub enum Node {
    Raw(String),
    Item { file: String, kind: String, name: String, attrs: Vec<String>, inner: Vec<(String,String)> },
    Impl(Block),
    Trait(Block),
    Fn(String, FnSpec),
}

#[derive(Debug, Default)]
pub struct Unit {
    pub nodes: Vec<Node>,
    pub types: Vec<(String, String)>,
    pub exprs: Vec<(String, String)>,
    pub paths: Vec<(String, String)>,
    pub optfields: Vec<String>,
    pub noinline: Vec<String>,
    pub cells: Vec<String>,
    pub floats: Option<Vec<String>>,
    pub fnstart: String,
    pub indexassign: String,
}

/// Read a unit file, resolving `//@include F` and `//@if P..`/`//@else`/`//@fi`.
pub fn load(p: &Path, props: &[String]) -> String {
    let t = fs::read_to_string(p).unwrap_or_else(|e| panic!("{}: {}", p.display(), e));
    let mut out = String::new();
    let mut stack: Vec<bool> = vec![];
    for l in t.lines() {
        let tl = l.trim();
        if let Some(r) = tl.strip_prefix("//@if ") {
            let v = r.split_whitespace().any(|x| props.iter().any(|p| p == x));
            stack.push(v);
        } else if tl == "//@else" {
            let v = stack.pop().unwrap(); stack.push(!v);
        } else if tl == "//@fi" {
            stack.pop();
        } else if stack.iter().all(|x| *x) {
            if let Some(r) = tl.strip_prefix("//@include ") {
                let q = p.parent().unwrap().join(r.trim());
                out.push_str(&load(&q, props));
            } else { out.push_str(l); out.push('\n'); }
        }
    }
    out
}

pub fn norm(s: &str) -> String {
    // token-normalised text
    match s.parse::<proc_macro2::TokenStream>() { Ok(t) => normts(&t), Err(_) => s.split_whitespace().collect::<Vec<_>>().join(" ") }
}
pub fn normts(t: &proc_macro2::TokenStream) -> String {
    fn go(t: proc_macro2::TokenStream, o: &mut Vec<String>) {
        for tt in t { match tt {
            proc_macro2::TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() { proc_macro2::Delimiter::Parenthesis => ("(", ")"), proc_macro2::Delimiter::Brace => ("{", "}"), proc_macro2::Delimiter::Bracket => ("[", "]"), _ => ("", "") };
                o.push(a.into()); go(g.stream(), o); o.push(b.into());
            }
            x => o.push(x.to_string()),
        } }
    }
    let mut v = vec![]; go(t.clone(), &mut v);
    v.retain(|x| !x.is_empty());
    // drop trailing commas before closers
    let mut r: Vec<String> = vec![];
    for x in v { if (x == ")" || x == "]" || x == "}") && r.last().map(|s| s == ",").unwrap_or(false) { r.pop(); } r.push(x); }
    // merge operator tokens by text (spacing information differs between syn and proc_macro2 sources)
    let mut m: Vec<String> = vec![];
    for x in r {
        if let Some(l) = m.last_mut() {
            let p = format!("{}{}", l, x);
            if ["::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "..", "+=", "-=", "*=", "/="].contains(&p.as_str()) || l == "'" { *l = p; continue; }
        }
        m.push(x);
    }
    m.join(" ")
}

fn arrow(s: &str) -> (String, String) {
    let i = s.find(" => ").unwrap_or_else(|| panic!("no => in {}", s));
    (norm(s[..i].trim()), s[i + 4..].trim().to_string())
}

pub fn parse(t: &str) -> Unit {
    let mut u = Unit::default();
    let mut raw = String::new();
    let mut owner: Vec<String> = vec![];
    let lines: Vec<&str> = t.lines().collect();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i].trim();
        if !l.starts_with("//@") { raw.push_str(lines[i]); raw.push('\n'); i += 1; continue; }
        let d = l[3..].trim();
        let (k, r) = d.split_once(' ').unwrap_or((d, ""));
        let r = r.trim();
        match k {
            "type" => u.types.push(arrow(r)),
            "expr" => u.exprs.push(arrow(r)),
            "path" => u.paths.push(arrow(r)),
            "optfield" => u.optfields.push(r.to_string()),
            "fnstart" => { u.fnstart.push_str(r); u.fnstart.push('\n'); }
            "indexassign" => u.indexassign = r.to_string(),
            "owner" => owner = if r == "-" { vec![] } else { r.split_whitespace().map(|s| s.to_string()).collect() },
            "floats" => u.floats.get_or_insert_with(Vec::new).extend(r.split_whitespace().map(|s| s.to_string())),
            "cells" => u.cells.extend(r.split_whitespace().map(|s| s.to_string())),
            "noinline" => u.noinline.push(r.to_string()),
            "item" => {
                if !raw.is_empty() { u.nodes.push(Node::Raw(std::mem::take(&mut raw))); }
                // item FILE KIND NAME ; attr ; attr
                let mut parts = r.split(';').map(|s| s.trim());
                let mut w = parts.next().unwrap().split_whitespace();
                let (file, kind, name) = (w.next().unwrap().to_string(), w.next().unwrap().to_string(), w.next().unwrap().to_string());
                u.nodes.push(Node::Item { file, kind, name, attrs: parts.map(|s| s.to_string()).collect(), inner: vec![] });
            }
            "impl" | "trait" | "fn" => {
                if !raw.is_empty() { u.nodes.push(Node::Raw(std::mem::take(&mut raw))); }
                let mut j = i + 1;
                let mut body = vec![];
                while lines[j].trim() != "//@end" { body.push(lines[j]); j += 1; if j >= lines.len() { panic!("no //@end for {}", l); } }
                if k == "fn" {
                    let (file, name) = r.split_once(' ').unwrap();
                    let mut b = Block { file: file.into(), ty: String::new(), tr: None, header: None, add: String::new(), fns: vec![], attrs: vec![], types: true };
                    let mut v = vec![format!("//@ fn {}", name)];
                    v.extend(body.iter().map(|s| s.to_string()));
                    parse_block(&v.iter().map(|s| s.as_str()).collect::<Vec<_>>(), &mut b, &owner);
                    u.nodes.push(Node::Fn(file.into(), b.fns.pop().unwrap()));
                } else {
                    let (file, rest) = r.split_once(' ').unwrap();
                    let (ty, tr) = match rest.split_once(" : ") { Some((a, b)) => (a.trim().to_string(), Some(norm(b.trim()))), None => (rest.trim().to_string(), None) };
                    let mut b = Block { file: file.into(), ty, tr, header: None, add: String::new(), fns: vec![], attrs: vec![], types: true };
                    parse_block(&body, &mut b, &owner);
                    u.nodes.push(if k == "impl" { Node::Impl(b) } else { Node::Trait(b) });
                }
                i = j;
            }
            x => panic!("unknown directive {}", x),
        }
        i += 1;
    }
    if !raw.is_empty() { u.nodes.push(Node::Raw(raw)); }
    u
}

fn parse_block(lines: &[&str], b: &mut Block, owner0: &[String]) {
    enum Cur { None, Add, Spec, Start, End, OnRet, Loop(usize, &'static str), Closure }
    let mut cur = Cur::None;
    let mut owner: Vec<String> = owner0.to_vec();
    for l in lines {
        let tl = l.trim();
        if let Some(d) = tl.strip_prefix("//@") {
            let d = d.trim();
            let (k, r) = d.split_once(' ').unwrap_or((d, ""));
            let r = r.trim();
            match k {
                "add" => cur = Cur::Add,
                "header" => { b.header = Some(r.to_string()); cur = Cur::None }
                "implattr" => { b.attrs.push(r.to_string()); cur = Cur::None }
                "fn" => { b.fns.push(FnSpec { name: r.to_string(), ret: "r".into(), owner: owner.clone(), ..Default::default() }); cur = Cur::Spec }
                "ret" => b.fns.last_mut().unwrap().ret = r.to_string(),
                "attr" => b.fns.last_mut().unwrap().attrs.push(r.to_string()),
                "owner" => {
                    let o: Vec<String> = r.split_whitespace().map(|s| s.to_string()).collect();
                    match b.fns.last_mut() { None => { owner = o; cur = Cur::None } Some(f) => f.owner = o }
                }
                "assumed" => b.fns.last_mut().unwrap().assumed = true,
                "optional" => b.fns.last_mut().unwrap().optional = true,
                "flag" => b.fns.last_mut().unwrap().flags.push(r.to_string()),
                "spec" => cur = Cur::Spec,
                "start" => cur = Cur::Start,
                "endfn" => cur = Cur::End,
                "onreturn" => cur = Cur::OnRet,
                "subst" => b.fns.last_mut().unwrap().substs.push(arrow(r)),
                "sig" => b.fns.last_mut().unwrap().sig.push(arrow(r)),
                "loop" => {
                    let mut w = r.split_whitespace();
                    let n: usize = w.next().unwrap().parse().unwrap();
                    let f = b.fns.last_mut().unwrap();
                    if !f.loops.iter().any(|x| x.0 == n) { f.loops.push((n, LoopSpec::default())); }
                    let part = match w.next() { None => "inv", Some("start") => "start", Some("end") => "end", Some("before") => "before", Some("after") => "after", Some("attr") => "attr", Some(x) => panic!("loop {}", x) };
                    cur = Cur::Loop(n, part);
                }
                "closure" => {
                    let (n, p) = r.split_once(' ').unwrap_or((r, ""));
                    b.fns.last_mut().unwrap().closures.push((n.parse().unwrap(), p.to_string(), String::new()));
                    cur = Cur::Closure;
                }
                x => panic!("unknown subdirective {}", x),
            }
            continue;
        }
        if tl.is_empty() { continue; }
        let push = |s: &mut String| { s.push_str(l); s.push('\n'); };
        match &cur {
            Cur::None => panic!("stray line in block: {}", l),
            Cur::Add => push(&mut b.add),
            Cur::Spec => push(&mut b.fns.last_mut().unwrap().spec),
            Cur::Start => push(&mut b.fns.last_mut().unwrap().start),
            Cur::End => push(&mut b.fns.last_mut().unwrap().end),
            Cur::OnRet => push(&mut b.fns.last_mut().unwrap().onret),
            Cur::Closure => push(&mut b.fns.last_mut().unwrap().closures.last_mut().unwrap().2),
            Cur::Loop(n, part) => {
                let f = b.fns.last_mut().unwrap();
                let ls = &mut f.loops.iter_mut().find(|x| x.0 == *n).unwrap().1;
                match *part { "inv" => push(&mut ls.inv), "start" => push(&mut ls.start), "end" => push(&mut ls.end), "before" => push(&mut ls.before), "after" => push(&mut ls.after), _ => push(&mut ls.attr) }
            }
        }
    }
}

impl Unit {
    /// is a function of this name under contract (or given by the unit)?
    pub fn known(&self, name: &str) -> bool {
        if self.noinline.iter().any(|x| x == name) { return true; }
        for n in &self.nodes {
            match n {
                Node::Impl(b) | Node::Trait(b) => { if b.fns.iter().any(|f| f.name == name) { return true; } }
                Node::Fn(_, f) => { if f.name == name { return true; } }
                Node::Raw(t) => { if t.contains(&format!("fn {}(", name)) || t.contains(&format!("fn {}<", name)) { return true; } }
                _ => {}
            }
        }
        false
    }

}
