use crate::spec::{norm, normts, FnSpec, LoopSpec};
use crate::{Gen, SrcFile};
use proc_macro2::Span;
use quote::ToTokens;
use std::ops::Range;
use std::rc::Rc;
use syn::spanned::Spanned;
use syn::visit::Visit;
use syn::*;

fn rng(s: Span) -> Range<usize> { s.byte_range() }
fn nts<T: ToTokens>(t: &T) -> String { normts(&t.to_token_stream()) }
fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| { let t = nts(a); t.contains("cfg ( test") || t.contains("cfg ( any ( test") || t.contains("cfg ( feature") })
}

pub struct R<'g, 'u> {
    g: &'g mut Gen<'u>,
    f: Rc<SrcFile>,
    spec: FnSpec,
    key: String,
    self_ty: String,
    flagvar: Option<String>,
    loop_idx: usize,
    clos_idx: usize,
    fresh: usize,
    brk: Vec<Option<String>>,
    inline_stack: Vec<String>,
    params: Vec<String>,
    opt_params: Vec<String>,
    pre_body: String,
    used_substs: Vec<bool>,
    mut_self: bool,
    lets: Vec<(String, bool)>,
    iflets: Vec<String>,
    fl: Vec<String>,
    index: Vec<(String, String, String)>,
}

struct C<'r, 'g, 'u> { r: &'r mut R<'g, 'u>, edits: Vec<(Range<usize>, String)> }

impl<'ast, 'r, 'g, 'u> Visit<'ast> for C<'r, 'g, 'u> {
    fn visit_expr(&mut self, e: &'ast Expr) {
        if let Some(s) = self.r.rewrite(e) { self.edits.push((rng(e.span()), s)); } else { syn::visit::visit_expr(self, e) }
    }
    fn visit_expr_let(&mut self, l: &'ast ExprLet) {
        if self.r.is_cell(&l.expr) { self.cell_pat(&l.pat); }
        syn::visit::visit_expr_let(self, l)
    }
    fn visit_expr_match(&mut self, m: &'ast ExprMatch) {
        if self.r.is_cell(&m.expr) { for a in &m.arms { self.cell_pat(&a.pat); } }
        syn::visit::visit_expr_match(self, m)
    }
    fn visit_attribute(&mut self, a: &'ast Attribute) { self.edits.push((rng(a.span()), String::new())); }
    fn visit_type(&mut self, t: &'ast Type) {
        if let Some(s) = self.r.rewrite_type(t) { self.edits.push((rng(t.span()), s)); } else { syn::visit::visit_type(self, t) }
    }
    fn visit_path(&mut self, p: &'ast Path) {
        if let Some((range, s)) = self.r.path_edit(p) {
            let whole = range.end == rng(p.span()).end;
            self.edits.push((range, s));
            if whole { return; }
        }
        // only visit generic args of segments kept
        for s in &p.segments { syn::visit::visit_path_segment(self, s); }
    }
    fn visit_item_use(&mut self, u: &'ast ItemUse) {
        let t = nts(&u.tree);
        let parts: Vec<&str> = t.split(" :: ").collect();
        // keep only `use Enum::*` / `use self::Enum::*`
        let up: Vec<&str> = parts.iter().cloned().filter(|p| p.chars().next().map(|c| c.is_uppercase()).unwrap_or(false) || *p == "*").collect();
        let s = if up.len() >= 2 && up.last() == Some(&"*") { format!("use {};", up.join("::")) } else { String::new() };
        self.edits.push((rng(u.span()), s));
        self.r.g.note("use statement inside a function body flattened to the single-file name space");
    }
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        if self.r.spec.flags.iter().any(|f| f == "mutbind") && p.by_ref.is_none() && p.mutability.is_none() && p.subpat.is_none() && p.ident.to_string().chars().next().map_or(false, |c| c.is_lowercase() || c == '_') {
            self.edits.push((rng(p.span()), format!("mut {}", p.ident)));
            self.r.g.note("a by-value binding made `mut` (the stand-in of a channel end makes its interior mutability explicit)");
        }
    }
    fn visit_vis_restricted(&mut self, v: &'ast VisRestricted) { self.edits.push((rng(v.span()), "pub".into())); }
}

struct Refs(Vec<Range<usize>>);
impl<'a> Visit<'a> for Refs { fn visit_pat_ident(&mut self, p: &'a PatIdent) { if let (Some(r), None) = (&p.by_ref, &p.mutability) { self.0.push(rng(r.span())); } } }
impl<'r, 'g, 'u> C<'r, 'g, 'u> {
    fn cell_pat(&mut self, p: &Pat) {
        self.r.g.note("RefCell field: interior mutability made explicit (the cell becomes its content, shared borrows of it become mutable ones)");
        let mut v = Refs(vec![]); v.visit_pat(p);
        for r in v.0 { self.edits.push((r, "ref mut".into())); }
    }
}

fn apply(text: &str, base: usize, mut edits: Vec<(Range<usize>, String)>) -> String {
    edits.sort_by_key(|e| (e.0.start, e.0.end));
    let mut out = String::new();
    let mut pos = 0;
    for (r, s) in edits {
        let (a, b) = (r.start - base, r.end - base);
        if a < pos { continue; }
        out.push_str(&text[pos..a]);
        out.push_str(&s);
        pos = b;
    }
    out.push_str(&text[pos..]);
    out
}

/// Remove leading `&`s and inner `ref`s of a pattern matched against a reference.
fn strip_pat(src: &str, p: &Pat) -> String {
    let mut p = p;
    loop {
        match p { Pat::Reference(r) => p = &r.pat, Pat::Paren(r) => p = &r.pat, Pat::Type(t) => p = &t.pat, _ => break }
    }
    let t = &src[rng(p.span())];
    if let Pat::Ident(i) = p { if i.subpat.is_none() { return i.ident.to_string(); } }
    // textual removal of the `ref` keyword
    let mut out = String::new();
    let mut it = t.split("ref ");
    out.push_str(it.next().unwrap());
    for s in it { out.push_str(s); }
    out
}

fn closure1(e: &Expr) -> Option<&ExprClosure> { if let Expr::Closure(c) = e { Some(c) } else { None } }

struct HasReturn(bool);
impl<'a> Visit<'a> for HasReturn {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true }
    fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}

const ITERS: &[&str] = &["iter", "iter_mut", "into_iter", "filter", "split", "rev", "skip", "take_while", "chars", "drain", "zip", "enumerate", "chain", "flat_map"];
const OPTM: &[&str] = &["find", "take", "get_name", "name", "title", "description", "as_deref", "next_value", "last", "first", "pop", "or_else", "checked_add", "checked_sub", "checked_mul", "position", "observed_value", "convert_to_i64", "convert_to_u64", "convert_to_bool", "to_item_kind", "and_then", "next", "or", "cloned", "copied"];

impl<'g, 'u> R<'g, 'u> {
    fn render<T: Spanned>(&mut self, n: &T, v: impl FnOnce(&mut C<'_, 'g, 'u>)) -> String {
        let r = rng(n.span());
        let f = self.f.clone();
        let mut c = C { r: self, edits: vec![] };
        v(&mut c);
        let e = c.edits;
        apply(&f.text[r.clone()], r.start, e)
    }
    fn expr(&mut self, e: &Expr) -> String {
        // the expression itself may be rewritten
        if let Some(s) = self.rewrite(e) { return s; }
        self.render(e, |c| syn::visit::visit_expr(c, e))
    }
    fn ty(&mut self, t: &Type) -> String {
        if let Some(s) = self.rewrite_type(t) { return s; }
        self.render(t, |c| syn::visit::visit_type(c, t))
    }
    /// text between the braces of a block
    fn inner(&mut self, b: &Block) -> String {
        let s = self.render(b, |c| syn::visit::visit_block(c, b));
        let s = s.trim();
        s[1..s.len() - 1].to_string()
    }
    /// body of a function, with the `end` ghost text placed before the tail expression
    fn fn_body(&mut self, b: &Block, unit: bool) -> String {
        let f = self.f.clone();
        let end = if self.spec.end.is_empty() { self.spec.onret.clone() } else { self.spec.end.clone() };
        if end.is_empty() { return self.inner(b); }
        let mut out = String::new();
        let n = b.stmts.len();
        let mut placed = false;
        for (i, st) in b.stmts.iter().enumerate() {
            let last = i + 1 == n;
            if last {
                if let Stmt::Expr(e, None) = st {
                    placed = true;
                    if unit {
                        let s = self.expr(e);
                        out.push_str(&s); out.push_str(";\n"); out.push_str(&self.fill(&end));
                        continue;
                    }
                    if end.contains("$r") {
                        let s = self.expr(e);
                        out.push_str(&format!("let __r = {};\n{}\n__r", s, self.fill(&end).replace("$r", "__r")));
                        continue;
                    }
                    out.push_str(&self.fill(&end));
                }
            }
            let r = rng(st.span());
            let _ = &f.text[r];
            let s = self.render(st, |c| syn::visit::visit_stmt(c, st));
            out.push_str(&s); out.push('\n');
        }
        if !placed { out.push_str(&self.fill(&end)); }
        out
    }
    fn is_opt(&self, e: &Expr) -> bool {
        let t = nts(e);
        if self.g.unit.optfields.iter().any(|o| { let o = o.as_str(); if let Some(p) = o.strip_suffix('*') { t.starts_with(norm(p).as_str()) } else { t == norm(o) } }) { return true; }
        match e {
            Expr::Paren(p) => self.is_opt(&p.expr),
            Expr::Reference(r) => self.is_opt(&r.expr),
            Expr::Field(fe) => {
                if let (Expr::Path(p), Member::Named(n)) = (&*fe.base, &fe.member) {
                    if p.path.is_ident("self") { return self.field_is_opt(&n.to_string()); }
                }
                false
            }
            Expr::Path(p) => p.path.get_ident().map(|i| self.opt_params.contains(&i.to_string())).unwrap_or(false),
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if n == "as_ref" || n == "as_mut" || n == "map" || n == "cloned" || n == "filter" { return self.is_opt(&m.receiver) || (n == "map" && !self.is_iter(&m.receiver)); }
                OPTM.contains(&n.as_str())
            }
            _ => false,
        }
    }
    /// is it (syntactically) an f64?
    fn is_float(&self, e: &Expr) -> bool {
        match e {
            Expr::Paren(p) => self.is_float(&p.expr),
            Expr::Cast(c) => nts(&c.ty) == "f64",
            Expr::Lit(ExprLit { lit: Lit::Float(_), .. }) => true,
            _ if self.g.unit.floats.is_none() => false,
            Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.fl.contains(&i.to_string())),
            Expr::Field(fe) => if let Member::Named(n) = &fe.member { let n = n.to_string(); self.g.unit.floats.as_ref().unwrap().contains(&n) || float_field(&self.f.ast.items, &n) } else { false },
            Expr::Index(i) => self.is_float(&i.expr),
            Expr::Unary(u) => matches!(u.op, UnOp::Neg(_)) && self.is_float(&u.expr),
            Expr::Binary(b) => matches!(b.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_)) && (self.is_float(&b.left) || self.is_float(&b.right)),
            Expr::MethodCall(m) => ["as_secs_f64", "as_secs_f32"].contains(&m.method.to_string().as_str()) || ["exp", "round", "abs", "max", "min"].contains(&m.method.to_string().as_str()) && self.is_float(&m.receiver),
            Expr::If(i) => i.then_branch.stmts.last().map_or(false, |s| matches!(s, Stmt::Expr(e, None) if self.is_float(e))),
            Expr::Block(b) => b.block.stmts.last().map_or(false, |s| matches!(s, Stmt::Expr(e, None) if self.is_float(e))),
            _ => false,
        }
    }
    fn is_cell(&self, e: &Expr) -> bool {
        match e {
            Expr::Paren(p) => self.is_cell(&p.expr),
            Expr::Field(fe) => if let (Expr::Path(p), Member::Named(n)) = (&*fe.base, &fe.member) { p.path.is_ident("self") && self.g.unit.cells.contains(&n.to_string()) } else { false },
            _ => false,
        }
    }
    fn is_iter(&self, e: &Expr) -> bool {
        if let Expr::MethodCall(m) = e { let n = m.method.to_string(); ITERS.contains(&n.as_str()) || (n == "map" && self.is_iter(&m.receiver)) } else { matches!(e, Expr::Range(_)) || matches!(e, Expr::Paren(p) if self.is_iter(&p.expr)) }
    }
    fn field_is_opt(&self, name: &str) -> bool {
        for it in &self.f.ast.items {
            if let Item::Struct(s) = it {
                if s.ident == self.self_ty {
                    for f in &s.fields {
                        if f.ident.as_ref().map(|i| i == name).unwrap_or(false) {
                            return nts(&f.ty).starts_with("Option <");
                        }
                    }
                }
            }
        }
        false
    }
    fn fill(&self, s: &str) -> String {
        let mut s = s.to_string();
        for (i, p) in self.params.iter().enumerate() { s = s.replace(&format!("${}", i + 1), p); }
        let muts: Vec<String> = self.lets.iter().filter(|x| x.1).map(|x| x.0.clone()).collect();
        let lets: Vec<String> = self.lets.iter().map(|x| x.0.clone()).collect();
        s = place(&s, "$m", &muts);
        s = place(&s, "$n", &lets);
        s = place(&s, "$i", &self.iflets);
        s
    }
    /// take the loop spec of the next loop, with placeholders filled
    fn next_loop(&mut self, elem: &str, kind: &str, acc: Option<String>) -> (String, LoopSpec) {
        let k = self.loop_idx;
        self.loop_idx += 1;
        let it = format!("it_{}", k);
        let mut ls = self.spec.loops.iter().find(|x| x.0 == k).map(|x| x.1.clone()).unwrap_or_default();
        for t in [&mut ls.inv, &mut ls.start, &mut ls.end, &mut ls.before, &mut ls.after] {
            // lines for one kind of loop only
            if ["@for ", "@while ", "@plain ", "@made ", "@flag ", "@value ", "@loop ", "@cond ", "@index "].iter().any(|k| t.contains(k)) {
                let whiles = ["while", "loop", "value"].contains(&kind);
                let kinds: [(&str, bool); 9] = [("@index ", kind == "index"), ("@for ", !whiles), ("@while ", whiles), ("@plain ", kind == "plain"), ("@flag ", kind == "flag"), ("@made ", kind == "for"), ("@value ", kind == "value"), ("@loop ", kind == "loop"), ("@cond ", kind == "while")];
                *t = t.lines().filter_map(|l| { let x = l.trim_start(); match kinds.iter().find(|k| x.starts_with(k.0)) { Some(k) => if k.1 { Some(&x[k.0.len()..]) } else { None }, None => Some(l) } }).map(|l| format!("{}\n", l)).collect();
            }
            // `$acc2~name`: what the loop adds up in, otherwise `$m2~name`
            while let Some(p) = t.find("$acc") {
                let e = p + 4 + t[p + 4..].find(|c: char| !c.is_ascii_digit()).unwrap_or(t.len() - p - 4);
                let e2 = if t[e..].starts_with('~') { e + 1 + t[e + 1..].find(|c: char| !(c.is_alphanumeric() || c == '_')).unwrap_or(t.len() - e - 1) } else { e };
                let with = match &acc { Some(a) => a.clone(), None => format!("$m{}", &t[p + 4..e2]) };
                t.replace_range(p..e2, &with);
            }
            *t = self.fill(&t.replace("$it", &it).replace("$x", elem).replace("$f", &self.flagvar.clone().unwrap_or(format!("__f{}", k))).replace("$brk", &format!("__b{}", k)));
        }
        // what is known before a loop stays known inside it (so that hoisted definitions do not matter), unless `isolate` is asked for
        if ls.attr.trim() == "isolate" { ls.attr = String::new(); } else if ls.attr.trim().is_empty() { ls.attr = if ls.inv.contains("invariant_except_break") || ls.inv.contains("ensures") { "#[verifier::allow_complex_invariants]\n#[verifier::loop_isolation(false)]\n".into() } else { "#[verifier::loop_isolation(false)]\n".into() }; }
        (it, ls)
    }
    fn vac(&mut self, what: &str) -> String {
        let fs = if what == "loop" { self.g.unit.fnstart.clone() } else { String::new() };
        if !self.g.vacuity { return fs; }
        let id = self.g.vac.len();
        self.g.vac.push(serde_json::json!({"id": id, "fn": self.key, "what": what}));
        format!("{}proof {{ if vx_vac({}) {{ assert(false); /*VAC{}*/ }} }}\n", fs, id, id)
    }
    fn for_text(&mut self, pat: &str, simple: bool, iter: &str, body: &str, it: &str, ls: &LoopSpec) -> String {
        let v = if simple { pat.to_string() } else { self.fresh += 1; format!("__e{}", self.fresh) };
        // `&(ref a, ref b)` is `(a, b)` matched against the reference, `&(a, b)` is `(a, b)` matched against its target
        let bind = if simple { String::new() } else if let Some(p) = pat.strip_prefix('&').filter(|p| !p.starts_with("mut ")) { if p.contains("ref ") { format!("let {} = {};\n", p.split("ref ").collect::<String>(), v) } else { format!("let {} = *{};\n", p, v) } } else { format!("let {} = {};\n", pat, v) };
        let vac = self.vac("loop");
        if self.spec.flags.iter().any(|x| *x == format!("nextloop {}", &it[3..])) {
            self.g.note("for loop over an extracted iterator desugared to a loop calling next()");
            return format!("let mut {} = {};\n{}{} loop\n{}{{ {}{}match {}.next() {{ None => {{ break; }} Some({}) => {{ {}{}\n{} }} }} }}\n{}", it, iter, ls.before, ls.attr, ls.inv, vac, ls.start, it, v, bind, body, ls.end, ls.after);
        }
        format!("{}{} for {} in {}: {}\n{}{{ {}{}{}{}\n{} }}\n{}", ls.before, ls.attr, v, it, iter, ls.inv, vac, ls.start, bind, body, ls.end, ls.after)
    }
    fn add_assign(&mut self, l: &str, r: &str) -> String {
        if self.spec.flags.iter().any(|x| x == "mathadd") {
            self.g.note("sums of reported counts treated as mathematical (no overflow)");
            format!("({{ let vx_t = {}; {} = vx_add({}, vx_t); }})", r, l, l)
        } else { format!("{} += {};", l, r) }
    }
    fn body_of_closure(&mut self, c: &ExprClosure) -> String {
        match &*c.body { Expr::Block(b) => self.inner(&b.block), e => self.expr(e) }
    }

    fn rewrite_type(&mut self, t: &Type) -> Option<String> {
        let n = nts(t);
        let r = self.g.unit.types.iter().find(|x| x.0 == n).map(|x| x.1.clone());
        if r.is_some() { self.g.note(&format!("type `{}` replaced by the contract-only stand-in `{}`", n, r.as_ref().unwrap())); }
        r
    }

    fn path_edit(&mut self, p: &Path) -> Option<(Range<usize>, String)> {
        let n = nts(p);
        if let Some(x) = self.g.unit.paths.iter().find(|x| x.0 == n) { return Some((rng(p.span()), x.1.clone())); }
        if p.segments.len() < 2 { return None; }
        if n.starts_with("std :: mem ::") { return None; }
        if n.starts_with("std :: cmp :: min") { return Some((rng(p.span()), "vx_min".into())); }
        if n.starts_with("std :: cmp :: max") { return Some((rng(p.span()), "vx_max".into())); }
        // strip leading module segments
        let prim = ["i64", "u64", "f64", "usize", "i32", "u32", "u8", "i8", "u16", "i16", "isize", "f32", "str"];
        let mut k = 0;
        for (i, s) in p.segments.iter().enumerate() {
            let id = s.ident.to_string();
            let upper = id.chars().next().unwrap().is_uppercase();
            if upper || i + 1 == p.segments.len() || prim.contains(&id.as_str()) { k = i; break; }
        }
        if k == 0 { return None; }
        let a = rng(p.span()).start;
        let b = rng(p.segments[k].span()).start;
        Some((a..b, String::new()))
    }

    fn rewrite(&mut self, e: &Expr) -> Option<String> {
        // user substitutions
        if !self.spec.substs.is_empty() || !self.g.unit.exprs.is_empty() {
            let n = nts(e);
            if let Some((i, caps)) = (0..self.spec.substs.len()).find_map(|i| pat_match(&self.spec.substs[i].0, &n).filter(|_| same_shape(&self.spec.substs[i].0, e)).map(|c| (i, c))) {
                self.used_substs[i] = true;
                let mut s = self.spec.substs[i].1.clone();
                for (k, v) in caps {
                    // what a metavariable stands for is itself extracted
                    struct Find<'a, 'b>(&'b str, &'a Expr, Option<&'a Expr>);
                    impl<'a, 'b> syn::visit::Visit<'a> for Find<'a, 'b> {
                        fn visit_expr(&mut self, x: &'a Expr) { if self.2.is_none() && !std::ptr::eq(x, self.1) && nts(x) == self.0 { self.2 = Some(x); } syn::visit::visit_expr(self, x); }
                    }
                    let mut fd = Find(&v, e, None);
                    syn::visit::Visit::visit_expr(&mut fd, e);
                    let v = match fd.2 { Some(x) if !matches!(x, Expr::Path(_) | Expr::Lit(_)) => { let r = self.expr(x); if syn::parse_str::<Expr>(&r).map(|y| nts(&y) == v).unwrap_or(false) { v } else { r } } _ => v };
                    s = s.replace(&k, &v);
                }
                self.g.note(&format!("{}: expression `{}` replaced by `{}`", self.key, n, s));
                return Some(self.fill(&s));
            }
            if let Some(x) = self.g.unit.exprs.iter().find(|x| x.0 == n) {
                let s = x.1.clone();
                self.g.note(&format!("expression `{}` replaced by `{}`", n, s));
                return Some(s);
            }
        }
        let f = self.f.clone();
        match e {
            Expr::Binary(b) if matches!(b.op, BinOp::AddAssign(_)) && self.spec.flags.iter().any(|x| x == "mathadd") => {
                let (l, r) = (self.expr(&b.left), self.expr(&b.right));
                self.g.note("sums of reported counts treated as mathematical (no overflow)");
                Some(format!("({{ let vx_t = {}; {} = vx_add({}, vx_t); }})", r, l, l))
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Add(_)) && self.spec.flags.iter().any(|x| x == "mathadd") => {
                let (l, r) = (self.expr(&b.left), self.expr(&b.right));
                self.g.note("sums of reported counts treated as mathematical (no overflow)");
                Some(format!("vx_add({}, {})", l, r))
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Neg(_)) && self.g.unit.floats.is_some() && self.is_float(&u.expr) => {
                self.g.note("f64 arithmetic/comparison replaced by uninterpreted functions");
                let s = self.expr(&u.expr);
                Some(format!("vx_f64_neg({})", s))
            }
            Expr::MethodCall(m) if m.method == "exp" && m.args.is_empty() && self.g.unit.floats.is_some() && self.is_float(&m.receiver) => {
                self.g.note("f64 arithmetic/comparison replaced by uninterpreted functions");
                let s = self.expr(&m.receiver);
                Some(format!("vx_f64_exp({})", s))
            }
            Expr::Path(p) if self.mut_self && p.path.is_ident("self") => Some("vx_self".to_string()),
            Expr::Reference(r) if r.mutability.is_none() && self.is_cell(&r.expr) => { let s = self.expr(&r.expr); Some(format!("&mut {}", s)) }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match name.as_str() {
                    "as_ref" if m.args.is_empty() && self.is_cell(&m.receiver) => { let s = self.expr(&m.receiver); return Some(format!("{}.as_mut()", s)); }
                    "for_each" if m.args.len() == 1 => {
                        let c = closure1(&m.args[0])?;
                        return Some(self.for_each(&m.receiver, c));
                    }
                    "any" | "all" if m.args.len() == 1 && array_loop(&m.receiver).is_some() => {
                        let (arr, by_ref) = array_loop(&m.receiver)?;
                        let c = closure1(&m.args[0])?;
                        self.g.note("any/all over an array literal unrolled");
                        let u = self.hoist(arr);
                        let (pat, amp) = match &c.inputs[0] { Pat::Reference(r) => (f.text[rng(r.pat.span())].to_string(), false), p => (f.text[rng(p.span())].to_string(), by_ref) };
                        let mut o = vec![];
                        for n in &u.1 { let b = self.body_of_closure(c); o.push(format!("({{ let {} = {}{}; {} }})", pat, if amp { "&" } else { "" }, n, b)); }
                        let (op, none) = if name == "any" { (" || ", "false") } else { (" && ", "true") };
                        return Some(format!("({{ {} {} }})", u.0, if o.is_empty() { none.to_string() } else { o.join(op) }));
                    }
                    "any" | "all" if m.args.len() == 1 && self.is_iter(&m.receiver) => {
                        let c = closure1(&m.args[0])?;
                        self.g.note("iterator any/all desugared to a for loop with break");
                        let iter = self.expr(&m.receiver);
                        let pat = strip_pat(&f.text, &c.inputs[0]);
                        let k = self.loop_idx;
                        let simple = matches!(&c.inputs[0], Pat::Ident(_));
                        let (it, ls) = self.next_loop(&pat, "for", None);
                        let b = self.expr(&c.body);
                        // all(p) is !any(!p): what is remembered is always whether one was found
                        let (sign, cond) = if name == "any" { ("", format!("({})", b)) } else { ("!", format!("!({})", b)) };
                        let mut ls2 = ls.clone(); ls2.end = String::new();
                        let body = format!("if {} {{ __f{} = true; {} break; }}", cond, k, ls.end);
                        let l = self.for_text(&pat, simple, &iter, &body, &it, &ls2);
                        return Some(format!("({sign}({{ let mut __f{k}: bool = false;\n{l}\n__f{k} }}))"));
                    }
                    "find" if m.args.len() == 1 && self.is_iter(&m.receiver) && closure1(&m.args[0]).is_some() => {
                        let c = closure1(&m.args[0])?;
                        let mutable = matches!(&*m.receiver, Expr::MethodCall(mm) if mm.method == "iter_mut");
                        let pat = strip_pat(&f.text, &c.inputs[0]);
                        let k = self.loop_idx;
                        if mutable {
                            self.g.note("iter_mut().find(p) desugared to an index search followed by &mut v[i]");
                            let recv = if let Expr::MethodCall(mm) = &*m.receiver { self.expr(&mm.receiver) } else { return None };
                            let (_it, ls) = self.next_loop(&format!("__i{}", k), "while", None);
                            let b = self.expr(&c.body);
                            let vac = self.vac("loop");
                            return Some(format!("({{ let mut __i{k}: usize = 0; let mut __f{k}: bool = false;\n{before}{attr} while !__f{k} && __i{k} < {recv}.len()\n{inv}{{ {vac}{start}\n let {pat} = &{recv}[__i{k}];\n if {b} {{ __f{k} = true; }} else {{ __i{k} = __i{k} + 1; }}\n{end} }}\n{after}\n if __f{k} {{ Some(&mut {recv}[__i{k}]) }} else {{ None }} }})", k=k, before=ls.before, attr=ls.attr, recv=recv, inv=ls.inv, vac=vac, start=ls.start, pat=pat, b=b, end=ls.end, after=ls.after));
                        }
                        self.g.note("iterator find desugared to a for loop with break");
                        let iter = self.expr(&m.receiver);
                        self.fresh += 1;
                        let x = format!("__x{}", self.fresh);
                        let (it, ls) = self.next_loop(&x, "for", None);
                        let b = self.expr(&c.body);
                        let body = format!("let {} = {};\n if {} {{ __f{} = Some({}); {} break; }}", pat, x, b, k, x, ls.end);
                        let mut ls2 = ls.clone(); ls2.end = String::new();
                        let l = self.for_text(&x, true, &iter, &body, &it, &ls2);
                        return Some(format!("({{ let mut __f{k} = None;\n{l}\n__f{k} }})"));
                    }
                    "collect" if m.args.is_empty() => {
                        // adapters between the source and collect
                        let mut chain: Vec<(String, &ExprClosure)> = vec![];
                        let mut base: &Expr = &m.receiver;
                        while let Expr::MethodCall(mm) = base {
                            let n = mm.method.to_string();
                            if (n == "filter" || n == "map") && mm.args.len() == 1 { chain.push((n, closure1(&mm.args[0])?)); base = &mm.receiver; } else { break; }
                        }
                        chain.reverse();
                        self.g.note("iterator filter/map/collect chain desugared to a for loop pushing onto a Vec");
                        let iter = self.expr(base);
                        self.fresh += 1;
                        let x = format!("__x{}", self.fresh);
                        let k = self.loop_idx;
                        let (it, ls) = self.next_loop(&x, "for", Some(format!("__f{}", k)));
                        let (mut pre, mut post, mut cur) = (String::new(), String::new(), x.clone());
                        for (n, c) in chain {
                            let p = f.text[rng(c.inputs[0].span())].to_string();
                            let b = self.expr(&c.body);
                            if n == "filter" { pre.push_str(&format!("if ({{ let {} = &{}; {} }}) {{ ", p, cur, b)); post.push_str(" }"); }
                            else { self.fresh += 1; let y = format!("__x{}", self.fresh); pre.push_str(&format!("let {} = ({{ let {} = {}; {} }}); ", y, p, cur, b)); cur = y; }
                        }
                        let body = format!("{} __f{}.push({});{}", pre, k, cur, post);
                        let l = self.for_text(&x, true, &iter, &body, &it, &ls);
                        return Some(format!("({{ let mut __f{k}: Vec<_> = Vec::new();\n{l}\n__f{k} }})"));
                    }
                    "map" if m.args.len() == 1 && !self.is_iter(&m.receiver) && closure1(&m.args[0]).is_some() => {
                        let c = closure1(&m.args[0])?;
                        self.g.note("Option::map with a closure literal desugared to match");
                        let r = self.expr(&m.receiver);
                        let p = f.text[rng(c.inputs[0].span())].to_string();
                        let b = self.expr(&c.body);
                        return Some(format!("(match {} {{ Some({}) => Some({}), None => None }})", r, p, b));
                    }
                    "and_then" if m.args.len() == 1 && closure1(&m.args[0]).is_some() => {
                        let c = closure1(&m.args[0])?;
                        self.g.note("Option::and_then with a closure literal desugared to match");
                        let r = self.expr(&m.receiver);
                        let p = f.text[rng(c.inputs[0].span())].to_string();
                        let b = self.expr(&c.body);
                        return Some(format!("(match {} {{ Some({}) => {}, None => None }})", r, p, b));
                    }
                    "map_or" if m.args.len() == 2 && closure1(&m.args[1]).is_some() => {
                        let c = closure1(&m.args[1])?;
                        self.g.note("Option::map_or with a closure literal desugared to match");
                        let r = self.expr(&m.receiver);
                        let d = self.expr(&m.args[0]);
                        let p = f.text[rng(c.inputs[0].span())].to_string();
                        let b = self.expr(&c.body);
                        return Some(format!("(match {} {{ Some({}) => {}, None => {} }})", r, p, b, d));
                    }
                    "is_some_and" | "is_none_or" if m.args.len() == 1 && closure1(&m.args[0]).is_some() => {
                        let c = closure1(&m.args[0])?;
                        self.g.note("Option::is_some_and/is_none_or with a closure literal desugared to match");
                        let r = self.expr(&m.receiver);
                        let p = f.text[rng(c.inputs[0].span())].to_string();
                        let b = self.expr(&c.body);
                        return Some(format!("(match {} {{ Some({}) => {}, None => {} }})", r, p, b, name == "is_none_or"));
                    }
                    "map_or_else" if m.args.len() == 2 && closure1(&m.args[0]).map_or(false, |c| c.inputs.is_empty()) && closure1(&m.args[1]).is_some() => {
                        let (d, c) = (closure1(&m.args[0])?, closure1(&m.args[1])?);
                        self.g.note("Option::map_or_else with closure literals desugared to match");
                        let r = self.expr(&m.receiver);
                        let d = self.expr(&d.body);
                        let p = f.text[rng(c.inputs[0].span())].to_string();
                        let b = self.expr(&c.body);
                        return Some(format!("(match {} {{ Some({}) => {}, None => {} }})", r, p, b, d));
                    }
                    "filter" if m.args.len() == 1 && closure1(&m.args[0]).is_some() && self.is_opt(&m.receiver) && !self.is_iter(&m.receiver) => {
                        let c = closure1(&m.args[0])?;
                        self.g.note("Option::filter with a closure literal desugared to match");
                        let r = self.expr(&m.receiver);
                        let p = f.text[rng(c.inputs[0].span())].to_string();
                        let b = self.expr(&c.body);
                        return Some(format!("(match {} {{ Some(__v) => if ({{ let {} = &__v; {} }}) {{ Some(__v) }} else {{ None }}, None => None }})", r, p, b));
                    }
                    "fold" if m.args.len() == 2 && closure1(&m.args[1]).is_some() && self.is_iter(&m.receiver) => {
                        let c = closure1(&m.args[1])?;
                        if c.inputs.len() != 2 { return None; }
                        let Some(acc) = binder(&c.inputs[0]) else { return None };
                        self.g.note("iterator fold desugared to a for loop");
                        let init = self.expr(&m.args[0]);
                        let iter = self.expr(&m.receiver);
                        let pat = strip_pat(&f.text, &c.inputs[1]);
                        let simple = binder(&c.inputs[1]).is_some();
                        let (it, ls) = self.next_loop(&pat, "for", Some(acc.clone()));
                        // `acc + e` adds to the accumulator
                        let b = match &*c.body { Expr::Binary(bi) if matches!(bi.op, BinOp::Add(_)) && nts(&bi.left) == acc => { let e = self.expr(&bi.right); self.add_assign(&acc, &e) } e => format!("{} = {};", acc, self.expr(e)) };
                        let l = self.for_text(&pat, simple, &iter, &b, &it, &ls);
                        return Some(format!("({{ let mut {acc} = {init};\n{l}\n{acc} }})"));
                    }
                    "sum" if m.args.is_empty() && matches!(&*m.receiver, Expr::MethodCall(mm) if mm.method == "map" && mm.args.len() == 1 && closure1(&mm.args[0]).is_some() && self.is_iter(&mm.receiver)) => {
                        let Expr::MethodCall(mm) = &*m.receiver else { return None };
                        let c = closure1(&mm.args[0])?;
                        self.g.note("iterator map/sum desugared to a for loop");
                        let acc = format!("__f{}", self.loop_idx);
                        let ty = m.turbofish.as_ref().map(|t| f.text[rng(t.args.span())].to_string());
                        let iter = self.expr(&mm.receiver);
                        let pat = strip_pat(&f.text, &c.inputs[0]);
                        let simple = binder(&c.inputs[0]).is_some();
                        let (it, ls) = self.next_loop(&pat, "for", Some(acc.clone()));
                        let e = self.expr(&c.body);
                        let b = self.add_assign(&acc, &e);
                        let l = self.for_text(&pat, simple, &iter, &b, &it, &ls);
                        return Some(format!("({{ let mut {acc}{} = 0;\n{l}\n{acc} }})", ty.map_or(String::new(), |t| format!(": {}", t))));
                    }
                    "count" if m.args.is_empty() && matches!(&*m.receiver, Expr::MethodCall(mm) if mm.method == "filter" && mm.args.len() == 1 && closure1(&mm.args[0]).is_some() && self.is_iter(&mm.receiver)) => {
                        let Expr::MethodCall(mm) = &*m.receiver else { return None };
                        let c = closure1(&mm.args[0])?;
                        self.g.note("iterator filter/count desugared to a for loop");
                        let acc = format!("__f{}", self.loop_idx);
                        let iter = self.expr(&mm.receiver);
                        self.fresh += 1;
                        let x = format!("__x{}", self.fresh);
                        let (it, ls) = self.next_loop(&x, "for", Some(acc.clone()));
                        let p = f.text[rng(c.inputs[0].span())].to_string();
                        let e = self.expr(&c.body);
                        let b = format!("if ({{ let {} = &{}; {} }}) {{ {} }}", p, x, e, self.add_assign(&acc, "1"));
                        let l = self.for_text(&x, true, &iter, &b, &it, &ls);
                        return Some(format!("({{ let mut {acc}: usize = 0;\n{l}\n{acc} }})"));
                    }
                    "or_else" if m.args.len() == 1 && closure1(&m.args[0]).map(|c| c.inputs.is_empty()).unwrap_or(false) => {
                        let c = closure1(&m.args[0])?;
                        self.g.note("Option::or_else with a closure literal desugared to match");
                        let r = self.expr(&m.receiver);
                        let b = self.expr(&c.body);
                        return Some(format!("(match {} {{ Some(__v) => Some(__v), None => {} }})", r, b));
                    }
                    "unwrap_or_else" if m.args.len() == 1 && closure1(&m.args[0]).map(|c| c.inputs.is_empty()).unwrap_or(false) => {
                        let c = closure1(&m.args[0])?;
                        self.g.note("Option::unwrap_or_else with a closure literal desugared to match");
                        let r = self.expr(&m.receiver);
                        let b = self.expr(&c.body);
                        return Some(format!("(match {} {{ Some(__v) => __v, None => {} }})", r, b));
                    }
                    "to_string" if m.args.is_empty() => {
                        self.g.note("to_string() of displayable strings replaced by the stand-in used for format!");
                        let r = self.expr(&m.receiver);
                        return Some(format!("vx_disp(&{})", r));
                    }
                    "as_deref" if m.args.is_empty() => {
                        self.g.note("Option<String>::as_deref replaced by a contract-only stand-in");
                        let r = self.expr(&m.receiver);
                        return Some(format!("vx_as_deref(&{})", r));
                    }
                    "retain" if m.args.len() == 1 => {
                        self.g.note("Vec::retain(closure) replaced by a stand-in with the contract of retain");
                        let r = self.expr(&m.receiver);
                        let c = self.expr(&m.args[0]);
                        return Some(format!("vx_retain(&mut {}, {})", r, c));
                    }
                    _ => {}
                }
                // helper inlining
                if let Expr::Path(p) = &*m.receiver {
                    if p.path.is_ident("self") {
                        if let Some(s) = self.try_inline(&name, &m.args.iter().collect::<Vec<_>>(), true) { return Some(s); }
                    }
                }
                if let Some(s) = self.inline_new(&name, None, &m.args.iter().collect::<Vec<_>>(), Some(&*m.receiver)) { return Some(s); }
                None
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let last = p.path.segments.last().unwrap().ident.to_string();
                    let n = nts(&p.path);
                    if last == "log_error" || last == "log_warning" || last == "log_info" {
                        self.g.note("logging call replaced by a no-op (logging is not part of any property)");
                        return Some("vx_log()".into());
                    }
                    if p.path.segments.len() == 1 || n.starts_with("Self ::") || n.starts_with("self ::") || n.starts_with(&format!("{} ::", self.self_ty)) {
                        if let Some(s) = self.try_inline(&last, &c.args.iter().collect::<Vec<_>>(), false) { return Some(s); }
                    }
                    let n = p.path.segments.len();
                    let ty = if n > 1 { let t = p.path.segments[n - 2].ident.to_string(); if t == "Self" { Some(self.self_ty.clone()) } else if t.starts_with(char::is_uppercase) { Some(t) } else { None } } else { None };
                    if let Some(s) = self.inline_new(&last, ty.as_deref(), &c.args.iter().collect::<Vec<_>>(), None) { return Some(s); }
                }
                None
            }
            Expr::Return(rt) if !self.spec.onret.is_empty() => {
                let g = self.fill(&self.spec.onret.clone());
                Some(match &rt.expr { None => format!("({{ {}\n return }})", g), Some(e) => { let s = self.expr(e); format!("({{ let __r = {};\n{}\n return __r }})", s, g.replace("$r", "__r")) } })
            }
            Expr::Assign(a) if !self.g.unit.indexassign.is_empty() => {
                if let Expr::Index(ix) = &*a.left {
                    self.g.note("indexed assignment through IndexMut replaced by a contract-only stand-in");
                    let (x, i, v) = (self.expr(&ix.expr), self.expr(&ix.index), self.expr(&a.right));
                    return Some(format!("{}(&mut {}, {}, {})", self.g.unit.indexassign, x, i, v));
                }
                None
            }
            Expr::Macro(m) => self.macro_(&m.mac),
            Expr::Cast(c) => {
                let t = nts(&c.ty);
                if t == "f64" {
                    self.g.note("`as f64` cast replaced by an uninterpreted conversion function");
                    let s = self.expr(&c.expr);
                    return Some(format!("vx_as_f64({})", s));
                }
                None
            }
            Expr::Binary(b) => {
                if self.g.unit.floats.is_some() && self.is_float(&b.left) {
                    let op = match b.op { BinOp::AddAssign(_) => "vx_f64_add", BinOp::SubAssign(_) => "vx_f64_sub", BinOp::MulAssign(_) => "vx_f64_mul", BinOp::DivAssign(_) => "vx_f64_div", _ => "" };
                    if !op.is_empty() {
                        self.g.note("f64 arithmetic/comparison replaced by uninterpreted functions");
                        let l = self.expr(&b.left); let r = self.expr(&b.right);
                        return Some(format!("{} = {}({}, {})", l, op, l, r));
                    }
                }
                if self.is_float(&b.left) || self.is_float(&b.right) {
                    let op = match b.op { BinOp::Div(_) => "vx_f64_div", BinOp::Mul(_) => "vx_f64_mul", BinOp::Add(_) => "vx_f64_add", BinOp::Sub(_) => "vx_f64_sub", BinOp::Le(_) => "vx_f64_le", BinOp::Lt(_) => "vx_f64_lt", BinOp::Ge(_) => "vx_f64_ge", BinOp::Gt(_) => "vx_f64_gt", _ => return None };
                    self.g.note("f64 arithmetic/comparison replaced by uninterpreted functions");
                    let l = self.expr(&b.left); let r = self.expr(&b.right);
                    return Some(format!("{}({}, {})", op, l, r));
                }
                None
            }
            Expr::Index(ix) if !self.index.is_empty() => {
                let (v, i) = (nts(&ix.expr), nts(&ix.index));
                let x = self.index.iter().find(|x| x.0 == v && x.1 == i)?;
                Some(format!("(*{})", x.2))
            }
            Expr::ForLoop(l) if l.label.is_none() && array_loop(&l.expr).is_some() && straight(&l.body) => {
                let (arr, by_ref) = array_loop(&l.expr)?;
                self.g.note("loop over an array literal unrolled");
                let u = self.hoist(arr);
                let (pat, amp) = match &*l.pat { Pat::Reference(r) => (f.text[rng(r.pat.span())].to_string(), false), p => (f.text[rng(p.span())].to_string(), by_ref) };
                let mut o = String::new();
                for n in &u.1 { let b = self.inner(&l.body); o += &format!("if true {{ let {} = {}{}; {} }}\n", pat, if amp { "&" } else { "" }, n, b); }
                Some(format!("if true {{ {} {} }}", u.0, o))
            }
            Expr::ForLoop(l) if l.label.is_none() && straight(&l.body) && self.opt_source(&l.expr).is_some() => {
                let src = self.opt_source(&l.expr)?;
                self.g.note("loop over an Option read as if let");
                let pat = strip_pat(&f.text, &l.pat);
                let b = self.inner(&l.body);
                Some(format!("if let Some({}) = {} {{ {} }}", pat, src, b))
            }
            Expr::ForLoop(l) => {
                let acc = acc_of_block(&l.body);
                let kk = self.loop_idx;
                let asindex = self.spec.flags.iter().any(|x| *x == format!("asindex {}", kk));
                if let Some((v, i)) = index_loop(l).filter(|_| !asindex) {
                    self.g.note("loop over the indices of a Vec read as a loop over its elements");
                    self.fresh += 1;
                    let x = format!("__x{}", self.fresh);
                    let k = self.loop_idx;
                    let shared = self.spec.loops.iter().find(|y| y.0 == k).map_or(true, |y| !y.1.inv.contains("final("));
                    let recv = self.expr(v);
                    let (it, ls) = self.next_loop(&x, "for", acc);
                    self.index.push((nts(v), i, x.clone()));
                    self.brk.push(None);
                    let b = self.inner(&l.body);
                    self.brk.pop();
                    self.index.pop();
                    return Some(self.for_text(&x, true, &format!("{}.{}()", recv, if shared { "iter" } else { "iter_mut" }), &b, &it, &ls));
                }
                // `flag asindex k`: the loop over the elements of a Vec read as a loop over its indices
                if asindex {
                    let v: Option<&Expr> = match &*l.expr {
                        Expr::Reference(r) => Some(&*r.expr),
                        Expr::MethodCall(m) if (m.method == "iter" || m.method == "iter_mut") && m.args.is_empty() => Some(&*m.receiver),
                        _ => None,
                    };
                    if let (Some(v), Some(x)) = (v.filter(|v| matches!(v, Expr::Path(_) | Expr::Field(_))), binder(&l.pat).filter(|_| matches!(&*l.pat, Pat::Ident(_)))) {
                        self.g.note("loop over the elements of a Vec read as a loop over its indices");
                        self.fresh += 1;
                        let i = format!("__i{}", self.fresh);
                        let recv = self.expr(v);
                        let (it, ls) = self.next_loop(&x, "index", acc);
                        self.brk.push(None);
                        let b = self.inner(&l.body);
                        self.brk.pop();
                        return Some(self.for_text(&i, true, &format!("0..{}.len()", recv), &format!("let {} = &mut {}[{}];\n{}", x, recv, i, b), &it, &ls));
                    }
                }
                let iter = match &*l.expr { Expr::Reference(r) if r.mutability.is_some() => { let s = self.expr(&r.expr); self.g.note("`for x in &mut v` read as `for x in v.iter_mut()`"); format!("{}.iter_mut()", s) } e => self.expr(e) };
                let elem = f.text[rng(l.pat.span())].to_string();
                let simple = matches!(&*l.pat, Pat::Ident(_));
                let (kind, flag) = match flag_of_block(&l.body) { Some((x, true)) => ("for", Some(x)), Some((x, false)) => ("flag", Some(x)), None => ("plain", None) };
                let kind = if asindex { "index" } else { kind };
                self.flagvar = flag;
                let (it, ls) = self.next_loop(&elem, kind, acc);
                self.flagvar = None;
                self.brk.push(None);
                let b = self.inner(&l.body);
                self.brk.pop();
                Some(self.for_text(&elem, simple, &iter, &b, &it, &ls))
            }
            Expr::While(w) => {
                self.flagvar = match &*w.cond { Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => match &*u.expr { Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()), _ => None }, _ => None };
                let (_, ls) = self.next_loop("", "while", acc_of_block(&w.body));
                self.flagvar = None;
                let cond = self.expr(&w.cond);
                self.brk.push(None);
                let b = self.inner(&w.body);
                self.brk.pop();
                let vac = self.vac("loop");
                Some(format!("{}{} while {}\n{}{{ {}{}{}\n{} }}\n{}", ls.before, ls.attr, cond, ls.inv, vac, ls.start, b, ls.end, ls.after))
            }
            Expr::Loop(w) => {
                let k = self.loop_idx;
                let with_value = w.label.is_none() && breaks_with_value(&w.body);
                let (_, ls) = self.next_loop("", if with_value { "value" } else { "loop" }, acc_of_block(&w.body));
                self.brk.push(if with_value { Some(format!("__b{}", k)) } else { None });
                let b = self.inner(&w.body);
                self.brk.pop();
                let vac = self.vac("loop");
                let body = format!("loop\n{}{{ {}{}{}\n{} }}", ls.inv, vac, ls.start, b, ls.end);
                if with_value {
                    self.g.note("loop whose value is given by break desugared to a variable assigned before break");
                    return Some(format!("({{ let __b{}; {}{} {}\n{} __b{} }})", k, ls.before, ls.attr, body, ls.after, k));
                }
                if ls.before.is_empty() && ls.after.is_empty() { Some(format!("{} {}", ls.attr, body)) } else { Some(format!("{}{} {}\n{}", ls.before, ls.attr, body, ls.after)) }
            }
            Expr::Break(b) if b.expr.is_some() && b.label.is_none() => {
                let v = self.brk.last().cloned().flatten()?;
                let e = self.expr(b.expr.as_ref().unwrap());
                Some(format!("{{ {} = {}; break; }}", v, e))
            }
            Expr::Closure(c) => {
                let k = self.clos_idx;
                self.clos_idx += 1;
                let sp = self.spec.closures.iter().find(|x| x.0 == k).cloned();
                let b = self.body_of_closure(c);
                let mv = if c.capture.is_some() { "move " } else { "" };
                match sp {
                    Some((_, params, sp)) => {
                        let pn: Vec<String> = c.inputs.iter().map(|p| strip_pat(&f.text, p)).collect();
                        let mut sp = self.fill(&sp);
                        for (i, n) in pn.iter().enumerate() { sp = sp.replace(&format!("#{}", i + 1), n); }
                        let mut params = params;
                        for (i, n) in pn.iter().enumerate() { params = params.replace(&format!("#{}", i + 1), n); }
                        Some(format!("{}|{}| -> (b: _)\n{}{{ {} }}", mv, params, sp, b).replace("(b: _)", &format!("(b: {})", self.spec.flags.iter().find_map(|f| f.strip_prefix("closure_ret ")).unwrap_or("bool"))))
                    }
                    None if c.inputs.is_empty() || c.inputs.iter().any(|p| matches!(p, Pat::Wild(_))) => {
                        let pn: Vec<String> = c.inputs.iter().enumerate().map(|(i, p)| if let Pat::Wild(_) = p { format!("_vx{}", i) } else { f.text[p.span().byte_range()].to_string() }).collect();
                        Some(format!("{}|{}| {{ {} }}", mv, pn.join(", "), b))
                    }
                    None => None,
                }
            }
            Expr::Path(p) => {
                if let Some(id) = p.path.get_ident() {
                    let s = id.to_string();
                    if s.len() > 1 && s.chars().all(|c| c.is_uppercase() || c == '_' || c.is_numeric()) && !self.g.items.contains(&s) {
                        for it in &f.ast.items {
                            if let Item::Const(c) = it { if c.ident == s && !is_test(&c.attrs) {
                                let e = self.expr(&c.expr);
                                let t = self.ty(&c.ty);
                                self.g.note(&format!("constant {} replaced by its defining expression", s));
                                return Some(format!("({{ let __c: {} = {}; __c }})", t, e));
                            } }
                        }
                    }
                }
                None
            }
            _ => None,
        }
    }

    /// the elements of an array literal, evaluated in order into fresh variables
    fn hoist(&mut self, a: &ExprArray) -> (String, Vec<String>) {
        let (mut o, mut ns) = (String::new(), vec![]);
        for e in &a.elems { self.fresh += 1; let n = format!("__u{}", self.fresh); let e = self.expr(e); o += &format!("let {} = {}; ", n, e); ns.push(n); }
        (o, ns)
    }
    // what `e` iterates over, if that is an Option
    fn opt_source(&mut self, e: &Expr) -> Option<String> {
        let mut method = String::new();
        let mut base: &Expr = e;
        if let Expr::MethodCall(m) = e { if ["iter", "iter_mut", "into_iter"].contains(&m.method.to_string().as_str()) { method = m.method.to_string(); base = &m.receiver; } }
        if !self.is_opt(base) { return None; }
        Some(match (method.as_str(), base) {
            ("iter_mut", _) => format!("&mut {}", self.expr(base)),
            ("iter", Expr::MethodCall(m)) if m.method == "as_ref" || m.method == "as_mut" => self.expr(base),
            ("iter", _) => format!("&{}", self.expr(base)),
            _ => self.expr(base),
        })
    }
    fn for_each(&mut self, recv: &Expr, c: &ExprClosure) -> String {
        let f = self.f.clone();
        if let Some(src) = self.opt_source(recv) {
            self.g.note("Option iterator for_each desugared to if let");
            let pat = strip_pat(&f.text, &c.inputs[0]);
            let b = self.body_of_closure(c);
            return format!("if let Some({}) = {} {{ {}; }}", pat, src, b);
        }
        self.g.note("iterator for_each(closure) desugared to a for loop");
        let iter = self.expr(recv);
        let pat = strip_pat(&f.text, &c.inputs[0]);
        let simple = { let mut p = &c.inputs[0]; loop { match p { Pat::Reference(r) => p = &r.pat, Pat::Type(t) => p = &t.pat, _ => break } } matches!(p, Pat::Ident(_)) };
        let (it, ls) = self.next_loop(&pat, "for", acc_of(&c.body));
        let b = self.body_of_closure(c);
        self.for_text(&pat, simple, &iter, &format!("{};", b), &it, &ls)
    }

    fn macro_(&mut self, m: &Macro) -> Option<String> {
        let name = m.path.segments.last()?.ident.to_string();
        let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
        match name.as_str() {
            "format" => {
                let args = args.ok()?;
                let lit = if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &args[0] { s.value() } else { return None };
                self.g.note("format!(\"{}..\") of displayable strings desugared to concatenation");
                let mut out: Option<String> = None;
                let mut ai = 1;
                let mut cur = String::new();
                let mut pieces = vec![];
                let mut ch = lit.chars().peekable();
                while let Some(c) = ch.next() {
                    if c == '{' {
                        if ch.peek() == Some(&'{') { ch.next(); cur.push('{'); continue; }
                        let mut nm = String::new();
                        while let Some(d) = ch.next() { if d == '}' { break; } nm.push(d); }
                        if !cur.is_empty() { pieces.push(format!("vx_lit({:?})", cur)); cur.clear(); }
                        if nm.is_empty() { if ai >= args.len() { return None; } let a = self.expr(&args[ai]); pieces.push(format!("vx_disp(&{})", a)); ai += 1; }
                        else if nm.chars().all(|c| c.is_alphanumeric() || c == '_') { pieces.push(format!("vx_disp(&{})", nm)); }
                        else { return None; }
                    } else if c == '}' { if ch.peek() == Some(&'}') { ch.next(); } cur.push('}'); }
                    else { cur.push(c); }
                }
                if !cur.is_empty() { pieces.push(format!("vx_lit({:?})", cur)); }
                for p in pieces { out = Some(match out { None => p, Some(o) => format!("vx_cat({}, {})", o, p) }); }
                Some(out.unwrap_or("vx_lit(\"\")".into()))
            }
            "vec" => {
                let args = args.ok()?;
                let v: Vec<String> = args.iter().map(|a| self.expr(a)).collect();
                Some(format!("vec![{}]", v.join(", ")))
            }
            "info" | "warn" | "error" | "debug" | "trace" | "println" | "eprintln" => { self.g.note("logging macro dropped"); Some("vx_log()".into()) }
            "debug_assert" | "assert" => { let args = args.ok()?; let a = self.expr(&args[0]); self.g.note("assert!/debug_assert! turned into a proof obligation"); Some(format!("vx_assert({})", a)) }
            "debug_assert_eq" | "assert_eq" => { let args = args.ok()?; let a = self.expr(&args[0]); let b = self.expr(&args[1]); self.g.note("assert_eq! turned into a proof obligation"); Some(format!("vx_assert({} == {})", a, b)) }
            _ => None,
        }
    }

    /// A helper that is new to the tree and belongs to another type or file is inlined as well, if its name is unique.
    fn inline_new(&mut self, name: &str, ty: Option<&str>, args: &[&Expr], recv: Option<&Expr>) -> Option<String> {
        if (match ty { Some(t) => in_base(t, name), None => BASE_FNS.lines().any(|l| l.rsplit("::").next() == Some(name)) }) || self.g.unit.known(name) || self.inline_stack.iter().any(|s| s == name) || self.inline_stack.len() > 4 { return None; }
        let mut found: Vec<(Rc<SrcFile>, Option<String>, Signature, Block)> = vec![];
        for path in self.g.sources() {
            let f = match self.g.file(&path) { Some(f) => f, None => continue };
            for it in &f.ast.items {
                match it {
                    Item::Impl(im) if im.trait_.is_none() && !is_test(&im.attrs) => {
                        let t = type_name(&im.self_ty);
                        if ty.map_or(false, |x| x != t) { continue; }
                        for ii in &im.items { if let ImplItem::Fn(x) = ii { if x.sig.ident == name { found.push((f.clone(), Some(t.clone()), x.sig.clone(), x.block.clone())); } } }
                    }
                    Item::Trait(tr) if recv.is_some() => { for ii in &tr.items { if let TraitItem::Fn(x) = ii { if x.sig.ident == name { if let Some(b) = &x.default { found.push((f.clone(), None, x.sig.clone(), b.clone())); } else { return None; } } } } }
                    Item::Fn(x) if recv.is_none() && ty.is_none() && !is_test(&x.attrs) && x.sig.ident == name => found.push((f.clone(), None, x.sig.clone(), (*x.block).clone())),
                    _ => {}
                }
            }
        }
        if found.len() != 1 { return None; }
        let (f, owner, sig, block) = found.pop().unwrap();
        let mut h = HasReturn(false);
        h.visit_block(&block);
        if h.0 { return None; }
        let mut names = vec![]; let mut tys = vec![]; let mut by_ref = None;
        for inp in &sig.inputs {
            match inp {
                FnArg::Receiver(r) => { if recv.is_none() { return None; } by_ref = Some(match (&r.reference, &r.mutability) { (None, _) => "", (_, None) => "&", _ => "&mut " }); }
                FnArg::Typed(t) => { names.push(f.text[rng(t.pat.span())].to_string()); tys.push((*t.ty).clone()); }
            }
        }
        if names.len() != args.len() || recv.is_some() != by_ref.is_some() { return None; }
        let avals: Vec<String> = args.iter().map(|a| self.expr(a)).collect();
        let k = self.inline_stack.len();
        let mut s = String::from("({ ");
        let place = recv.map(|r| { let t = self.expr(r); if is_place(r) { t } else { s.push_str(&format!("let __s{} = {};\n", k, t)); format!("__s{}", k) } });
        let (old_f, old_ty) = (std::mem::replace(&mut self.f, f), self.self_ty.clone());
        if let Some(o) = &owner { self.self_ty = o.clone(); }
        self.inline_stack.push(name.to_string());
        let mut body = self.inner(&block);
        let ts: Vec<String> = tys.iter().map(|t| self.ty(t)).collect();
        self.inline_stack.pop();
        self.f = old_f; self.self_ty = old_ty;
        self.g.note(&format!("{}: helper `{}` (not under contract) inlined at its call", self.key, name));
        self.g.inlined.push(name.to_string());
        let generic = !sig.generics.params.is_empty();
        let own = |t: String| match &owner { Some(o) => replace_word(&t, "Self", |_| o.clone()), None => t };
        for (i, a) in avals.iter().enumerate() { let t = own(ts[i].clone()); if generic || t.contains("impl ") { s.push_str(&format!("let __b{}_{} = {};\n", k, i, a)); } else { s.push_str(&format!("let __b{}_{}: {} = {};\n", k, i, t, a)); } }
        for (i, n) in names.iter().enumerate() { s.push_str(&format!("let {} = __b{}_{};\n", n, k, i)); }
        body = own(body);
        if let Some(p) = place {
            let r = by_ref.unwrap();
            if p != "self" { body = replace_word(&body, "self", |rest| if r.is_empty() || rest.trim_start().starts_with('.') { p.clone() } else { format!("({}{})", r, p) }); }
        }
        s.push_str(&body);
        s.push_str(" })");
        Some(s)
    }
    /// A helper the specification does not know (e.g. a freshly extracted one) is inlined at its call.
    fn try_inline(&mut self, name: &str, args: &[&Expr], method: bool) -> Option<String> {
        if self.g.unit.known(name) || self.inline_stack.iter().any(|s| s == name) || self.inline_stack.len() > 4 { return None; }
        let f = self.f.clone();
        let mut found: Option<(&Signature, &Block)> = None;
        for it in &f.ast.items {
            match it {
                Item::Impl(im) if im.trait_.is_none() && !is_test(&im.attrs) => {
                    if type_name(&im.self_ty) != self.self_ty { continue; }
                    for ii in &im.items { if let ImplItem::Fn(x) = ii { if x.sig.ident == name { found = Some((&x.sig, &x.block)); } } }
                }
                Item::Fn(x) if !method && !is_test(&x.attrs) && x.sig.ident == name => found = Some((&x.sig, &x.block)),
                _ => {}
            }
        }
        let (sig, block) = found?;
        let mut h = HasReturn(false);
        h.visit_block(block);
        if h.0 { return None; }
        let mut names = vec![]; let mut tys = vec![]; let mut by_value = None;
        for inp in &sig.inputs {
            match inp {
                FnArg::Receiver(r) => { if !method { return None; } if r.reference.is_none() { by_value = Some(r.mutability.is_some()); } }
                FnArg::Typed(t) => { names.push(f.text[rng(t.pat.span())].to_string()); tys.push(&*t.ty); }
            }
        }
        if names.len() != args.len() { return None; }
        let avals: Vec<String> = args.iter().map(|a| self.expr(a)).collect();
        self.inline_stack.push(name.to_string());
        let ms = self.mut_self;
        if by_value.is_some() { self.mut_self = false; }
        let mut body = self.inner(block);
        self.mut_self = ms;
        self.inline_stack.pop();
        self.g.note(&format!("{}: helper `{}` (not under contract) inlined at its call", self.key, name));
        self.g.inlined.push(name.to_string());
        let generic = !sig.generics.params.is_empty();
        let mut s = String::from("({ ");
        if let Some(m) = by_value {
            let v = format!("__o{}", self.inline_stack.len());
            s.push_str(&format!("let {}{} = {};\n", if m { "mut " } else { "" }, v, if ms { "vx_self" } else { "self" }));
            body = replace_word(&body, "self", |_| v.clone());
        }
        if names.len() == 1 {
            let t = self.ty(tys[0]);
            if generic || t.contains("impl ") { s.push_str(&format!("let {} = {};\n", names[0], avals[0])); } else { s.push_str(&format!("let {}: {} = {};\n", names[0], t, avals[0])); }
        } else if names.len() > 1 {
            // evaluate all arguments before binding any parameter name
            for (i, a) in avals.iter().enumerate() {
                let t = self.ty(tys[i]);
                if generic || t.contains("impl ") { s.push_str(&format!("let __a{}_{} = {};\n", self.inline_stack.len(), i, a)); } else { s.push_str(&format!("let __a{}_{}: {} = {};\n", self.inline_stack.len(), i, t, a)); }
            }
            for (i, n) in names.iter().enumerate() { s.push_str(&format!("let {} = __a{}_{};\n", n, self.inline_stack.len(), i)); }
        }
        s.push_str(&body);
        s.push_str(" })");
        Some(s)
    }
}

const BASE_FNS: &str = include_str!("base_fns.txt");
/// was there a function of that name on that type (free: "") when the contracts were written?
pub fn in_base(ty: &str, name: &str) -> bool { let n = format!("{}::{}", ty, name); BASE_FNS.lines().any(|l| l == n) }
/// a path or a chain of fields
fn is_place(e: &Expr) -> bool { match e { Expr::Path(_) => true, Expr::Field(f) => is_place(&f.base), Expr::Paren(p) => is_place(&p.expr), _ => false } }
/// replace a whole word; the closure sees what follows it
fn replace_word(t: &str, w: &str, by: impl Fn(&str) -> String) -> String {
    let id = |c: char| c.is_alphanumeric() || c == '_';
    let (mut o, mut i) = (String::new(), 0);
    while let Some(p) = t[i..].find(w) {
        let (a, b) = (i + p, i + p + w.len());
        let whole = !t[..a].chars().next_back().map_or(false, |c| id(c) || c == '\'') && !t[b..].chars().next().map_or(false, id);
        o.push_str(&t[i..a]);
        if whole { o.push_str(&by(&t[b..])); } else { o.push_str(w); }
        i = b;
    }
    o.push_str(&t[i..]);
    o
}

pub fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => format!("&{}", type_name(&r.elem)),
        _ => nts(t),
    }
}

fn trait_matches(p: &Path, want: &str) -> bool {
    let last = p.segments.last().unwrap();
    if want.contains('<') { nts(last) == want } else { last.ident == want }
}

impl<'u> Gen<'u> {
    fn r(&mut self, f: Rc<SrcFile>, spec: FnSpec, key: String, self_ty: String) -> R<'_, 'u> {
        let n = spec.substs.len();
        R { g: self, f, spec, key, self_ty, loop_idx: 0, flagvar: None, clos_idx: 0, fresh: 0, brk: vec![], inline_stack: vec![], params: vec![], opt_params: vec![], pre_body: String::new(), used_substs: vec![false; n], mut_self: false, lets: vec![], iflets: vec![], fl: vec![], index: vec![] }
    }
    fn line(&self, f: &SrcFile, off: usize) -> usize { match f.line_off.binary_search(&off) { Ok(i) => i + 1, Err(i) => i } }

    pub fn item(&mut self, file: &str, kind: &str, name: &str, attrs: &[String], _inner: &[(String, String)]) {
        let f = match self.file(file) { Some(f) => f, None => { self.lose(format!("{}: cannot be read or parsed", file)); return; } };
        let fa = f.clone();
        let found = fa.ast.items.iter().find(|it| match it {
            Item::Struct(s) => kind == "struct" && s.ident == name && !is_test(&s.attrs),
            Item::Enum(s) => kind == "enum" && s.ident == name && !is_test(&s.attrs),
            Item::Const(s) => kind == "const" && s.ident == name && !is_test(&s.attrs),
            _ => false,
        });
        let it = match found { Some(x) => x, None => { self.lose(format!("{}: {} {} not found", file, kind, name)); return; } };
        self.items.push(name.to_string());
        let key = format!("{} {}", kind, name);
        let mut out = String::new();
        for a in attrs { out.push_str(a); out.push('\n'); }
        let mut r = self.r(f.clone(), FnSpec::default(), key.clone(), name.to_string());
        let s = match it {
            Item::Struct(st) => {
                let g = r.render(&st.generics, |c| c.visit_generics(&st.generics));
                let g = if st.generics.params.is_empty() { String::new() } else { g };
                let wh = st.generics.where_clause.as_ref().map(|w| r.render(w, |c| c.visit_where_clause(w))).unwrap_or_default();
                match &st.fields {
                    Fields::Named(n) => {
                        let mut b = String::new();
                        for fl in &n.named { let t = r.ty(&fl.ty); b.push_str(&format!("    pub {}: {},\n", fl.ident.as_ref().unwrap(), t)); }
                        format!("pub struct {}{} {} {{\n{}}}", st.ident, g, wh, b)
                    }
                    Fields::Unnamed(n) => {
                        let v: Vec<String> = n.unnamed.iter().map(|fl| format!("pub {}", r.ty(&fl.ty))).collect();
                        format!("pub struct {}{}({}) {};", st.ident, g, v.join(", "), wh)
                    }
                    Fields::Unit => format!("pub struct {}{};", st.ident, g),
                }
            }
            Item::Enum(en) => {
                let g = if en.generics.params.is_empty() { String::new() } else { r.render(&en.generics, |c| c.visit_generics(&en.generics)) };
                let mut b = String::new();
                for v in &en.variants {
                    b.push_str(&format!("    {}", v.ident));
                    match &v.fields {
                        Fields::Named(n) => { let x: Vec<String> = n.named.iter().map(|fl| format!("{}: {}", fl.ident.as_ref().unwrap(), r.ty(&fl.ty))).collect(); b.push_str(&format!(" {{ {} }}", x.join(", "))); }
                        Fields::Unnamed(n) => { let x: Vec<String> = n.unnamed.iter().map(|fl| r.ty(&fl.ty)).collect(); b.push_str(&format!("({})", x.join(", "))); }
                        Fields::Unit => {}
                    }
                    b.push_str(",\n");
                }
                format!("pub enum {}{} {{\n{}}}", en.ident, g, b)
            }
            Item::Const(c) => { let mut t = r.ty(&c.ty); if t.starts_with("&") && !t.starts_with("&'") { t = format!("&'static {}", t[1..].trim_start()); } let e = r.expr(&c.expr); format!("pub const {}: {} = {};", c.ident, t, e) }
            _ => unreachable!(),
        };
        out.push_str(&s);
        let ln = self.line(&f, rng(it.span()).start);
        self.out.push_str(&format!("//@@BEGIN {} @ {}:{}\n{}\n//@@END\n", key, file, ln, out));
    }

    fn sig_text(r: &mut R<'_, 'u>, sig: &Signature, sp: &FnSpec) -> String {
        let f = r.f.clone();
        for i in &sig.inputs { if let FnArg::Typed(t) = i {
            let nm = match &*t.pat { Pat::Ident(i) if i.subpat.is_none() => i.ident.to_string(), _ => format!("__p{}", r.params.len()) };
            if !matches!(&*t.pat, Pat::Ident(_) | Pat::Wild(_)) { let src = f.text[rng(t.pat.span())].to_string(); r.pre_body.push_str(&format!("let {} = {};\n", src, nm)); }
            if nts(&t.ty).starts_with("Option <") { r.opt_params.push(nm.clone()); }
            r.params.push(nm);
        } }
        let sigm = |k: &str| sp.sig.iter().find(|x| x.0 == k).map(|x| x.1.clone());
        let g = if let Some(x) = sigm("generics") { x } else if sig.generics.params.is_empty() { String::new() } else { r.render(&sig.generics, |c| c.visit_generics(&sig.generics)) };
        // generics span excludes the where clause
        let mut ins = vec![];
        let mut pi = 0;
        for i in &sig.inputs {
            match i {
                FnArg::Receiver(rc) if rc.reference.is_none() && rc.mutability.is_some() && sigm("self").is_none() => { r.mut_self = true; r.pre_body.push_str("let mut vx_self = self;\n"); ins.push("self".to_string()) }
                FnArg::Receiver(rc) => ins.push(sigm("self").unwrap_or_else(|| f.text[rng(rc.span())].to_string())),
                FnArg::Typed(t) => {
                    let n = nts(&t.ty);
                    let ty = if let Some(x) = sigm(&n) { x } else { r.ty(&t.ty) };
                    let pt = match &*t.pat { Pat::Ident(i) if i.subpat.is_none() => f.text[rng(t.pat.span())].to_string(), _ => r.params[pi].clone() };
                    pi += 1;
                    ins.push(format!("{}: {}", pt, ty));
                }
            }
        }
        let ret = match &sig.output {
            ReturnType::Default => String::new(),
            ReturnType::Type(_, t) => { let n = nts(&**t); let ty = if let Some(x) = sigm(&format!("-> {}", n)).or_else(|| sigm("ret")) { x } else { r.ty(t) }; format!(" -> ({}: {})", sp.ret, ty) }
        };
        let wh = if let Some(x) = sigm("where") { x } else { sig.generics.where_clause.as_ref().map(|w| r.render(w, |c| c.visit_where_clause(w))).unwrap_or_default() };
        format!("fn {}{}({}){}\n{}", sig.ident, g, ins.join(", "), ret, if wh.is_empty() { String::new() } else { format!("    {}\n", wh.trim_end_matches(',').to_string() + ",") })
    }

    fn emit_fn(&mut self, f: &Rc<SrcFile>, key: &str, self_ty: &str, vis: &str, sig: &Signature, block: Option<&Block>, sp: &FnSpec) {
        let ln = self.line(f, rng(sig.span()).start);
        let vacuity = self.vacuity;
        let elsewhere = block.is_some() && !sp.owner.is_empty() && !sp.owner.iter().any(|o| self.props.contains(o));
        let forced = elsewhere || self.assume.iter().any(|k| k == key);
        let mut r = self.r(f.clone(), sp.clone(), key.to_string(), self_ty.to_string());
        let head = Self::sig_text(&mut r, sig, sp);
        let spec = r.fill(&sp.spec);
        let mut out = String::new();
        let assumed = sp.assumed || (block.is_some() && forced);
        if assumed { out.push_str("#[verifier::external_body]\n"); }
        for a in &sp.attrs { out.push_str(a); out.push('\n'); }
        out.push_str(if sp.flags.iter().any(|x| x == "pub") { "pub " } else { vis });
        out.push_str(&head);
        out.push_str(&spec);
        let mut nloops = 0;
        match block {
            None => out.push(';'),
            Some(_) if assumed => out.push_str("{ unimplemented!() }"),
            Some(b) => {
                { let mut v = Lets(vec![], vec![], vec![]); syn::visit::Visit::visit_block(&mut v, b); r.lets = v.0; r.iflets = v.1; r.iflets.extend(v.2);
                    // names in substitution targets
                    for i in 0..r.spec.substs.len() { let t = r.spec.substs[i].0.replace("$ ", "$").replace(" ~ ", "~"); if t.contains('$') { r.spec.substs[i].0 = crate::spec::norm(&r.fill(&t)); } }
                }
                if r.g.unit.floats.is_some() {
                    for i in &sig.inputs { if let FnArg::Typed(t) = i { if let (Pat::Ident(p), "f64") = (&*t.pat, nts(&t.ty).as_str()) { r.fl.push(p.ident.to_string()); } } }
                    loop {
                        let n = r.fl.len();
                        struct F<'x, 'g, 'u>(&'x mut R<'g, 'u>);
                        impl<'a, 'x, 'g, 'u> syn::visit::Visit<'a> for F<'x, 'g, 'u> {
                            fn visit_local(&mut self, l: &'a syn::Local) {
                                let (p, ty) = match &l.pat { Pat::Type(t) => (&*t.pat, nts(&t.ty)), p => (p, String::new()) };
                                if let Pat::Ident(i) = p { let i = i.ident.to_string(); if !self.0.fl.contains(&i) && (ty == "f64" || l.init.as_ref().map_or(false, |x| self.0.is_float(&x.expr))) { self.0.fl.push(i); } }
                                syn::visit::visit_local(self, l);
                            }
                        }
                        syn::visit::Visit::visit_block(&mut F(&mut r), b);
                        if r.fl.len() == n { break; }
                    }
                }
                let start = r.fill(&sp.start);
                let vac = if vacuity { r.vac("fn") } else { String::new() };
                let body = r.fn_body(b, matches!(sig.output, ReturnType::Default));
                nloops = r.loop_idx;
                out.push_str("{\n"); out.push_str(&r.g.unit.fnstart); out.push_str(&vac); let pb = r.pre_body.clone(); out.push_str(&pb); out.push_str(&start); out.push_str(&body); out.push_str("\n}");
            }
        }
        let unused: Vec<String> = sp.substs.iter().zip(r.used_substs.iter()).filter(|(s, u)| !**u && ["proof", "assert", "host"].iter().any(|k| s.1.contains(k))).map(|(s, _)| s.0.clone()).collect();
        let maxloop = sp.loops.iter().map(|x| x.0 + 1).max().unwrap_or(0);
        if block.is_some() && !assumed {
            if !sp.flags.iter().any(|x| x == "substs_optional") { for u in unused { self.lose(format!("{}: substitution target `{}` not found", key, u)); } }
            if maxloop > nloops && !sp.flags.iter().any(|x| x == "loops_optional") { self.lose(format!("{}: expected {} loops, found {}", key, maxloop, nloops)); }
        }
        self.fns.push(serde_json::json!({"key": key, "file": f.path, "line": ln, "assumed": assumed, "proved_in": if elsewhere { sp.owner.clone() } else { vec![] }, "decl": block.is_none(), "loops": nloops}));
        self.out.push_str(&format!("//@@BEGIN {} @ {}:{}\n{}\n//@@END\n", key, f.path, ln, out));
    }

    pub fn impl_block(&mut self, b: &crate::spec::Block) {
        let f = match self.file(&b.file) { Some(f) => f, None => { self.lose(format!("{}: cannot be read or parsed", b.file)); return; } };
        let fa = f.clone();
        let impls: Vec<&ItemImpl> = fa.ast.items.iter().filter_map(|i| if let Item::Impl(im) = i { if is_test(&im.attrs) { return None; } Some(im) } else { None })
            .filter(|im| type_name(&im.self_ty) == b.ty || nts(&im.self_ty) == norm(&b.ty))
            .filter(|im| match (&im.trait_, &b.tr) { (None, None) => true, (Some((_, p, _)), Some(w)) => trait_matches(p, w), _ => false }).collect();
        if impls.is_empty() { self.lose(format!("{}: impl {} {} not found", b.file, b.ty, b.tr.clone().unwrap_or_default())); return; }
        let mut done = vec![];
        let mut first = true;
        let tyname = b.ty.split('<').next().unwrap().trim().to_string();
        for im in impls {
            let mine: Vec<&FnSpec> = b.fns.iter().filter(|s| !done.contains(&s.name) && im.items.iter().any(|i| matches!(i, ImplItem::Fn(x) if x.sig.ident == s.name.as_str()))).collect();
            if mine.is_empty() && !(first && (!b.add.is_empty() || b.tr.is_some())) { continue; }
            // header
            let header = if let Some(h) = &b.header { h.clone() } else {
                let mut r = self.r(f.clone(), FnSpec::default(), format!("impl {}", b.ty), tyname.clone());
                let g = if im.generics.params.is_empty() { String::new() } else { r.render(&im.generics, |c| c.visit_generics(&im.generics)) };
                let t = im.trait_.as_ref().map(|(_, p, _)| format!("{} for ", r.render(p, |c| c.visit_path(p)))).unwrap_or_default();
                let ty = r.ty(&im.self_ty);
                let wh = im.generics.where_clause.as_ref().map(|w| r.render(w, |c| c.visit_where_clause(w))).unwrap_or_default();
                format!("impl{} {}{}\n{}", g, t, ty, wh)
            };
            for a in &b.attrs { self.out.push_str(a); self.out.push('\n'); }
            self.out.push_str(&header); self.out.push_str("\n{\n");
            for i in &im.items { if let ImplItem::Type(t) = i { if b.types && b.header.as_ref().map(|h| h.contains(" for ")).unwrap_or(true) {
                let mut r = self.r(f.clone(), FnSpec::default(), "type".into(), tyname.clone());
                let ty = r.ty(&t.ty);
                self.out.push_str(&format!("type {} = {};\n", t.ident, ty));
            } } }
            if first { self.out.push_str(&b.add); }
            first = false;
            for sp in mine {
                done.push(sp.name.clone());
                let x = im.items.iter().find_map(|i| match i { ImplItem::Fn(x) if x.sig.ident == sp.name.as_str() => Some(x), _ => None }).unwrap();
                let key = match &b.tr { Some(t) => format!("<{} as {}>::{}", b.ty, t, sp.name), None => format!("{}::{}", b.ty, sp.name) };
                let vis = if b.tr.is_some() { "" } else { "pub " };
                self.emit_fn(&f, &key, &tyname, vis, &x.sig, Some(&x.block), sp);
            }
            self.out.push_str("}\n");
        }
        for s in &b.fns { if !done.contains(&s.name) && !s.optional { self.lose(format!("{}: fn {}::{} not found", b.file, b.ty, s.name)); } }
    }

    pub fn trait_block(&mut self, b: &crate::spec::Block) {
        let f = match self.file(&b.file) { Some(f) => f, None => { self.lose(format!("{}: cannot be read or parsed", b.file)); return; } };
        let fa = f.clone();
        let t = match fa.ast.items.iter().find_map(|i| match i { Item::Trait(t) if t.ident == b.ty.as_str() => Some(t), _ => None }) { Some(t) => t, None => { self.lose(format!("{}: trait {} not found", b.file, b.ty)); return; } };
        let header = b.header.clone().unwrap_or_else(|| {
            let mut r = self.r(f.clone(), FnSpec::default(), format!("trait {}", b.ty), b.ty.clone());
            let g = if t.generics.params.is_empty() { String::new() } else { r.render(&t.generics, |c| c.visit_generics(&t.generics)) };
            let sup = if t.supertraits.is_empty() { String::new() } else { format!(": {}", t.supertraits.iter().map(|x| nts(x)).collect::<Vec<_>>().join(" + ")) };
            format!("pub trait {}{}{}", t.ident, g, sup)
        });
        for a in &b.attrs { self.out.push_str(a); self.out.push('\n'); }
        self.out.push_str(&header); self.out.push_str("\n{\n");
        for i in &t.items { if let TraitItem::Type(ty) = i {
            if b.types { let s = f.text[rng(ty.span())].to_string(); self.out.push_str(&s); self.out.push('\n'); }
        } }
        self.out.push_str(&b.add);
        for sp in &b.fns {
            let x = t.items.iter().find_map(|i| match i { TraitItem::Fn(x) if x.sig.ident == sp.name.as_str() => Some(x), _ => None });
            match x {
                None => self.lose(format!("{}: trait fn {}::{} not found", b.file, b.ty, sp.name)),
                Some(x) => {
                    let key = format!("{}::{}", b.ty, sp.name);
                    let body = if sp.flags.iter().any(|f| f == "decl") { None } else { x.default.as_ref() };
                    self.emit_fn(&f, &key, &b.ty, "", &x.sig, body, sp);
                }
            }
        }
        self.out.push_str("}\n");
    }

    pub fn free_fn(&mut self, file: &str, sp: &FnSpec) {
        let f = match self.file(file) { Some(f) => f, None => { self.lose(format!("{}: cannot be read or parsed", file)); return; } };
        let fa = f.clone();
        match fa.ast.items.iter().find_map(|i| match i { Item::Fn(x) if x.sig.ident == sp.name.as_str() && !is_test(&x.attrs) => Some(x), _ => None }) {
            None => self.lose(format!("{}: fn {} not found", file, sp.name)),
            Some(x) => self.emit_fn(&f, &sp.name.clone(), "", "pub ", &x.sig, Some(&x.block), sp),
        }
    }
}

/// a pattern that is itself an expression only matches expressions of the same kind
fn same_shape(pat: &str, e: &Expr) -> bool {
    match syn::parse_str::<Expr>(pat) { Ok(p) => std::mem::discriminant(&p) == std::mem::discriminant(e), Err(_) => true }
}
/// matches a normalised pattern with metavariables `__a` (standing for whole expressions) against a normalised expression
fn pat_match(pat: &str, text: &str) -> Option<Vec<(String, String)>> {
    let Some(p) = pat.find("__").filter(|p| pat[p + 2..].starts_with(|c: char| c.is_ascii_lowercase())) else { return if pat == text { Some(vec![]) } else { None } };
    if !text.starts_with(&pat[..p]) { return None; }
    let e = p + 2 + pat[p + 2..].find(|c: char| !c.is_ascii_lowercase()).unwrap_or(pat.len() - p - 2);
    let (name, rest) = (&pat[p..e], &pat[e..]);
    let t = &text[p..];
    for n in 1..=t.len() {
        if !t.is_char_boundary(n) { continue; }
        if let Some(mut c) = pat_match(rest, &t[n..]) {
            if syn::parse_str::<Expr>(&t[..n]).is_ok() { c.push((name.to_string(), t[..n].trim().to_string())); return Some(c); }
        }
    }
    None
}

/// names bound by `let` in a function, in source order; true for `let mut`
/// a struct of the file has an f64 field of this name
fn float_field(items: &[Item], n: &str) -> bool {
    items.iter().any(|i| if let Item::Struct(s) = i { s.fields.iter().any(|f| f.ident.as_ref().map_or(false, |i| i == n) && { let t = nts(&f.ty); t == "f64" || t.starts_with("[f64 ;") || t.starts_with("[f64;") }) } else { false })
}
struct Lets(Vec<(String, bool)>, Vec<String>, Vec<String>);
impl<'a> syn::visit::Visit<'a> for Lets {
    fn visit_local(&mut self, l: &'a syn::Local) {
        let p = match &l.pat { Pat::Type(t) => &*t.pat, p => p };
        if let Pat::Ident(i) = p { self.0.push((i.ident.to_string(), i.mutability.is_some())); }
        syn::visit::visit_local(self, l);
    }
    fn visit_expr_let(&mut self, l: &'a syn::ExprLet) {
        struct P<'x>(&'x mut Vec<String>);
        impl<'a, 'x> syn::visit::Visit<'a> for P<'x> { fn visit_pat_ident(&mut self, p: &'a PatIdent) { if p.ident.to_string().chars().next().map_or(false, |c| c.is_lowercase()) { self.0.push(p.ident.to_string()); } } }
        P(&mut self.1).visit_pat(&l.pat);
        syn::visit::visit_expr_let(self, l);
    }
    /// what match arms bind, after all that is bound by if-lets
    fn visit_arm(&mut self, a: &'a syn::Arm) {
        struct P<'x>(&'x mut Vec<String>);
        impl<'a, 'x> syn::visit::Visit<'a> for P<'x> { fn visit_pat_ident(&mut self, p: &'a PatIdent) { if p.ident.to_string().chars().next().map_or(false, |c| c.is_lowercase()) { self.0.push(p.ident.to_string()); } } }
        P(&mut self.2).visit_pat(&a.pat);
        syn::visit::visit_arm(self, a);
    }
}
/// `$m2~name`: the binding of that name if the function still has it, otherwise the one with that index
fn place(s: &str, tag: &str, names: &[String]) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(p) = rest.find(tag) {
        let a = &rest[p + tag.len()..];
        let d = a.find(|c: char| !c.is_ascii_digit()).unwrap_or(a.len());
        if d == 0 { out.push_str(&rest[..p + tag.len()]); rest = a; continue; }
        let mut e = d;
        let mut name = None;
        if a[d..].starts_with('~') {
            let b = &a[d + 1..];
            let n = b.find(|c: char| !(c.is_alphanumeric() || c == '_')).unwrap_or(b.len());
            name = Some(b[..n].to_string());
            e = d + 1 + n;
        }
        out.push_str(&rest[..p]);
        match (name.filter(|n| names.contains(n)), a[..d].parse::<usize>().ok().and_then(|i| names.get(i))) {
            (Some(n), _) => out.push_str(&n),
            (None, Some(n)) => out.push_str(n),
            _ => out.push_str(&rest[p..p + tag.len() + e]),
        }
        rest = &a[e..];
    }
    out.push_str(rest);
    out
}

/// does the body of a loop leave it with `break value`?
fn breaks_with_value(b: &Block) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_break(&mut self, b: &'a ExprBreak) { if b.expr.is_some() && b.label.is_none() { self.0 = true; } }
        fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

/// an array literal that is iterated over: the array, and whether by reference
fn array_loop(e: &Expr) -> Option<(&ExprArray, bool)> {
    fn arr(e: &Expr) -> Option<&ExprArray> { match e { Expr::Array(a) if a.elems.len() <= 16 => Some(a), Expr::Paren(p) => arr(&p.expr), _ => None } }
    match e {
        Expr::Paren(p) => array_loop(&p.expr),
        Expr::Reference(r) if r.mutability.is_none() => arr(&r.expr).map(|a| (a, true)),
        Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => arr(&m.receiver).map(|a| (a, true)),
        Expr::Array(_) => arr(e).map(|a| (a, false)),
        _ => None,
    }
}
/// no loops, no closures, no break or continue
fn straight(b: &Block) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_break(&mut self, _: &'a ExprBreak) { self.0 = false; }
        fn visit_expr_continue(&mut self, _: &'a ExprContinue) { self.0 = false; }
        fn visit_expr_loop(&mut self, _: &'a ExprLoop) { self.0 = false; }
        fn visit_expr_while(&mut self, _: &'a ExprWhile) { self.0 = false; }
        fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) { self.0 = false; }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) { self.0 = false; }
    }
    let mut v = V(true);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

/// the name a pattern binds, if that is all it does
fn binder(p: &Pat) -> Option<String> {
    let mut p = p;
    loop { match p { Pat::Reference(r) => p = &r.pat, Pat::Type(t) => p = &t.pat, Pat::Paren(r) => p = &r.pat, _ => break } }
    if let Pat::Ident(i) = p { if i.subpat.is_none() { return Some(i.ident.to_string()); } }
    None
}
/// the variable a loop adds up in: the target of its first `+=`
struct Acc(Option<String>);
impl<'a> syn::visit::Visit<'a> for Acc {
    fn visit_expr_binary(&mut self, b: &'a ExprBinary) {
        if self.0.is_none() && matches!(b.op, BinOp::AddAssign(_)) { if let Expr::Path(p) = &*b.left { self.0 = p.path.get_ident().map(|i| i.to_string()); } }
        syn::visit::visit_expr_binary(self, b);
    }
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        if self.0.is_none() && m.method == "combine_with" { if let Expr::Path(p) = &*m.receiver { self.0 = p.path.get_ident().map(|i| i.to_string()); } }
        syn::visit::visit_expr_method_call(self, m);
    }
}
/// or the Vec it fills
struct Fills(Option<String>);
impl<'a> syn::visit::Visit<'a> for Fills {
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        if self.0.is_none() && m.method == "push" { if let Expr::Path(p) = &*m.receiver { self.0 = p.path.get_ident().map(|i| i.to_string()); } }
        syn::visit::visit_expr_method_call(self, m);
    }
}
/// the variable a loop sets when it finds something, and whether it then stops
fn flag_of_block(b: &Block) -> Option<(String, bool)> {
    struct V(Option<String>, bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
            let hit = match &*a.right { Expr::Lit(l) => matches!(&l.lit, Lit::Bool(b) if b.value), Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Some")), Expr::Binary(b) => matches!(b.op, BinOp::Or(_)), _ => false };
            if let (true, Expr::Path(p)) = (hit, &*a.left) { self.0 = self.0.take().or(p.path.get_ident().map(|i| i.to_string())); }
        }
        fn visit_expr_binary(&mut self, b: &'a ExprBinary) {
            if let (BinOp::BitOrAssign(_), Expr::Path(p)) = (&b.op, &*b.left) { self.0 = self.0.take().or(p.path.get_ident().map(|i| i.to_string())); }
            syn::visit::visit_expr_binary(self, b);
        }
        fn visit_expr_break(&mut self, _: &'a ExprBreak) { self.1 = true; }
    }
    let mut v = V(None, false);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0.map(|x| (x, v.1))
}
fn acc_of(e: &Expr) -> Option<String> { let mut a = Acc(None); syn::visit::Visit::visit_expr(&mut a, e); a.0.or_else(|| { let mut a = Fills(None); syn::visit::Visit::visit_expr(&mut a, e); a.0 }) }
fn acc_of_block(b: &Block) -> Option<String> { let mut a = Acc(None); syn::visit::Visit::visit_block(&mut a, b); a.0.or_else(|| { let mut a = Fills(None); syn::visit::Visit::visit_block(&mut a, b); a.0 }) }
/// `for i in 0..v.len() { .. v[i] .. }` where i is only used to index v and v only in `v[i]`
fn index_loop(l: &ExprForLoop) -> Option<(&Expr, String)> {
    let Expr::Range(r) = &*l.expr else { return None };
    if !matches!(r.limits, RangeLimits::HalfOpen(_)) || r.start.as_ref().map(|s| nts(&**s)) != Some("0".to_string()) { return None; }
    let Some(Expr::MethodCall(m)) = r.end.as_deref() else { return None };
    if m.method != "len" || !m.args.is_empty() { return None; }
    let i = binder(&l.pat)?;
    struct U<'x> { v: String, i: &'x str, ok: bool, n: usize }
    impl<'a, 'x> syn::visit::Visit<'a> for U<'x> {
        fn visit_expr(&mut self, e: &'a Expr) {
            if let Expr::Index(ix) = e { if nts(&ix.expr) == self.v && nts(&ix.index) == self.i { self.n += 1; return; } }
            if nts(e) == self.v { self.ok = false; }
            syn::visit::visit_expr(self, e);
        }
        fn visit_ident(&mut self, x: &'a Ident) { if x == self.i { self.ok = false; } }
        fn visit_macro(&mut self, m: &'a Macro) { if m.tokens.to_string().contains(self.i) { self.ok = false; } }
    }
    let mut u = U { v: nts(&m.receiver), i: &i, ok: true, n: 0 };
    syn::visit::Visit::visit_block(&mut u, &l.body);
    if u.ok && u.n > 0 { Some((&m.receiver, i)) } else { None }
}
