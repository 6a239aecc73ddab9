//! Source-level normalisation before extraction: early exits (`continue` in loops, `return` in helpers that get
//! inlined) become `else` branches, `while let Some(x) = it.next()` over a fresh iterator becomes a `for` loop.
//! Every step replaces a piece of text by an equivalent one and re-parses.
use quote::ToTokens;
use std::ops::Range;
use syn::spanned::Spanned;
use syn::visit::Visit;
use syn::*;

type Edits = Vec<(Range<usize>, String)>;
fn rng<T: Spanned>(t: &T) -> Range<usize> { t.span().byte_range() }

#[derive(Clone, Copy, PartialEq)]
enum Exit { Continue, Return, ReturnUnit }

struct N<'a> { text: &'a str, ast: &'a File, ty: Option<String>, known: &'a dyn Fn(&str) -> bool, edits: Option<(Edits, &'static str)> }

fn has_label_or_inner(e: Exit, b: &Block) -> bool {
    // is there an exit of this kind anywhere in the block (not inside nested loops/closures as appropriate)?
    struct H(Exit, bool);
    impl<'a> Visit<'a> for H {
        fn visit_expr_continue(&mut self, c: &'a ExprContinue) { if self.0 == Exit::Continue && c.label.is_none() { self.1 = true; } }
        fn visit_expr_return(&mut self, r: &'a ExprReturn) { if self.0 != Exit::Continue { self.1 = true; } syn::visit::visit_expr_return(self, r); }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        fn visit_expr_for_loop(&mut self, l: &'a ExprForLoop) { if self.0 != Exit::Continue { syn::visit::visit_expr_for_loop(self, l) } }
        fn visit_expr_while(&mut self, l: &'a ExprWhile) { if self.0 != Exit::Continue { syn::visit::visit_expr_while(self, l) } }
        fn visit_expr_loop(&mut self, l: &'a ExprLoop) { if self.0 != Exit::Continue { syn::visit::visit_expr_loop(self, l) } }
        fn visit_item(&mut self, _: &'a Item) {}
    }
    let mut h = H(e, false);
    h.visit_block(b);
    h.1
}
fn is_exit(k: Exit, e: &Expr) -> bool {
    match (k, e) {
        (Exit::Continue, Expr::Continue(c)) => c.label.is_none(),
        (Exit::Return, Expr::Return(r)) => r.expr.is_some(),
        (Exit::ReturnUnit, Expr::Return(r)) => r.expr.is_none(),
        _ => false,
    }
}
fn ends_in_exit(k: Exit, b: &Block) -> bool { matches!(b.stmts.last(), Some(Stmt::Expr(e, _)) if is_exit(k, e)) }
fn expr_exits(k: Exit, e: &Expr) -> bool { is_exit(k, e) || matches!(e, Expr::Block(b) if b.label.is_none() && ends_in_exit(k, &b.block)) }
/// an if / else if chain without final else, every branch of which leaves
fn chain_leaves(k: Exit, f: &ExprIf) -> bool { ends_in_exit(k, &f.then_branch) && match &f.else_branch { None => true, Some((_, x)) => matches!(&**x, Expr::If(i) if chain_leaves(k, i)) } }
fn names(p: &Pat) -> bool { matches!(p, Pat::Ident(i) if i.subpat.is_none()) }

impl<'a> N<'a> {
    fn t<T: Spanned>(&self, x: &T) -> &'a str { &self.text[rng(x)] }
    /// remove exits in tail position
    fn tail(&self, k: Exit, b: &Block) -> Option<Edits> {
        match b.stmts.last()? { Stmt::Expr(e, semi) => self.tail_expr(k, e, semi.as_ref().map(|s| s.span().byte_range())), _ => None }
    }
    fn tail_expr(&self, k: Exit, e: &Expr, semi: Option<Range<usize>>) -> Option<Edits> {
        if is_exit(k, e) {
            let r = rng(e);
            let end = semi.map_or(r.end, |s| s.end);
            let s = match e { Expr::Return(ExprReturn { expr: Some(x), .. }) => self.t(&**x).to_string(), _ => if r.start > 0 && end == r.end { "{}".to_string() } else { String::new() } };
            return Some(vec![(r.start..end, s)]);
        }
        if semi.is_some() && k == Exit::Return { return None; }
        match e {
            Expr::If(i) => self.tail(k, &i.then_branch).or_else(|| i.else_branch.as_ref().and_then(|(_, x)| self.tail_expr(k, x, None))),
            Expr::Match(m) => m.arms.iter().find_map(|a| self.tail_expr(k, &a.body, None)),
            Expr::Block(b) if b.label.is_none() => self.tail(k, &b.block),
            _ => None,
        }
    }
    fn block(&self, k: Exit, b: &Block) -> Option<(Edits, &'static str)> {
        if !has_label_or_inner(k, b) { return None; }
        let n = b.stmts.len();
        for (i, st) in b.stmts.iter().enumerate() {
            if i + 1 == n { break; }
            let rest = rng(&b.stmts[i + 1]).start..rng(&b.stmts[n - 1]).end;
            match st {
                Stmt::Expr(Expr::If(f), semi) => {
                    // the chain of else branches: all but one branch leave
                    let end = rng(f).end;
                    let end2 = semi.as_ref().map_or(end, |s| s.span().byte_range().end);
                    if chain_leaves(k, f) {
                        return Some((vec![(end..rest.start, " else { ".into()), (rest.end..rest.end, " }".into())], "early exit turned into an else branch"));
                    }
                    let _ = end2;
                    if let Some((_, x)) = &f.else_branch { if let Expr::Block(x) = &**x {
                        if ends_in_exit(k, &f.then_branch) && !ends_in_exit(k, &x.block) {
                            // if c { ..exit } else { a } rest  =>  if c { ..exit } else { a rest }
                            let close = rng(&x.block).end - 1;
                            return Some((vec![(close..rest.start, " ".into()), (rest.end..rest.end, " }".into())], "early exit turned into an else branch"));
                        }
                        if !ends_in_exit(k, &f.then_branch) && ends_in_exit(k, &x.block) {
                            let close = rng(&f.then_branch).end - 1;
                            let els = self.text[rng(&f.then_branch).end..rng(&x.block).end].to_string();
                            return Some((vec![(close..rest.start, " ".into()), (rest.end..rest.end, format!(" }} {}", els))], "early exit turned into an else branch"));
                        }
                    } }
                }
                Stmt::Local(l) => {
                    let Some(init) = &l.init else { continue };
                    if let Some((_, d)) = &init.diverge {
                        if expr_exits(k, d) {
                            let dv = self.t(&**d).to_string();
                            return Some((vec![(rng(l).start..rest.start, format!("if let {} = {} {{ ", self.t(&l.pat), self.t(&*init.expr))), (rest.end..rest.end, format!(" }} else {}", if dv.starts_with('{') { dv } else { format!("{{ {} }}", dv) }))], "let-else turned into if let"));
                        }
                    } else if let Expr::Match(m) = &*init.expr {
                        if m.arms.len() == 2 && m.arms.iter().all(|a| a.guard.is_none()) && names(match &l.pat { Pat::Type(t) => &t.pat, p => p }) {
                            let d: Vec<bool> = m.arms.iter().map(|a| expr_exits(k, &a.body)).collect();
                            if d[0] != d[1] {
                                let (go, out) = if d[0] { (1, 0) } else { (0, 1) };
                                let arm = &m.arms[go];
                                let o = &m.arms[out];
                                let a = format!("match {} {{ {} => {} , {} => {{ let {} = {}; ", self.t(&*m.expr), self.t(&o.pat), self.t(&*o.body), self.t(&arm.pat), self.t(&l.pat), self.t(&*arm.body));
                                // keep the order of the arms
                                return Some(if go == 1 { (vec![(rng(l).start..rest.start, a), (rest.end..rest.end, " } }".into())], "early exit in a match turned into an arm") }
                                else { (vec![(rng(l).start..rest.start, format!("match {} {{ {} => {{ let {} = {}; ", self.t(&*m.expr), self.t(&arm.pat), self.t(&l.pat), self.t(&*arm.body))), (rest.end..rest.end, format!(" }} {} => {} }}", self.t(&o.pat), self.t(&*o.body)))], "early exit in a match turned into an arm") });
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        if let Some(e) = self.tail(k, b) { return Some((e, "early exit in tail position removed")); }
        // descend into blocks in tail position
        match b.stmts.last() { Some(Stmt::Expr(e, _)) => self.inner(k, e), _ => None }
    }
    fn inner(&self, k: Exit, e: &Expr) -> Option<(Edits, &'static str)> {
        match e {
            Expr::If(i) => self.block(k, &i.then_branch).or_else(|| i.else_branch.as_ref().and_then(|(_, x)| self.inner(k, x))),
            Expr::Match(m) => m.arms.iter().find_map(|a| self.inner(k, &a.body)),
            Expr::Block(b) if b.label.is_none() => self.block(k, &b.block),
            _ => None,
        }
    }
    /// neighbouring arms for different variants of one enum of this file: in the order of the enum
    fn arms(&self, m: &ExprMatch) -> Option<(Edits, &'static str)> {
        let key = |a: &Arm| -> Option<(String, usize)> {
            if a.guard.is_some() || !a.attrs.is_empty() { return None; }
            let (mut p, mut w) = (&a.pat, String::new());
            loop { match p {
                Pat::Paren(x) => p = &x.pat,
                Pat::TupleStruct(t) if t.elems.len() == 1 && t.path.segments.len() == 1 => { w += &format!("{} ", t.path.segments[0].ident); p = &t.elems[0]; }
                _ => break,
            } }
            let path = match p { Pat::TupleStruct(t) => &t.path, Pat::Struct(t) => &t.path, Pat::Path(t) => &t.path, _ => return None };
            let n = path.segments.len();
            if n < 2 { return None; }
            let e = path.segments[n - 2].ident.to_string();
            let e = if e == "Self" { self.ty.clone()? } else { e };
            let it = self.ast.items.iter().find_map(|i| if let Item::Enum(x) = i { if x.ident == e { Some(x) } else { None } } else { None })?;
            Some((w + &e, it.variants.iter().position(|v| v.ident == path.segments[n - 1].ident)?))
        };
        let ks: Vec<_> = m.arms.iter().map(key).collect();
        let mut i = 0;
        while i < ks.len() {
            let Some((e, _)) = &ks[i] else { i += 1; continue };
            let mut j = i;
            while j < ks.len() && matches!(&ks[j], Some((x, _)) if x == e) { j += 1; }
            let v: Vec<usize> = ks[i..j].iter().map(|k| k.as_ref().unwrap().1).collect();
            let mut o: Vec<usize> = (0..v.len()).collect();
            o.sort_by_key(|x| v[*x]);
            let distinct = o.windows(2).all(|w| v[w[0]] != v[w[1]]);
            if distinct && !v.windows(2).all(|w| w[0] < w[1]) {
                let s: Vec<String> = o.iter().map(|x| { let a = &m.arms[i + x]; let t = format!("{} => {}", self.t(&a.pat), self.t(&*a.body)); if matches!(&*a.body, Expr::Block(_)) { t } else { t + "," } }).collect();
                let end = rng(&m.arms[j - 1]).end;
                return Some((vec![(rng(&m.arms[i]).start..end, s.join("\n"))], "arms of a match over variants put in the order of the enum"));
            }
            i = j;
        }
        None
    }
    /// a function that ends in a call of a helper new to the tree: the helper's body takes the place of the call
    fn flatten(&self, sig: &Signature, b: &Block, ty: Option<&str>) -> Option<(Edits, &'static str)> {
        let mut e = match b.stmts.last()? { Stmt::Expr(e, None) => e, Stmt::Expr(e, Some(_)) if matches!(sig.output, ReturnType::Default) => e, _ => return None };
        while let Expr::Paren(p) = e { e = &p.expr; }
        let (name, args, method): (String, Vec<&Expr>, bool) = match e {
            Expr::MethodCall(m) if matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self")) => (m.method.to_string(), m.args.iter().collect(), true),
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let own = segs.len() == 2 && (segs[0] == "Self" || Some(segs[0].as_str()) == ty);
                if !own && segs.len() != 1 { return None; }
                if own { (segs[1].clone(), c.args.iter().collect(), false) } else { (format!("::{}", segs[0]), c.args.iter().collect(), false) }
            }
            _ => return None,
        };
        let (free, name) = match name.strip_prefix("::") { Some(n) => (true, n.to_string()), None => (false, name) };
        if crate::render::in_base(if free { "" } else { ty.unwrap_or("") }, &name) || (self.known)(&name) || sig.ident == name { return None; }
        let mut found: Vec<(&Signature, &Block)> = vec![];
        for it in &self.ast.items { match it {
            Item::Impl(im) if !free && im.trait_.is_none() && !test(&im.attrs) && Some(tyname(&im.self_ty).as_str()) == ty => for ii in &im.items { if let ImplItem::Fn(x) = ii { if x.sig.ident == name { found.push((&x.sig, &x.block)) } } },
            Item::Fn(x) if free && !test(&x.attrs) && x.sig.ident == name => found.push((&x.sig, &x.block)),
            _ => {}
        } }
        if found.len() != 1 { return None; }
        let (hs, hb) = found[0];
        if matches!(sig.output, ReturnType::Default) != matches!(hs.output, ReturnType::Default) { return None; }
        if hb.to_token_stream().to_string().split_whitespace().any(|w| w == name) || hs.generics.params.len() != 0 { return None; }
        let mut ed: Edits = vec![];
        let mut names: Vec<(String, bool, String)> = vec![];
        for i in &hs.inputs { match i {
            FnArg::Receiver(r) => {
                if !method { return None; }
                let Some(FnArg::Receiver(mine)) = sig.inputs.first() else { return None };
                // by value only where this function has it by value
                if r.reference.is_none() { if mine.reference.is_some() { return None; } if r.mutability.is_some() && mine.mutability.is_none() { let g = rng(mine); ed.push((g.start..g.start, "mut ".into())); } }
                else if mine.reference.is_none() { return None; }
            }
            FnArg::Typed(t) => { let Pat::Ident(id) = &*t.pat else { return None }; if id.by_ref.is_some() || id.subpat.is_some() { return None; } let ty = self.t(&*t.ty).to_string(); names.push((id.ident.to_string(), id.mutability.is_some(), if ty.contains("impl ") { String::new() } else { format!(": {}", ty) })); }
        } }
        if method && !matches!(hs.inputs.first(), Some(FnArg::Receiver(_))) || names.len() != args.len() { return None; }
        let mut o = String::new();
        // arguments that go by another name; all of them are evaluated before any of the names is bound
        let other: Vec<usize> = (0..args.len()).filter(|i| names[*i].1 || self.t(args[*i]) != names[*i].0).collect();
        if other.len() == 1 { let i = other[0]; o += &format!("let {}{}{} = {}; ", if names[i].1 { "mut " } else { "" }, names[i].0, names[i].2, self.t(args[i])); }
        else {
            for &i in &other { o += &format!("let vx_a{}{} = {}; ", i, names[i].2, self.t(args[i])); }
            for &i in &other { o += &format!("let {}{} = vx_a{}; ", if names[i].1 { "mut " } else { "" }, names[i].0, i); }
        }
        let body = self.t(hb).trim();
        o += &body[1..body.len() - 1];
        let last = rng(b.stmts.last()?);
        ed.push((last, o));
        Some((ed, "helper new to the tree, called at the end of a function, takes the place of the call"))
    }
    fn set(&mut self, e: Option<(Edits, &'static str)>) { if self.edits.is_none() { self.edits = e; } }
    fn func(&mut self, sig: &Signature, block: &Block, ty: Option<&str>) {
        let e = self.flatten(sig, block, ty);
        self.set(e);
        // `return x;` at the very end is `x`
        if let (Some(Stmt::Expr(Expr::Return(ExprReturn { expr: Some(x), .. }), _)), ReturnType::Type(..)) = (block.stmts.last(), &sig.output) {
            let e = Some((vec![(rng(block.stmts.last().unwrap()), self.t(&**x).to_string())], "return at the end of a function removed"));
            self.set(e);
        }
        if !(self.known)(&sig.ident.to_string()) {
            let k = if matches!(sig.output, ReturnType::Default) { Exit::ReturnUnit } else { Exit::Return };
            let e = self.block(k, block);
            self.set(e);
        }
    }
}
fn tyname(t: &Type) -> String { match t { Type::Path(p) => p.path.segments.last().map_or(String::new(), |s| s.ident.to_string()), _ => String::new() } }
fn test(attrs: &[Attribute]) -> bool { attrs.iter().any(|a| a.to_token_stream().to_string().contains("test")) }
impl<'a, 'b> Visit<'b> for N<'a> {
    fn visit_item_mod(&mut self, m: &'b ItemMod) { if !test(&m.attrs) { syn::visit::visit_item_mod(self, m) } }
    fn visit_item_impl(&mut self, i: &'b ItemImpl) { if test(&i.attrs) { return; } let old = self.ty.replace(tyname(&i.self_ty)); syn::visit::visit_item_impl(self, i); self.ty = old; }
    fn visit_item_fn(&mut self, f: &'b ItemFn) { if test(&f.attrs) { return; } self.func(&f.sig, &f.block, None); syn::visit::visit_item_fn(self, f) }
    fn visit_impl_item_fn(&mut self, f: &'b ImplItemFn) { if test(&f.attrs) { return; } let ty = self.ty.clone(); self.func(&f.sig, &f.block, ty.as_deref()); syn::visit::visit_impl_item_fn(self, f) }
    fn visit_trait_item_fn(&mut self, f: &'b TraitItemFn) { if let Some(b) = &f.default { self.func(&f.sig, b, None) } syn::visit::visit_trait_item_fn(self, f) }
    fn visit_expr_for_loop(&mut self, l: &'b ExprForLoop) { if l.label.is_none() { let e = self.block(Exit::Continue, &l.body); self.set(e); } syn::visit::visit_expr_for_loop(self, l) }
    fn visit_expr_while(&mut self, l: &'b ExprWhile) { if l.label.is_none() { let e = self.block(Exit::Continue, &l.body); self.set(e); } syn::visit::visit_expr_while(self, l) }
    fn visit_expr_method_call(&mut self, m: &'b ExprMethodCall) {
        if m.method == "for_each" { if let Some(Expr::Closure(c)) = m.args.first() { if let Expr::Block(b) = &*c.body { let e = self.block(Exit::ReturnUnit, &b.block); self.set(e); } } }
        syn::visit::visit_expr_method_call(self, m)
    }
    fn visit_expr_match(&mut self, m: &'b ExprMatch) { let e = self.arms(m); self.set(e); syn::visit::visit_expr_match(self, m) }
    fn visit_block(&mut self, b: &'b Block) {
        // let mut it = V.iter(); while let Some(p) = it.next() { .. }
        for w in b.stmts.windows(2) {
            if let (Stmt::Local(l), Stmt::Expr(Expr::While(wh), _)) = (&w[0], &w[1]) {
                let (Pat::Ident(id), Some(init)) = (&l.pat, &l.init) else { continue };
                if init.diverge.is_some() || wh.label.is_some() { continue; }
                let Expr::Let(lt) = &*wh.cond else { continue };
                let nx = lt.expr.to_token_stream().to_string();
                if nx != format!("{} . next ()", id.ident) { continue; }
                let Expr::MethodCall(mc) = &*init.expr else { continue };
                if !["iter", "iter_mut", "into_iter"].contains(&mc.method.to_string().as_str()) { continue; }
                let Pat::TupleStruct(ts) = &*lt.pat else { continue };
                if ts.elems.len() != 1 || ts.path.to_token_stream().to_string() != "Some" { continue; }
                // the iterator is used nowhere else
                let count = b.to_token_stream().to_string().split_whitespace().filter(|t| *t == id.ident.to_string()).count();
                if count != 2 { continue; }
                self.set(Some((vec![(rng(l).start..rng(&*wh).start, String::new()), (rng(&*wh).start..rng(&wh.body).start, format!("for {} in {} ", self.t(&ts.elems[0]), self.t(&*init.expr)))], "while let over a fresh iterator turned into a for loop")));
            }
        }
        // let r = &mut E; r
        if let [.., Stmt::Local(l), Stmt::Expr(Expr::Path(p), None)] = &b.stmts[..] {
            if let (Pat::Ident(id), Some(init)) = (&l.pat, &l.init) {
                if p.path.is_ident(&id.ident) && id.by_ref.is_none() && id.mutability.is_none() && init.diverge.is_none() && init.expr.to_token_stream().to_string().contains("& mut ") {
                    self.set(Some((vec![(rng(l).start..rng(p).end, self.t(&*init.expr).to_string())], "binding of the returned reference removed")));
                }
            }
        }
        syn::visit::visit_block(self, b)
    }
}

pub fn normalise(text: &str, known: &dyn Fn(&str) -> bool) -> (String, Vec<&'static str>) {
    let mut cur = text.to_string();
    let mut notes = vec![];
    for _ in 0..1200 {
        let Ok(ast) = syn::parse_file(&cur) else { break };
        let mut n = N { text: &cur, ast: &ast, ty: None, known, edits: None };
        n.visit_file(&ast);
        let Some((mut e, what)) = n.edits else { break };
        e.sort_by_key(|x| (x.0.start, x.0.end));
        let mut out = String::new();
        let mut pos = 0;
        for (r, s) in e { if r.start < pos { continue; } out.push_str(&cur[pos..r.start]); out.push_str(&s); pos = r.end; }
        out.push_str(&cur[pos..]);
        if syn::parse_file(&out).is_err() || out == cur { break; }
        cur = out;
        notes.push(what);
    }
    (cur, notes)
}
