//! C12: JSON output represents the snapshot.
use crate::*;
use metrix::snapshot::*;

#[derive(Debug, Clone, PartialEq)]
enum J { Null, B(bool), N(String), S(String), A(Vec<J>), O(Vec<(String, J)>) }
/// A strict JSON parser, independent of the crate under test. Returns the value and the text without insignificant white space.
struct P<'a> { s: &'a [u8], i: usize, compact: String }
impl<'a> P<'a> {
    fn ws(&mut self) { while self.i < self.s.len() && b" \t\r\n".contains(&self.s[self.i]) { self.i += 1; } }
    fn tok(&mut self, c: u8) { must!(self.i < self.s.len() && self.s[self.i] == c, "not JSON at byte {}: expected {:?}", self.i, c as char); self.i += 1; self.compact.push(c as char); }
    fn val(&mut self) -> J {
        self.ws();
        must!(self.i < self.s.len(), "not JSON: ends early");
        match self.s[self.i] {
            b'{' => { self.tok(b'{'); let mut v = vec![]; self.ws(); if self.s.get(self.i) == Some(&b'}') { self.tok(b'}'); return J::O(v); }
                loop { self.ws(); let k = self.str_(); self.ws(); self.tok(b':'); let x = self.val(); v.push((k, x)); self.ws(); if self.s.get(self.i) == Some(&b',') { self.tok(b','); } else { self.tok(b'}'); return J::O(v); } } }
            b'[' => { self.tok(b'['); let mut v = vec![]; self.ws(); if self.s.get(self.i) == Some(&b']') { self.tok(b']'); return J::A(v); }
                loop { let x = self.val(); v.push(x); self.ws(); if self.s.get(self.i) == Some(&b',') { self.tok(b','); } else { self.tok(b']'); return J::A(v); } } }
            b'"' => J::S(self.str_()),
            b't' => self.word("true", J::B(true)), b'f' => self.word("false", J::B(false)), b'n' => self.word("null", J::Null),
            _ => { let a = self.i; while self.i < self.s.len() && b"+-.eE0123456789".contains(&self.s[self.i]) { self.i += 1; } let t = std::str::from_utf8(&self.s[a..self.i]).unwrap().to_string(); must!(!t.is_empty() && t.parse::<f64>().is_ok(), "not JSON at byte {}", a); self.compact.push_str(&t); J::N(t) }
        }
    }
    fn word(&mut self, w: &str, j: J) -> J { must!(self.s[self.i..].starts_with(w.as_bytes()), "not JSON at byte {}", self.i); self.i += w.len(); self.compact.push_str(w); j }
    fn str_(&mut self) -> String {
        let a = self.i;
        must!(self.s.get(self.i) == Some(&b'"'), "not JSON at byte {}: expected a string", self.i); self.i += 1;
        let mut o: Vec<u8> = vec![];
        loop {
            must!(self.i < self.s.len(), "not JSON: unterminated string");
            let b = self.s[self.i]; self.i += 1;
            match b {
                b'"' => break,
                b'\\' => { let e = self.s[self.i]; self.i += 1; match e { b'n' => o.push(10), b't' => o.push(9), b'r' => o.push(13), b'b' => o.push(8), b'f' => o.push(12), b'u' => {
                    let h = |p: &mut Self| { let v = u32::from_str_radix(std::str::from_utf8(&p.s[p.i..p.i + 4]).unwrap(), 16).unwrap(); p.i += 4; v };
                    let mut v = h(self); if (0xd800..0xdc00).contains(&v) { self.i += 2; let w = h(self); v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00); }
                    let mut bf = [0; 4]; o.extend(char::from_u32(v).unwrap().encode_utf8(&mut bf).bytes()); }, x => o.push(x) } }
                x => { must!(x >= 32, "not JSON: control character in string"); o.push(x) }
            }
        }
        let raw = std::str::from_utf8(&self.s[a..self.i]).unwrap().to_string(); self.compact.push_str(&raw);
        String::from_utf8(o).unwrap()
    }
}
fn parse(t: &str) -> (J, String) { let mut p = P { s: t.as_bytes(), i: 0, compact: String::new() }; let j = p.val(); p.ws(); must!(p.i == t.len(), "not JSON: trailing text"); (j, p.compact) }

fn text(r: &mut Rng) -> String { let n = r.usize(5); (0..n).map(|_| *r.pick(&['a', 'b', 'x', '"', '\\', '\n', '\t', '/', 'é', '漢', '𝄞', '\u{1}', '\u{7f}', '\u{2028}', ' ', '{', ':', '\u{8}', '\u{c}', '\r'])).collect() }
fn tree(r: &mut Rng, depth: usize) -> Snapshot {
    let n = r.usize(6);
    let mut s = Snapshot::default();
    for _ in 0..n {
        let name = if r.chance(60) { r.pick(&["a", "b", "c", "count", "", "x/y"]).to_string() } else { text(r) };
        let v = match r.below(if depth > 0 { 9 } else { 6 }) { 0 => ItemKind::UInt(r.u64b()), 1 => ItemKind::Int(r.i64b()), 2 | 3 => ItemKind::Boolean(r.bool()), 4 => { let f = r.f64b(); ItemKind::Float(if f.is_finite() { f } else { 0.25 }) }, 5 => ItemKind::Text(text(r)), _ => ItemKind::Snapshot(tree(r, depth - 1)) };
        s.items.push((name, v));
    }
    s
}
fn check(s: &Snapshot, j: &J, ints: bool, at: &str) {
    let o = match j { J::O(o) => o, x => panic!("{}: not an object: {:?}", at, x) };
    let mut keys: Vec<&String> = vec![];
    for (k, _) in &s.items { if !keys.contains(&k) { keys.push(k); } }
    must_eq!(o.iter().map(|x| &x.0).collect::<Vec<_>>(), keys, "keys of {}", at);
    for (k, v) in o {
        // of several items with one name the last is shown
        let it = &s.items.iter().rev().find(|x| &x.0 == k).unwrap().1;
        let ok = match (it, v) {
            (ItemKind::Text(t), J::S(x)) => t == x,
            (ItemKind::Boolean(b), J::B(x)) => !ints && b == x,
            (ItemKind::Boolean(b), J::N(x)) => ints && x == if *b { "1" } else { "0" },
            (ItemKind::UInt(n), J::N(x)) => x.parse::<u64>() == Ok(*n),
            (ItemKind::Int(n), J::N(x)) => x.parse::<i64>() == Ok(*n),
            (ItemKind::Float(n), J::N(x)) => x.parse::<f64>().unwrap() == *n,
            (ItemKind::Snapshot(t), x) => { check(t, x, ints, &format!("{}/{}", at, k)); true }
            _ => false,
        };
        must!(ok, "{}/{}: {:?} rendered as {:?}", at, k, it, v);
    }
}
fn json(c: &mut Case) {
    let s = tree(&mut c.rng, 3);
    let ints = c.rng.bool();
    let indent = c.rng.below(6) as u16;
    c.log(format!("{:?} booleans as ints: {}, indent {}", s, ints, indent));
    let flat = s.to_json(&JsonConfig { make_booleans_ints: ints, pretty: None });
    let (j, compact) = parse(&flat);
    must_eq!(flat, compact, "compact output has no white space");
    check(&s, &j, ints, "");
    let (_, pc) = parse(&s.to_json(&JsonConfig { make_booleans_ints: ints, pretty: Some(indent) }));
    must_eq!(pc, compact, "pretty printing changes only white space");
    if !ints { must_eq!(s.to_default_json(), flat, "default json"); }
}
pub const CONTRACTS: &[Contract] = &[("json", json)];
