//! Trees as terms, and their html source.
use crate::json::J;
use crate::rng::Rng;
#[derive(Clone, Debug, PartialEq)]
pub struct Term {
    pub k: &'static str,
    pub t: String,
    pub a: Vec<(String, Option<String>)>,
    pub x: String,
    pub c: Vec<Term>,
}
pub const VOID: [&str; 14] = ["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr"];
pub const RAW: [&str; 4] = ["title", "textarea", "script", "style"];
impl Term {
    pub fn el(t: &str) -> Term { Term { k: "el", t: t.into(), a: vec![], x: String::new(), c: vec![] } }
    pub fn text(x: &str) -> Term { Term { k: "text", t: String::new(), a: vec![], x: x.into(), c: vec![] } }
    pub fn comment(x: &str) -> Term { Term { k: "comment", t: String::new(), a: vec![], x: x.into(), c: vec![] } }
    pub fn attr(mut self, n: &str, v: &str) -> Term { self.a.push((n.into(), Some(v.into()))); self }
    pub fn flag(mut self, n: &str) -> Term { self.a.push((n.into(), None)); self }
    pub fn kids(mut self, c: Vec<Term>) -> Term { self.c = c; self }
    pub fn raw(mut self, x: &str) -> Term { self.x = x.into(); self }
    pub fn json(&self) -> J {
        J::O(vec![
            ("k".into(), J::s(self.k)),
            ("t".into(), J::s(&self.t)),
            ("a".into(), attrs_json(&self.a)),
            ("x".into(), J::s(&self.x)),
            ("c".into(), J::A(self.c.iter().map(|t| t.json()).collect())),
        ])
    }
    /// html source; the concrete syntax is chosen by rng (None: the plainest)
    pub fn html(&self, rng: &mut Option<&mut Rng>, out: &mut String) {
        match self.k {
            "text" => out.push_str(&self.x),
            "other" => out.push_str("<!DOCTYPE html>"),
            "comment" => { out.push_str("<!--"); out.push_str(&self.x); out.push_str("-->"); }
            _ => {
                let tag = vary_case(&self.t, rng, 12);
                out.push('<');
                out.push_str(&tag);
                for (n, v) in &self.a {
                    out.push(' ');
                    if flip(rng, 12) { out.push_str(if flip(rng, 2) { "\n" } else { " " }); }
                    out.push_str(&vary_case(n, rng, 8));
                    if let Some(v) = v {
                        out.push('=');
                        let bare = !v.is_empty() && v.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_');
                        if bare && flip(rng, 3) { out.push_str(v); }
                        else if v.contains('"') || (!v.contains('\'') && flip(rng, 3)) { out.push('\''); out.push_str(v); out.push('\''); }
                        else { out.push('"'); out.push_str(v); out.push('"'); }
                    }
                }
                if VOID.contains(&self.t.as_str()) {
                    out.push_str(if flip(rng, 2) { " />" } else { ">" });
                    return;
                }
                out.push('>');
                if RAW.contains(&self.t.as_str()) { out.push_str(&self.x); }
                for c in &self.c { c.html(rng, out); }
                out.push_str("</");
                out.push_str(&tag);
                out.push('>');
            }
        }
    }
}
fn flip(rng: &mut Option<&mut Rng>, den: usize) -> bool { match rng { Some(r) => r.chance(1, den), None => false } }
fn vary_case(s: &str, rng: &mut Option<&mut Rng>, den: usize) -> String { if flip(rng, den) { s.to_ascii_uppercase() } else { s.to_string() } }
pub fn attrs_json(a: &[(String, Option<String>)]) -> J {
    J::A(a.iter().map(|(n, v)| J::A(vec![J::s(n), J::N(v.is_some() as i64), J::s(v.as_deref().unwrap_or(""))])).collect())
}
pub fn html_of(ts: &[Term], mut rng: Option<&mut Rng>) -> String {
    let mut s = String::new();
    for t in ts { t.html(&mut rng, &mut s); }
    s
}

pub fn from_json(j: &J) -> Term {
    let g = |k: &str| j.get(k).cloned().unwrap_or(J::Null);
    Term {
        k: match g("k").str() { "el" => "el", "text" => "text", "comment" => "comment", "root" => "root", _ => "other" },
        t: g("t").str().to_string(),
        a: g("a").arr().iter().map(|x| { let x = x.arr(); (x[0].str().to_string(), if x[1].num() == 1 { Some(x[2].str().to_string()) } else { None }) }).collect(),
        x: g("x").str().to_string(),
        c: g("c").arr().iter().map(from_json).collect(),
    }
}
