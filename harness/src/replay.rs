//! Behaviours of the specification, and recorded events, run on the real code.
use crate::ep::*;
use crate::json::J;
use crate::rng::Rng;
use crate::sel;
use crate::term;
use std::sync::Arc;

fn fields(j: &J) -> Fields { if let J::O(v) = j { v.clone() } else { vec![] } }
fn get(e: &Fields, k: &str) -> Option<J> { e.iter().find(|x| x.0 == k).map(|x| x.1.clone()) }

/// {docs, hist, ask}: load the documents, make the changes, ask the questions
pub fn behaviour(p: &str, line: &str, r: Rng, sh: Arc<Shared>) {
    let j = J::parse(line);
    let judge = crate::profiles::judge(p);
    let mut e = Ep::new(r, sh, judge, crate::sel::MIXED);
    for (i, d) in j.get("docs").map_or(&[][..], |d| d.arr()).iter().enumerate() {
        let ts: Vec<term::Term> = d.arr().iter().map(term::from_json).collect();
        if p == "C27" { e.load(ts, i == 0); } else { e.quiet(|e| e.load(ts, i == 0)); }
        if e.dead { return; }
    }
    let setup = ["C19", "C21", "C22", "C23"].contains(&p);
    let hist = j.get("hist").map_or(&[][..], |d| d.arr());
    for (i, o) in hist.iter().enumerate() {
        let ev = op(&mut e, o, if setup || i + 1 < hist.len() { "any" } else { judge });
        e.go(ev);
        if e.dead { return; }
    }
    for o in j.get("ask").map_or(&[][..], |d| d.arr()) {
        let ev = op(&mut e, o, judge);
        e.go(ev.clone());
        if judge == "pure" {
            e.extra = vec![f("again", J::N(1))];
            e.go(ev);
            e.extra = vec![];
        }
        if e.dead { return; }
    }
}
/// the event for an operation of the specification: what it leaves open is the concrete syntax
fn op(e: &mut Ep, o: &J, judge: &str) -> Fields {
    let mut v = fields(o);
    v.insert(1.min(v.len()), f("j", J::s(judge)));
    for (k, s) in [("q", "str"), ("f", "fstr")] {
        if let (Some(q), None) = (get(&v, k), get(&v, s)) {
            let q = sel::from_json(&q);
            let t = sel::render(&q, &mut e.r);
            v.push(f(s, J::S(t)));
        }
    }
    if get(&v, "rev").is_some() {
        let b = e.r.coin();
        for x in v.iter_mut() { if x.0 == "rev" { x.1 = J::B(b); } }
    }
    v
}
/// recorded events: the same calls once more
pub fn again(text: &str, sh: Arc<Shared>) {
    const IN: [&str; 34] = ["no", "op", "j", "fresh", "str", "soup", "ts", "s", "s2", "q", "f", "fstr", "inc", "a", "b2", "kind", "ra", "rb", "x", "y", "c", "nm", "via", "lim", "from", "pos", "rev", "h", "bad", "again", "want", "frag", "lvl", "how"];
    let mut e = Ep::new(Rng::new(1, 1, 1), sh, "full", crate::sel::MIXED);
    for l in text.lines() {
        let v = fields(&J::parse(l));
        let op = get(&v, "op").map_or(String::new(), |x| x.str().to_string());
        let ev: Fields = v.into_iter().filter(|(k, _)| IN.contains(&k.as_str())
            && !(k == "ts" && !["load", "set_html"].contains(&op.as_str()) && !op.starts_with("t_"))
            && !(k == "b2" && op != "slice")).collect();
        if op == "load" && get(&ev, "fresh") == Some(J::B(true)) { e.dead = false; }
        e.go(ev);
    }
}
