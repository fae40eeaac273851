//! An episode: a world, the operations on it, and the trace of what they did.
use crate::docs::{self, Style};
use crate::json::J;
use crate::rng::Rng;
use crate::sel::{self, Cfg, Sel, Vocab};
use crate::term::{html_of, Term, RAW};
use crate::world::*;
use rphtml::config::ParseOptions;
use rphtml::parser::{Doc, RefNode};
use std::cell::RefCell;
use std::fs::File;
use std::io::{Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use visdom::types::{BoxDynText, IAttrValue, IFormValue};

pub type Fields = Vec<(String, J)>;
pub fn f(k: &str, v: J) -> (String, J) { (k.to_string(), v) }

/// where a trace goes; shared with the watchdog
pub struct Sink { pub out: File, pub pending_file: File, pub events: usize, pub text: Option<String> }
pub struct Shared { pub sink: Mutex<Sink>, pub pending: Mutex<String>, pub tick: AtomicU64, pub busy: AtomicU64 }
impl Shared {
    pub fn new(path: &str) -> Arc<Shared> {
        Arc::new(Shared {
            sink: Mutex::new(Sink { out: File::create(path).unwrap(), pending_file: File::create(format!("{}.pending", path)).unwrap(), events: 0, text: None }),
            pending: Mutex::new(String::new()),
            tick: AtomicU64::new(0),
            busy: AtomicU64::new(0),
        })
    }
    pub fn line(&self, s: &str) {
        let mut k = self.sink.lock().unwrap_or_else(|e| e.into_inner());
        k.events += 1;
        if let Some(t) = &mut k.text { t.push_str(s); t.push('\n'); return; }
        k.out.write_all(s.as_bytes()).unwrap();
        k.out.write_all(b"\n").unwrap();
    }
    pub fn begin(&self, s: &str) {
        *self.pending.lock().unwrap_or_else(|e| e.into_inner()) = s.to_string();
        let mut k = self.sink.lock().unwrap_or_else(|e| e.into_inner());
        if k.text.is_none() {
            k.pending_file.seek(SeekFrom::Start(0)).unwrap();
            k.pending_file.set_len(0).unwrap();
            k.pending_file.write_all(s.as_bytes()).unwrap();
        }
        self.tick.fetch_add(1, Ordering::SeqCst);
        self.busy.store(1, Ordering::SeqCst);
    }
    pub fn end(&self) {
        self.busy.store(0, Ordering::SeqCst);
        let k = self.sink.lock().unwrap_or_else(|e| e.into_inner());
        if k.text.is_none() { k.pending_file.set_len(0).unwrap(); }
    }
}

thread_local! { pub static PANIC: RefCell<String> = RefCell::new(String::new()); }

pub struct Ep {
    pub r: Rng,
    pub w: World,
    pub v: Vocab,
    pub sh: Arc<Shared>,
    pub dead: bool,
    pub judge: &'static str,
    pub sel: Cfg,
    pub held: Vec<(Els, Vec<usize>)>,
    pub extra: Fields,
    /// the root that the last load gave, 0 if none
    pub root_was: usize,
    /// which of the ways of loading
    pub how: usize,
    /// prefer the trees that are not in a document
    pub loose: bool,
}

pub fn obj(fields: &Fields) -> String { let mut s = String::new(); J::O(fields.clone()).write(&mut s); s }

pub fn attr_j(v: &Option<IAttrValue>) -> J {
    match v {
        None => J::A(vec![]),
        Some(IAttrValue::True) => J::A(vec![J::N(0), J::s("")]),
        Some(IAttrValue::Value(s, _)) => J::A(vec![J::N(1), J::s(s)]),
    }
}
pub fn form_j(v: IFormValue) -> J {
    match v {
        IFormValue::Single(s) => J::A(vec![J::s("one"), J::S(s)]),
        IFormValue::Multiple(v) => { let mut o = vec![J::s("many")]; o.extend(v.into_iter().map(J::S)); J::A(o) }
    }
}
pub fn options() -> ParseOptions {
    ParseOptions { auto_fix_unclosed_tag: true, auto_fix_unexpected_endtag: true, auto_fix_unescaped_lt: true, allow_self_closing: true, allow_attr_key_starts_with_equal_sign: true, ..Default::default() }
}
/// what a piece of html denotes, by the parser alone
pub fn parse(html: &str) -> Vec<Term> {
    match Doc::parse(html, options()) {
        Ok(d) => { let root = d.get_root_node(); let t = term_of(&root); t.c }
        Err(_) => vec![Term { k: "other", t: "parse error".into(), a: vec![], x: String::new(), c: vec![] }],
    }
}
/// what the parser alone makes of html that is not well formed: refuses it, or reads it as some terms
pub fn said(ev: &mut Fields, html: &str) {
    let ok = Doc::parse(html, options()).is_ok();
    ev.push(f("no", J::B(!ok)));
    ev.push(f("ts", terms_j(&if ok { parse(html) } else { vec![] })));
}
pub fn terms_j(ts: &[Term]) -> J { J::A(ts.iter().map(|t| t.json()).collect()) }
pub fn text_node(t: &BoxDynText) -> RefNode { *t.clone_node().to_node().downcast::<RefNode>().expect("a node") }

impl Ep {
    pub fn new(r: Rng, sh: Arc<Shared>, judge: &'static str, sel: Cfg) -> Ep {
        Ep { r, w: World::default(), v: Vocab::default(), sh, dead: false, judge, sel, held: vec![], extra: vec![], root_was: 0, how: 0, loose: false }
    }
    /// do what an event says, and record it
    pub fn go(&mut self, ev: Fields) {
        let j = J::O(ev.clone());
        self.run(ev, |e| crate::call::call(e, &j));
    }
    /// run one operation and record it
    pub fn run<F: FnOnce(&mut Ep) -> Fields>(&mut self, mut ev: Fields, op: F) {
        if self.dead { return; }
        ev.extend(self.extra.clone());
        let text = obj(&ev);
        #[cfg(visdom_verif)]
        crate::locks::now(&text);
        self.sh.clone().begin(&text);
        let before = self.w.errs.get();
        PANIC.with(|p| p.borrow_mut().clear());
        let res = catch_unwind(AssertUnwindSafe(|| op(self)));
        let mut pan = String::new();
        match res {
            Ok(fields) => ev.extend(fields),
            Err(_) => {
                pan = PANIC.with(|p| p.borrow().clone());
                if pan.is_empty() { pan = "panic".into(); }
                self.dead = true;
            }
        }
        ev.push(f("err", J::n(self.w.errs.get() - before)));
        ev.push(f("pan", J::s(&pan)));
        let changed = match catch_unwind(AssertUnwindSafe(|| self.w.observe())) { Ok(c) => c, Err(_) => { self.dead = true; false } };
        let mut s = obj(&ev);
        if changed {
            s.pop();
            s.push_str(",\"d\":");
            s.push_str(&self.w.last);
            s.push('}');
        }
        // trees that grow without end (copies of copies) say nothing new
        if !self.w.sound() || self.w.nodes.len() > 220 { self.dead = true; }
        self.sh.end();
        self.sh.line(&s);
    }
    pub fn count(&self) -> usize { self.sh.sink.lock().unwrap_or_else(|e| e.into_inner()).events }
    /// through the set, or through each element
    fn level(&mut self, ev: &mut Fields) { let b = self.r.chance(1, 3); ev.push(f("lvl", J::N(b as i64))); }
    pub fn op(&self, name: &str) -> Fields { vec![f("op", J::s(name)), f("j", J::s(self.judge))] }

    // ------------------------------------------------------------ loading
    pub fn load(&mut self, ts: Vec<Term>, fresh: bool) -> usize {
        let html = if self.r.coin() { html_of(&ts, Some(&mut self.r)) } else { html_of(&ts, None) };
        self.load_html(html, Some(ts), fresh)
    }
    /// ts: what the html denotes; None for html that is not well formed
    pub fn load_html(&mut self, html: String, ts: Option<Vec<Term>>, fresh: bool) -> usize {
        let mut ev = self.op("load");
        ev.push(f("fresh", J::B(fresh)));
        ev.push(f("str", J::s(&html)));
        ev.push(f("soup", J::B(ts.is_none())));
        if ts.is_none() { said(&mut ev, &html); }
        if let Some(ts) = &ts {
            ev.push(f("ts", terms_j(ts)));
            let n = docs::vocab(ts);
            let v = &mut self.v;
            v.tags.extend(n.tags); v.ids.extend(n.ids); v.classes.extend(n.classes); v.attrs.extend(n.attrs); v.texts.extend(n.texts);
        }
        if self.how != 0 { ev.push(f("how", J::n(self.how))); }
        self.root_was = 0;
        self.go(ev);
        if self.root_was == 0 { self.dead = true; }
        self.root_was
    }
    pub fn doc(&mut self, s: Style) -> usize {
        let ts = docs::doc(&mut self.r, s);
        self.load(ts, true)
    }

    // ---------------------------------------------------------- choosing
    pub fn pick_top(&mut self) -> usize {
        let (a, b) = if self.loose { (1, 3) } else { (4, 5) };
        if self.r.chance(a, b) && !self.w.roots.is_empty() { return *self.r.pick(&self.w.roots.clone()); }
        let t: Vec<usize> = self.w.tops().into_iter().filter(|i| self.w.is_el(*i) || self.w.rec(*i).k == "root").collect();
        if t.is_empty() { self.w.roots[0] } else { *self.r.pick(&t) }
    }
    pub fn pick_els(&mut self, roots_too: bool) -> Vec<usize> {
        let top = self.pick_top();
        self.pick_under(top, roots_too)
    }
    pub fn pick_under(&mut self, top: usize, roots_too: bool) -> Vec<usize> {
        let els = self.w.els_under(top);
        if els.is_empty() { return if roots_too && self.w.rec(top).k == "root" { vec![top] } else { vec![] }; }
        match self.r.below(12) {
            0 if roots_too && self.w.rec(top).k == "root" => vec![top],
            0 | 1 | 2 => vec![*self.r.pick(&els)],
            3 => { let t = self.w.rec(*self.r.pick(&els)).t.clone(); els.into_iter().filter(|i| self.w.rec(*i).t == t).collect() }
            4 => els,
            5 => { let p = *self.r.pick(&els); let k: Vec<usize> = self.w.rec(p).c.iter().copied().filter(|i| self.w.is_el(*i)).collect(); if k.is_empty() { vec![p] } else { k } }
            6 => { let p = *self.r.pick(&els); self.w.els_under(p) }
            7 if self.r.chance(1, 4) => vec![],
            _ => { let n = if self.r.chance(1, 6) { 2 + self.r.below(els.len()) } else { 2 + self.r.below(4) }; let mut s: Vec<usize> = els.iter().copied().filter(|_| true).collect(); self.r.shuffle(&mut s); s.truncate(n); els.into_iter().filter(|i| s.contains(i)).collect() }
        }
    }
    /// a set of elements as the real type: built from handles, the loaded set itself, or one kept from an earlier query
    pub fn make(&mut self, ids: &[usize]) -> Els {
        if ids.len() == 1 {
            if let Some(i) = self.w.roots.iter().position(|r| *r == ids[0]) { return self.w.loaded[i].cloned(); }
            if let Some(x) = self.w.frags.iter().find(|x| x.0 == ids[0]) { return x.1.cloned(); }
        }
        if let Some((h, _)) = self.held.iter().find(|(_, v)| v == ids) { return h.cloned(); }
        self.w.set(ids)
    }
    /// run a query on the loaded set itself where that is what ids denote
    pub fn with_set<T>(&mut self, ids: &[usize], g: impl FnOnce(&Els) -> T) -> T {
        if ids.len() == 1 {
            if let Some(i) = self.w.roots.iter().position(|r| *r == ids[0]) { return g(&self.w.loaded[i]); }
            if let Some(x) = self.w.frags.iter().find(|x| x.0 == ids[0]) { return g(&x.1); }
        }
        if let Some(i) = self.held.iter().position(|(_, v)| v == ids) { return g(&self.held[i].0); }
        let s = self.w.set(ids);
        g(&s)
    }
    pub fn hold(&mut self, s: Els, ids: Vec<usize>) {
        if self.held.len() > 3 { self.held.remove(0); }
        self.held.push((s, ids));
    }
    /// a set to query: sometimes one kept from an earlier answer
    pub fn subject(&mut self) -> Vec<usize> {
        if !self.held.is_empty() && self.r.chance(1, 4) {
            let i = self.r.below(self.held.len());
            let ids = self.held[i].1.clone();
            if !ids.is_empty() {
                let top = self.w.top(ids[0]);
                let order: Vec<usize> = self.w.pre(top).into_iter().filter(|n| ids.contains(n)).collect();
                if order.len() == ids.len() { return ids; }
            }
        }
        let s = self.pick_els(true);
        self.mix(s)
    }
    /// a set in no particular order, as one held while the document changed
    fn mix(&mut self, mut s: Vec<usize>) -> Vec<usize> {
        if self.r.chance(1, 8) { self.r.shuffle(&mut s); }
        s
    }
    /// a set of elements proper: whether a document itself matches a selector is left open
    pub fn subject_els(&mut self) -> Vec<usize> { let s = self.subject(); s.into_iter().filter(|i| self.w.rec(*i).k != "root").collect() }
    pub fn selector(&mut self) -> (Sel, String) {
        let s = if self.r.chance(1, 3) { self.aimed() } else { sel::gen(&mut self.r, &self.v, &self.sel) };
        let t = sel::render(&s, &mut self.r);
        (s, t)
    }
    /// a selector that some element of the trees satisfies
    fn aimed(&mut self) -> Sel {
        let top = self.pick_top();
        let els = self.w.els_under(top);
        if els.is_empty() { return sel::gen(&mut self.r, &self.v, &self.sel); }
        let mut cur = if self.r.chance(1, 3) { els[els.len() - 1 - self.r.below(els.len().min(4))] } else { *self.r.pick(&els) };
        let mut comps = vec![sel::Comp { c: " ", m: self.features(cur) }];
        for _ in 0..self.r.below(self.sel.comps.max(1)) {
            let p = self.w.rec(cur).p;
            if p == 0 { break; }
            let els: Vec<usize> = self.w.rec(p).c.iter().copied().filter(|i| self.w.is_el(*i)).collect();
            let at = els.iter().position(|i| *i == cur).unwrap_or(0);
            let (comb, next) = match self.r.below(5) {
                0 if at > 0 => ("+", els[at - 1]),
                1 if at > 0 => ("~", els[self.r.below(at)]),
                2 | 3 => (">", p),
                _ => { let mut up = p; while self.r.coin() && self.w.is_el(self.w.rec(up).p) { up = self.w.rec(up).p; } (" ", up) }
            };
            if !self.w.is_el(next) { break; }
            comps[0].c = comb;
            let m = self.features(next);
            comps.insert(0, sel::Comp { c: " ", m });
            cur = next;
        }
        let mut s = vec![comps];
        if self.r.chance(1, 6) { s.extend(sel::gen(&mut self.r, &self.v, &self.sel)); for g in &mut s[1..] { g[0].c = " "; } }
        s
    }
    /// one or two things that are true of an element
    fn features(&mut self, x: usize) -> Vec<sel::Simple> {
        use sel::Simple;
        let rec = self.w.rec(x).clone();
        let w = self.sel.w;
        let mut all: Vec<(Simple, usize)> = vec![(Simple::Tag(rec.t.clone()), w[1] + 1), (Simple::Any, 1)];
        for (n, v) in &rec.a {
            let v = v.clone().unwrap_or_default();
            if n == "id" && sel::ident_ok(&v) { all.push((Simple::Id(v.clone()), w[2])); }
            if n == "class" { for c in v.split_ascii_whitespace() { if sel::ident_ok(c) { all.push((Simple::Class(c.to_string()), w[3])); } } }
            if n.starts_with('@') { continue; }
            all.push((Simple::Attr(n.clone(), "", String::new()), w[4]));
            if sel::safe_val(&v) == v { all.push((Simple::Attr(n.clone(), "=", v), w[4])); }
        }
        if rec.p != 0 {
            let sib: Vec<usize> = self.w.rec(rec.p).c.iter().copied().filter(|i| self.w.is_el(*i)).collect();
            let same: Vec<usize> = sib.iter().copied().filter(|i| self.w.rec(*i).t == rec.t).collect();
            let at = |v: &[usize]| v.iter().position(|i| *i == x).unwrap_or(0) as i64;
            let step = *self.r.pick(&[0, 0, 1, 2, -1, -2, 3]);
            let (a, b) = (at(&sib), at(&same));
            for (k, i) in [("nth-child", a), ("nth-last-child", sib.len() as i64 - 1 - a), ("nth-of-type", b), ("nth-last-of-type", same.len() as i64 - 1 - b)] { all.push((Simple::Nth(k, step, i + 1), w[5] / 4 + (w[5] % 4 > 0) as usize)); }
        }
        let ws: Vec<usize> = all.iter().map(|x| x.1).collect();
        let n = if self.r.chance(1, 3) { 2 } else { 1 };
        let mut m: Vec<Simple> = (0..n).map(|_| all[self.r.weighted(&ws)].0.clone()).collect();
        m.sort_by_key(|x| !matches!(x, Simple::Tag(_) | Simple::Any));
        if m.len() == 2 && matches!(m[1], Simple::Tag(_) | Simple::Any) { m.pop(); }
        m
    }
    fn sel_fields(&self, ev: &mut Fields, q: &Sel, s: &str) { ev.push(f("q", sel::sel_json(q))); ev.push(f("str", J::s(s))); }

    // ------------------------------------------------------------ queries
    pub fn q_find(&mut self) {
        let s = self.subject();
        let lead = self.sel.lead;
        self.sel.lead = 12;
        let (q, t) = self.selector();
        self.sel.lead = lead;
        self.ask_ids("find", s, q, t);
    }
    /// a method of a set that takes a selector
    pub fn ask_ids(&mut self, m: &'static str, s: Vec<usize>, q: Sel, t: String) {
        let mut ev = self.op(m);
        ev.push(f("s", J::ids(&s)));
        self.sel_fields(&mut ev, &q, &t);
        self.go(ev);
    }
    pub fn q_walk(&mut self) {
        const M: [&str; 8] = ["children", "prev", "prev_all", "next", "next_all", "siblings", "parent", "parents"];
        let m = *self.r.pick(&M);
        let s = self.subject();
        let (q, t) = if self.r.coin() { (vec![], String::new()) } else { self.selector() };
        self.ask_ids(m, s, q, t);
    }
    /// the neighbours of the children of one element, which is often the one with most of them
    pub fn q_around(&mut self) {
        let top = self.pick_top();
        let mut ps = self.w.els_under(top);
        ps.push(top);
        let kids = |e: &Ep, p: usize| -> Vec<usize> { e.w.rec(p).c.iter().copied().filter(|i| e.w.is_el(*i)).collect() };
        ps.retain(|p| kids(self, *p).len() > 1);
        if ps.is_empty() { return; }
        let p = if self.r.coin() { *self.r.pick(&ps) } else { *ps.iter().max_by_key(|p| self.w.rec(**p).c.len()).unwrap() };
        let k = kids(self, p);
        let s = match self.r.below(5) { 0 => k.clone(), 1 | 2 => vec![*k.last().unwrap()], 3 => vec![k[0]], _ => vec![*self.r.pick(&k)] };
        let m = *self.r.pick(&["prev", "prev_all", "next", "next_all", "siblings", "prev", "next"]);
        let (q, t) = if self.r.chance(3, 4) { (vec![], String::new()) } else { self.selector() };
        self.ask_ids(m, s, q, t);
    }
    pub fn q_closest(&mut self) {
        let s = self.subject_els();
        let (q, t) = self.selector();
        self.ask_ids("closest", s, q, t);
    }
    pub fn q_until(&mut self) {
        let s = self.subject();
        self.until_of(s);
    }
    fn until_of(&mut self, s: Vec<usize>) {
        const M: [&str; 3] = ["prev_until", "next_until", "parents_until"];
        let m = *self.r.pick(&M);
        let (q, t) = self.selector();
        let (q2, t2) = if self.r.chance(2, 3) { (vec![], String::new()) } else { self.selector() };
        let inc = self.r.coin();
        let mut ev = self.op(m);
        ev.push(f("s", J::ids(&s)));
        self.sel_fields(&mut ev, &q, &t);
        ev.push(f("f", sel::sel_json(&q2)));
        ev.push(f("fstr", J::s(&t2)));
        ev.push(f("inc", J::B(inc)));
        self.go(ev);
    }
    pub fn q_filter(&mut self) {
        const M: [&str; 3] = ["filter", "not", "has"];
        let m = *self.r.pick(&M);
        let s = self.subject_els();
        let (q, t) = self.selector();
        self.ask_ids(m, s, q, t);
    }
    pub fn q_is(&mut self) {
        let m = *self.r.pick(&["is", "is_all"]);
        let s = self.subject_els();
        let (q, t) = self.selector();
        self.ask_ids(m, s, q, t);
    }
    /// has and closest, about elements that are there
    pub fn q_updown(&mut self) {
        let top = self.pick_top();
        let els = self.w.els_under(top);
        if els.is_empty() { return; }
        let x = if self.r.coin() { els[els.len() - 1 - self.r.below(els.len().min(4))] } else { *self.r.pick(&els) };
        let mut up = vec![];
        let mut p = self.w.rec(x).p;
        while self.w.is_el(p) { up.insert(0, p); p = self.w.rec(p).p; }
        if up.is_empty() { return; }
        if self.r.coin() {
            let m = self.features(x);
            let q = vec![vec![sel::Comp { c: " ", m }]];
            let t = sel::render(&q, &mut self.r);
            let s = if self.r.coin() { up } else { els };
            self.ask_ids("has", s, q, t);
        } else {
            let y = *self.r.pick(&up);
            let m = self.features(y);
            let q = vec![vec![sel::Comp { c: " ", m }]];
            let t = sel::render(&q, &mut self.r);
            let mut s = vec![x];
            if self.r.coin() { s.extend(self.w.els_under(x)); s.dedup(); }
            self.ask_ids("closest", s, q, t);
        }
    }
    /// filter, not, is, is_all and has must agree with each other and with one element at a time
    pub fn q_agree(&mut self) {
        let s = self.subject_els();
        let (q, t) = self.selector();
        for m in ["filter", "not", "is", "is_all", "has"] { self.ask_ids(m, s.clone(), q.clone(), t.clone()); }
    }
    /// a set with elements of two trees, those of one after those of the other or mixed
    fn two_trees(&mut self) -> (Vec<usize>, Vec<usize>) {
        let tops: Vec<usize> = self.w.tops().into_iter().filter(|i| self.w.rec(*i).k == "root" || self.w.is_el(*i)).collect();
        if tops.is_empty() { return (vec![], vec![]); }
        let a = *self.r.pick(&tops);
        let b = *self.r.pick(&tops);
        let mut s = self.pick_under(a, false);
        if a != b { s.extend(self.pick_under(b, false)); }
        if a == b || self.r.coin() { self.r.shuffle(&mut s); }
        (s, tops)
    }
    /// each element is judged where it is
    pub fn q_trees(&mut self) {
        let (s, tops) = self.two_trees();
        if tops.is_empty() { return; }
        let (q, t) = self.selector();
        for m in ["filter", "not", "is", "is_all", "has"] { self.ask_ids(m, s.clone(), q.clone(), t.clone()); }
        let m = *self.r.pick(&["filter_in", "not_in", "has_in", "is_in", "is_all_in"]);
        self.with_part(m, s, &tops);
    }
    /// a set against a part of it and elements of another tree
    fn with_part(&mut self, m: &'static str, s: Vec<usize>, tops: &[usize]) {
        let mut s2: Vec<usize> = s.iter().copied().filter(|_| self.r.chance(2, 3)).collect();
        if self.r.coin() { let c = *self.r.pick(tops); let more = self.pick_under(c, false); s2.extend(more.into_iter().filter(|i| !s.contains(i))); }
        if self.r.coin() { self.r.shuffle(&mut s2); }
        let mut ev = self.op(m);
        ev.push(f("s", J::ids(&s)));
        ev.push(f("s2", J::ids(&s2)));
        self.go(ev);
    }
    pub fn q_trees_add(&mut self) {
        let (s, tops) = self.two_trees();
        if tops.is_empty() { return; }
        self.with_part("add", s, &tops);
    }
    pub fn q_trees_find(&mut self) {
        let (s, _) = self.two_trees();
        let (q, t) = self.selector();
        self.ask_ids("find", s, q, t);
    }
    pub fn q_trees_walk(&mut self) {
        let (s, _) = self.two_trees();
        if self.r.chance(1, 4) { return self.until_of(s); }
        let m = *self.r.pick(&["siblings", "siblings", "children", "prev", "prev_all", "next", "next_all", "parent", "parents"]);
        let (q, t) = if self.r.coin() { (vec![], String::new()) } else { self.selector() };
        self.ask_ids(m, s, q, t);
    }
    pub fn q_trees_closest(&mut self) {
        let (s, _) = self.two_trees();
        let (q, t) = self.selector();
        self.ask_ids("closest", s, q, t);
    }
    /// many elements at once against a selector that relates tags: some match, some only nearly
    pub fn q_bulk(&mut self) {
        let top = self.pick_top();
        let els = self.w.els_under(top);
        if els.len() < 6 { return; }
        let keep = (self.sel.w, self.sel.comps);
        self.sel.w = [0, 8, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
        self.sel.comps = 4;
        let mut q = self.aimed();
        for _ in 0..3 { if q[0].len() < 2 { q = self.aimed(); } }
        self.sel.w = keep.0;
        self.sel.comps = keep.1;
        let t = sel::render(&q, &mut self.r);
        let tag = match q[0].last().and_then(|c| c.m.first()) { Some(sel::Simple::Tag(t)) => t.clone(), _ => String::new() };
        let s: Vec<usize> = match self.r.below(3) { 0 => els, 1 => { let s: Vec<usize> = els.iter().copied().filter(|i| self.w.rec(*i).t == tag).collect(); if s.is_empty() { els } else { s } } _ => { let k = 2 + self.r.below(6); els.into_iter().enumerate().filter(|(i, _)| i % k != 1).map(|x| x.1).collect() } };
        let m = *self.r.pick(&["filter", "not", "filter", "is_all", "find", "has", "closest"]);
        self.ask_ids(m, s, q, t);
    }
    /// what is at the top of a document
    pub fn q_top(&mut self) {
        if self.w.roots.is_empty() { return; }
        let s = vec![*self.r.pick(&self.w.roots.clone())];
        let m = *self.r.pick(&["children", "find", "children"]);
        let (q, t) = if self.r.coin() {
            let mut c = vec![sel::Simple::Flag("root")];
            if self.r.chance(1, 3) { c.insert(0, sel::Simple::Tag("html".into())); }
            let mut q = vec![vec![sel::Comp { c: " ", m: c }]];
            if self.r.chance(1, 3) { let (x, _) = self.selector(); q.extend(x); }
            let t = sel::render(&q, &mut self.r);
            (q, t)
        } else { self.selector() };
        self.ask_ids(m, s, q, t);
    }
    /// methods that take a second set
    pub fn q_in(&mut self) {
        const M: [&str; 5] = ["filter_in", "not_in", "has_in", "is_in", "is_all_in"];
        let m = *self.r.pick(&M);
        let s = if self.r.chance(1, 4) { self.subject() } else { self.pick_els(true) };
        let top = if s.is_empty() { self.pick_top() } else { self.w.top(s[0]) };
        let s2 = match self.r.below(10) { 0 | 1 => s.iter().copied().take(2).collect(), 2 => self.subject(), _ => self.pick_under(top, true) };
        let s = self.mix(s);
        let s2 = self.mix(s2);
        let mut ev = self.op(m);
        ev.push(f("s", J::ids(&s)));
        ev.push(f("s2", J::ids(&s2)));
        self.go(ev);
    }
    pub fn q_add(&mut self) {
        let top = self.pick_top();
        let s = self.pick_under(top, true);
        let s2 = self.pick_under(top, true);
        let s = self.mix(s);
        let s2 = self.mix(s2);
        let mut ev = self.op("add");
        ev.push(f("s", J::ids(&s)));
        ev.push(f("s2", J::ids(&s2)));
        self.go(ev);
    }
    pub fn q_index(&mut self) {
        let s = self.subject();
        let m = *self.r.pick(&["eq", "eq", "first", "last", "slice", "slice", "get", "length"]);
        let len = s.len();
        let a = self.r.below(len + 3) as i64;
        let b = self.r.below(len + 4) as i64;
        let kind = self.r.below(7);
        const INF: i64 = 1_000_000;
        // -1: the largest number there is
        let (ra, a) = if self.r.chance(1, 20) { (if m == "slice" { -1 } else { INF }, INF) } else { (a, a) };
        let (rb, b) = if self.r.chance(1, 15) { (-1, INF) } else { (b, b) };
        let mut ev = self.op(m);
        ev.push(f("s", J::ids(&s)));
        // the half-open interval that the range of this kind denotes
        let (lo, hi) = match kind { 0 => (a, b), 1 => (a, INF), 2 => (0, b), 3 => (0, INF), 4 => (a, b + 1), 5 => (0, b + 1), _ => (a + 1, b) };
        match m {
            "eq" | "get" => ev.push(f("a", J::N(a))),
            "slice" => { ev.push(f("a", J::N(lo))); ev.push(f("b2", J::N(hi))); ev.push(f("kind", J::n(kind))); ev.push(f("ra", J::N(ra))); ev.push(f("rb", J::N(rb))); }
            _ => {}
        }
        self.go(ev);
    }
    /// contains(ele, combinator)
    pub fn q_contains(&mut self) {
        let top = self.pick_top();
        let s = self.pick_under(top, true);
        let top = if self.r.chance(1, 6) { self.pick_top() } else { top };
        let els = self.w.els_under(top);
        if els.is_empty() { return; }
        let x = *self.r.pick(&els);
        let c = *self.r.pick(&[" ", ">", "+", "~", ""]);
        let mut ev = self.op("contains");
        ev.push(f("s", J::ids(&s)));
        ev.push(f("x", J::n(x)));
        ev.push(f("c", J::s(c)));
        self.go(ev);
    }
    /// methods that take a function
    pub fn q_by(&mut self) {
        let m = *self.r.pick(&["filter_by", "not_by", "is_by", "is_all_by"]);
        let s = self.subject();
        let want: Vec<usize> = { let k = self.r.below(3); s.iter().copied().filter(|_| match k { 0 => self.r.coin(), 1 => true, _ => false }).collect() };
        let mut ev = self.op(m);
        ev.push(f("s", J::ids(&s)));
        ev.push(f("s2", J::ids(&want)));
        self.go(ev);
    }
    pub fn q_iter(&mut self) {
        let m = *self.r.pick(&["for_each", "each", "map", "into_iter", "get_ref"]);
        let s = self.subject();
        let stop = self.r.below(s.len() + 2);
        let mut ev = self.op(m);
        ev.push(f("s", J::ids(&s)));
        ev.push(f("a", J::n(stop)));
        self.go(ev);
    }
    // -------------------------------------------------------------- reading
    pub fn q_text(&mut self) {
        let s = self.pick_els(false);
        let s = self.mix(s);
        let mut ev = self.op("text");
        ev.push(f("s", J::ids(&s)));
        self.go(ev);
    }
    pub fn q_html(&mut self) {
        let m = *self.r.pick(&["html", "outer_html", "htmls", "outer_htmls"]);
        let s = self.pick_els(false);
        let s = self.mix(s);
        let mut ev = self.op(m);
        ev.push(f("s", J::ids(&s)));
        self.level(&mut ev);
        ev.push(f("a", J::n(self.r.below(2))));
        self.go(ev);
    }
    pub fn q_attr(&mut self) {
        let s = self.subject();
        let m = *self.r.pick(&["attr", "has_attr", "get_attributes", "has_class"]);
        let n = self.attr_name();
        let n = if m == "has_class" { let v = self.v.classes.clone(); let n = self.r.pick(&v).clone(); let n = if self.r.chance(1, 4) { sel::near(&mut self.r, &n) } else { n };
            if self.r.chance(1, 4) {
                let most = if self.r.coin() { 2 } else { 8 };
                let k = 1 + self.r.below(most);
                let mut ws: Vec<String> = (0..k).map(|_| self.r.pick(&v).clone()).collect();
                ws.push(n);
                self.r.shuffle(&mut ws);
                ws.join(*self.r.pick(&[" ", "  ", "\t", "\n"]))
            } else { n }
        } else { n };
        let mut ev = self.op(m);
        ev.push(f("s", J::ids(&s)));
        ev.push(f("nm", J::s(&n)));
        self.go(ev);
    }
    pub fn attr_name(&mut self) -> String {
        let mut n = if self.v.attrs.is_empty() || self.r.chance(1, 4) { self.r.pick(&["title", "data-k", "id", "class", "lang", "data-n", "selected", "checked", "value"]).to_string() } else { let v = self.v.attrs.clone(); self.r.pick(&v).0.clone() };
        if self.r.chance(1, 6) { n = n.to_ascii_uppercase(); }
        if self.r.chance(1, 10) { n = self.r.pick(&["\u{fc}n\u{ef}", "\u{dc}n\u{ef}", "data-\u{212a}", "data-k", "data-K", "DATA-n", "xml:lang", "_x", "@click", "v-on:x.y"]).to_string(); }
        n
    }
    pub fn q_val(&mut self) {
        let s = self.pick_els(false);
        let mut ev = self.op("val");
        ev.push(f("s", J::ids(&s)));
        self.go(ev);
    }
    pub fn q_texts(&mut self) {
        let lim = if self.r.chance(1, 5) { self.r.below(20) } else { self.r.below(4) };
        let s = self.pick_els(false);
        let m = *self.r.pick(&["texts", "texts", "texts_by", "texts_by_rec"]);
        let mut ev = self.op(m);
        ev.push(f("s", J::ids(&s)));
        ev.push(f("a", J::n(lim)));
        self.level(&mut ev);
        let stop_tag = { let v = self.v.tags.clone(); self.r.pick(&v).clone() };
        ev.push(f("nm", J::s(&stop_tag)));
        self.go(ev);
    }
    /// iterating over text nodes
    pub fn q_tx(&mut self) {
        let m = *self.r.pick(&["tx_for_each", "tx_each", "tx_into_iter", "tx_filter_by", "tx_get_ref"]);
        let s = self.pick_els(false);
        let a = if self.r.chance(1, 4) { self.r.below(16) } else { self.r.below(4) };
        let mut ev = self.op(m);
        ev.push(f("s", J::ids(&s)));
        ev.push(f("a", J::n(a)));
        self.go(ev);
    }
    pub fn q_doc(&mut self) {
        let i = self.r.below(self.w.roots.len());
        let root = self.w.roots[i];
        let m = *self.r.pick(&["title", "head", "body", "document_element", "get_element_by_id", "get_element_by_id", "get_root_node", "root_element", "owner_document", "source_code"]);
        let mut ev = self.op(m);
        ev.push(f("x", J::n(root)));
        let v = self.v.ids.clone();
        let mut nm = self.r.pick(&v).clone();
        if self.r.chance(1, 4) { nm = sel::near(&mut self.r, &nm); }
        ev.push(f("nm", J::s(&nm)));
        let els = self.w.els_under(root);
        let y = if els.is_empty() { root } else { *self.r.pick(&els) };
        ev.push(f("y", J::n(y)));
        ev.push(f("via", J::B(self.r.coin())));
        self.go(ev);
    }
    /// the element level interface
    pub fn q_element(&mut self) {
        let top = self.pick_top();
        let els = self.w.els_under(top);
        if els.is_empty() { return; }
        let x = *self.r.pick(&els);
        let y = *self.r.pick(&els);
        let m = *self.r.pick(&["e_next", "e_prev", "e_nexts", "e_prevs", "e_siblings", "e_children", "e_child_nodes", "e_parent", "e_index", "e_tag_name", "e_is", "e_type", "e_child_item", "e_text", "e_has_attr", "e_children_by", "e_since"]);
        let nm = self.attr_name();
        let kids = self.w.rec(x).c.len();
        let most = if self.r.coin() { 5 } else { kids + 2 };
        let mut a = self.r.below(most);
        if m == "e_since" { if kids == 0 { return; } a = self.r.below(kids); }
        let mut ev = self.op(m);
        if m == "e_since" { ev.push(f("inc", J::B(self.r.coin()))); ev.push(f("ra", J::n(1 + self.r.below(4)))); }
        ev.push(f("x", J::n(x)));
        ev.push(f("y", J::n(y)));
        ev.push(f("nm", J::s(&nm)));
        ev.push(f("a", J::n(a)));
        self.go(ev);
    }
    // ------------------------------------------------------- bad selectors
    pub fn q_bad(&mut self, sure: bool) {
        const M: [&str; 16] = ["find", "filter", "not", "has", "children", "prev", "prev_all", "next", "next_all", "siblings", "parent", "parents", "closest", "is", "is_all", "next_until"];
        let m = *self.r.pick(&M);
        let s = self.subject();
        let t = if sure {
            let b = self.r.pick(&sel::BAD).to_string();
            match self.r.below(4) {
                0 => { let (_, t) = self.selector(); if b.starts_with([',', '>', '+', '~']) { b } else { format!("{}, {}", t, b) } }
                _ => b,
            }
        } else {
            let (_, t) = self.selector();
            sel::garble(&mut self.r, &t)
        };
        let mut ev = self.op(m);
        ev.push(f("s", J::ids(&s)));
        ev.push(f("str", J::s(&t)));
        ev.push(f("bad", J::s(if sure { "yes" } else { "spec" })));
        self.go(ev);
    }
    /// the same selector in two spellings
    pub fn q_spell(&mut self) {
        let s = self.subject();
        let (q, t) = self.selector();
        let t2 = sel::render(&q, &mut self.r);
        self.ask_ids("find", s.clone(), q.clone(), t);
        self.ask_ids("find", s, q, t2);
    }

    // ---------------------------------------------------------- mutations
    pub fn can_hold(&self, id: usize) -> bool { let r = self.w.rec(id); r.k == "el" && !RAW.contains(&r.t.as_str()) }
    /// at most n of them, now and then all
    fn few(&mut self, s: &mut Vec<usize>, n: usize) {
        let n = if self.r.chance(1, 10) { 24 } else { 1 + self.r.below(n) };
        s.truncate(n);
    }
    pub fn targets(&mut self) -> Vec<usize> {
        let mut s: Vec<usize> = self.pick_els(false).into_iter().filter(|i| self.can_hold(*i)).collect();
        let n = if self.r.chance(1, 8) { 8 } else { 3 };
        s.truncate(n);
        s
    }
    pub fn m_insert(&mut self, refuse: bool) {
        let q = self.targets();
        let pos = *self.r.pick(&["append", "prepend", "before", "after"]);
        let ns = self.pick_nodes(&q, refuse);
        if q.is_empty() && !self.r.chance(1, 10) { return; }
        let q = self.fit(q, &ns);
        self.insert_exact(pos, q, ns);
    }
    pub fn insert_exact(&mut self, pos: &str, q: Vec<usize>, ns: Vec<usize>) {
        let mut ev = self.op("insert");
        ev.push(f("pos", J::s(pos)));
        ev.push(f("s", J::ids(&q)));
        ev.push(f("s2", J::ids(&ns)));
        ev.push(f("rev", J::B(self.r.coin())));
        self.go(ev);
    }
    /// what to insert at q: elements of the same tree, of another one, or the content of a fragment
    pub fn pick_nodes(&mut self, q: &[usize], refuse: bool) -> Vec<usize> {
        if refuse && !q.is_empty() {
            // something that must be refused: the target itself, an ancestor, a whole document
            let x = *self.r.pick(q);
            let mut v = vec![x];
            let mut p = self.w.rec(x).p;
            while p != 0 { v.push(p); p = self.w.rec(p).p; }
            let y = *self.r.pick(&v);
            return vec![y];
        }
        match self.r.below(10) {
            0..=3 => {
                let ts = docs::fragment(&mut self.r);
                let id = self.load_frag(ts);
                if id == 0 { vec![] } else { vec![id] }
            }
            4 => {
                let ts = docs::fragment(&mut self.r);
                let id = self.load_frag(ts);
                if id == 0 { return vec![]; }
                let top: Vec<usize> = self.w.rec(id).c.iter().copied().filter(|c| self.w.is_el(*c)).collect();
                top
            }
            _ => {
                let mut s = self.pick_els(false);
                self.few(&mut s, 4);
                s
            }
        }
    }
    pub fn load_frag(&mut self, ts: Vec<Term>) -> usize {
        if self.dead { return 0; }
        let j = self.judge;
        self.judge = "any";
        let id = self.load(ts, false);
        self.judge = j;
        if !self.w.roots.is_empty() && id != 0 { self.w.roots.pop(); let l = self.w.loaded.pop().unwrap(); self.w.frags.push((id, l)); }
        id
    }
    fn size(&self, i: usize) -> usize { 1 + self.w.rec(i).c.iter().map(|c| self.size(*c)).sum::<usize>() }
    /// as many of the targets as keep the copies in bounds: each target gets a copy of its own, and
    /// a copy of what holds the targets holds the copies made before it
    fn fit(&self, mut q: Vec<usize>, ns: &[usize]) -> Vec<usize> {
        let one: usize = ns.iter().map(|n| self.size(*n)).sum();
        let (mut all, mut n) = (one, 0);
        while n < q.len() && all <= 160 { all *= 2; n += 1; }
        let flat = if one == 0 { q.len() } else { 160 / one };
        let held = ns.iter().any(|x| q.iter().any(|y| { let mut p = *y; while p != 0 && p != *x { p = self.w.rec(p).p; } p != 0 }));
        q.truncate(if held { n.max(1) } else { flat.max(1) });
        q
    }
    pub fn m_replace(&mut self, refuse: bool) {
        let q = self.targets();
        let ns = self.pick_nodes(&q, refuse);
        if q.is_empty() { return; }
        let q = self.fit(q, &ns);
        let mut ev = self.op("replace");
        ev.push(f("s", J::ids(&q)));
        ev.push(f("s2", J::ids(&ns)));
        self.level(&mut ev);
        self.go(ev);
    }
    pub fn m_remove(&mut self) {
        let mut s = self.pick_els(true);
        if self.r.chance(1, 6) {
            // a child, and now and then something that is none
            let els: Vec<usize> = s.iter().copied().filter(|i| self.w.is_el(*i)).collect();
            if els.is_empty() { return; }
            let x = *self.r.pick(&els);
            let all = { let t = self.w.top(x); self.w.els_under(t) };
            let kids: Vec<usize> = self.w.rec(x).c.iter().copied().filter(|i| self.w.is_el(*i)).collect();
            let y = if kids.is_empty() || self.r.chance(1, 3) { *self.r.pick(&all) } else { *self.r.pick(&kids) };
            let mut ev = self.op("e_remove_child");
            ev.push(f("x", J::n(x)));
            ev.push(f("y", J::n(y)));
            return self.go(ev);
        }
        self.few(&mut s, 4);
        let mut ev = self.op("remove");
        self.level(&mut ev);
        ev.push(f("s", J::ids(&s)));
        self.go(ev);
    }
    pub fn m_empty(&mut self) {
        let mut s = self.pick_els(false);
        self.few(&mut s, 3);
        let mut ev = self.op("empty");
        ev.push(f("s", J::ids(&s)));
        self.go(ev);
    }
    pub fn m_set_text(&mut self) {
        let mut s = self.pick_els(false);
        self.few(&mut s, 3);
        let t = docs::any_text(&mut self.r);
        let t = if s.iter().any(|i| RAW.contains(&self.w.rec(*i).t.as_str())) { t.replace("</", "") } else { t };
        let mut ev = self.op("set_text");
        self.level(&mut ev);
        ev.push(f("s", J::ids(&s)));
        ev.push(f("str", J::s(&t)));
        self.go(ev);
    }
    pub fn m_set_html(&mut self) {
        let mut s = self.pick_els(false);
        self.few(&mut s, 2);
        let plain = s.iter().any(|i| RAW.contains(&self.w.rec(*i).t.as_str()));
        let ts = if plain { vec![Term::text("raw html")] } else { docs::fragment(&mut self.r) };
        let html = if self.r.coin() { html_of(&ts, Some(&mut self.r)) } else { html_of(&ts, None) };
        let nv = docs::vocab(&ts);
        self.v.classes.extend(nv.classes); self.v.ids.extend(nv.ids); self.v.tags.extend(nv.tags);
        let mut ev = self.op("set_html");
        self.level(&mut ev);
        ev.push(f("s", J::ids(&s)));
        ev.push(f("str", J::s(&html)));
        ev.push(f("ts", terms_j(&ts)));
        self.go(ev);
    }
    /// html that is not well formed: whatever it is read as, only the content of the targets may change
    pub fn m_set_html_soup(&mut self) {
        let s: Vec<usize> = self.pick_els(false).into_iter().filter(|i| self.can_hold(*i)).take(2).collect();
        let ts = docs::fragment(&mut self.r);
        let html = crate::extra::garbled(self, &ts);
        if s.is_empty() || !crate::extra::parser_sound(&html) { return; }
        let mut ev = self.op("set_html");
        self.level(&mut ev);
        ev.push(f("s", J::ids(&s)));
        ev.push(f("str", J::s(&html)));
        ev.push(f("soup", J::B(true)));
        said(&mut ev, &html);
        self.go(ev);
    }
    pub fn m_attr(&mut self) {
        let mut s = self.pick_els(false);
        self.few(&mut s, 3);
        let nm = self.attr_name();
        if self.r.chance(1, 3) {
            let mut ev = self.op("remove_attr");
            self.level(&mut ev);
            ev.push(f("s", J::ids(&s)));
            ev.push(f("nm", J::s(&nm)));
            return self.go(ev);
        }
        let v = self.r.pick(&["x", "y z", "", "it's", "say \"hi\"", "a'b\"c", "en-US", "\u{e9}", "x>y", "<b>", "a=b", "  sp ", "i1", "\"", "''\"\""]).to_string();
        let flag = self.r.chance(1, 5);
        let mut ev = self.op("set_attr");
        self.level(&mut ev);
        ev.push(f("s", J::ids(&s)));
        ev.push(f("nm", J::s(&nm)));
        ev.push(f("h", J::N(!flag as i64)));
        ev.push(f("str", J::s(&v)));
        self.go(ev);
        self.v.attrs.push((nm.to_ascii_lowercase(), v));
    }
    pub fn m_class(&mut self) {
        let mut s = self.pick_els(false);
        self.few(&mut s, 4);
        let m = *self.r.pick(&["add_class", "remove_class", "toggle_class"]);
        let n = if self.r.chance(1, 10) { 4 + self.r.below(8) } else { 1 + self.r.below(3) };
        let words: Vec<&str> = (0..n).map(|_| *self.r.pick(&["a", "b", "c", "d", "A", "a:b", "zz", "b-c", "\u{e9}", "a-rather-long-name", "a-rather-long-nama"])).collect();
        let sep = *self.r.pick(&[" ", "  ", "\t", "\n", "\r\n", "\u{c}"]);
        let mut arg = words.join(sep);
        if self.r.chance(1, 5) { arg = format!(" {} ", arg); }
        if self.r.chance(1, 12) { arg = self.r.pick(&["", " "]).to_string(); }
        let mut ev = self.op(m);
        ev.push(f("s", J::ids(&s)));
        ev.push(f("str", J::s(&arg)));
        self.go(ev);
        for w in words { self.v.classes.push(w.into()); }
    }
    pub fn m_text_node(&mut self) { self.text_node(false) }
    /// some text nodes of the first answer become empty: they stay in the document
    pub fn m_text_gone(&mut self) { self.text_node(true) }
    fn text_node(&mut self, gone: bool) {
        let top = self.pick_top();
        let s = self.pick_under(top, false);
        let lim = if self.r.coin() { 0 } else { 1 };
        let m = *self.r.pick(&["t_set_text", "t_append", "t_prepend", "t_set_html", "t_remove"]);
        let m = if gone { "t_set_text" } else { m };
        // the text nodes are found through the real interface, numbered by the projection
        let ids: Vec<usize> = {
            let w = &mut self.w;
            let a = w.set(&s);
            let ns: Vec<RefNode> = match catch_unwind(AssertUnwindSafe(|| a.texts(lim).get_ref().iter().map(text_node).collect::<Vec<_>>())) { Ok(v) => v, Err(_) => return };
            ns.iter().filter(|n| w.known(n)).cloned().collect::<Vec<_>>().iter().map(|n| w.id(n)).collect()
        };
        if ids.is_empty() { return; }
        let mut pick: Vec<usize> = vec![];
        let n = if self.r.chance(1, 3) { 1 + self.r.below(3) } else { 1 };
        for _ in 0..if gone { 8 } else { n } { let x = *self.r.pick(&ids); if !pick.contains(&x) { pick.push(x); } }
        let all = m == "t_remove" && self.r.chance(1, 3);
        if all { pick = ids.clone(); }
        let raw = |e: &Ep, i: usize| RAW.contains(&e.w.rec(i).t.as_str());
        if m == "t_remove" { pick.retain(|i| !raw(self, *i)); }
        if pick.is_empty() { return; }
        let anyraw = pick.iter().any(|i| raw(self, *i));
        let t = if gone { String::new() } else if anyraw { self.r.pick(&["t1", "two", "x y"]).to_string() } else { self.r.pick(&["t1", "two &lt;", "x y", "&amp;", " ", "", "\u{e9}"]).to_string() };
        let ts = if anyraw { vec![Term::text("zz")] } else if self.r.chance(1, 6) { vec![] } else { docs::fragment(&mut self.r) };
        let html = html_of(&ts, None);
        let mut ev = self.op(m);
        ev.push(f("s", J::ids(&pick)));
        ev.push(f("str", J::s(if m == "t_set_html" { &html } else { &t })));
        ev.push(f("ts", terms_j(&ts)));
        ev.push(f("from", J::ids(&s)));
        ev.push(f("lim", J::n(lim)));
        ev.push(f("via", J::B(all || self.r.coin())));
        self.go(ev);
    }
    pub fn m_clone(&mut self) {
        let top = self.pick_top();
        let els = self.w.els_under(top);
        if els.is_empty() { return; }
        let mut x = *self.r.pick(&els);
        let mut via = self.r.below(3);
        if self.r.chance(1, 5) {
            // a node that is not an element
            let all: Vec<usize> = self.w.pre(top).into_iter().filter(|i| !self.w.is_el(*i) && self.w.is_el(self.w.rec(*i).p)).collect();
            if !all.is_empty() { x = *self.r.pick(&all); via = 3; }
        }
        let mut ev = self.op("copy");
        ev.push(f("x", J::n(x)));
        ev.push(f("via", J::n(via)));
        self.go(ev);
    }
    pub fn m_any(&mut self) {
        match self.r.below(12) {
            0..=2 => self.m_insert(false),
            3 => self.m_replace(false),
            4 => self.m_remove(),
            5 => self.m_set_html(),
            6 => self.m_set_text(),
            7 | 8 => self.m_attr(),
            9 => self.m_class(),
            10 => self.m_text_node(),
            _ => { if self.r.coin() { self.m_clone() } else { self.m_empty() } }
        }
    }
    pub fn quiet<T>(&mut self, g: impl FnOnce(&mut Ep) -> T) -> T { let j = self.judge; self.judge = "any"; let r = g(self); self.judge = j; r }
}

