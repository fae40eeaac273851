//! One profile per property: which documents, which operations, judged how.
use crate::docs::Style::{self, *};
use crate::ep::{f, Ep, Shared};
use crate::json::J;
use crate::rng::Rng;
use crate::sel::{Cfg, MIXED};
use std::sync::Arc;

pub fn style(r: &mut Rng, v: &[(Style, usize)]) -> Style { let w: Vec<usize> = v.iter().map(|x| x.1).collect(); v[r.weighted(&w)].0 }
pub const ALL: [(Style, usize); 10] = [(Small, 5), (Same, 3), (Wide, 1), (Deep, 1), (Bushy, 2), (Motley, 2), (Full, 1), (Form, 1), (Texty, 1), (Attry, 2)];
pub const MUT: [(Style, usize); 8] = [(Tiny, 12), (Small, 12), (Texty, 6), (Full, 3), (Form, 3), (Bushy, 2), (Wide, 1), (Deep, 1)];

fn w(c: [usize; 14]) -> Cfg { Cfg { w: c, comps: 3, groups: 2, depth: 1, lead: 0 } }

pub fn judge(p: &str) -> &'static str { match p { "C02" => "order", "C09" => "wf", "C20" => "safe", "C21" => "pure", _ => "full" } }
pub fn episode(p: &str, r: Rng, sh: Arc<Shared>) {
    //                any tag id cls att nth str emp roo con chk hdr not has
    let sel = match p {
        "C01" => Cfg { w: [4, 10, 2, 6, 2, 1, 2, 0, 0, 0, 0, 0, 1, 1], comps: 4, groups: 3, depth: 1, lead: 0 },
        "C03" => Cfg { w: [1, 3, 0, 1, 0, 12, 10, 2, 1, 0, 0, 0, 1, 0], comps: 2, groups: 2, depth: 1, lead: 0 },
        "C04" => Cfg { w: [1, 4, 4, 6, 14, 0, 0, 0, 0, 0, 0, 0, 1, 0], comps: 2, groups: 2, depth: 1, lead: 0 },
        "C05" => Cfg { w: [1, 3, 1, 2, 1, 1, 1, 5, 2, 8, 2, 3, 6, 6], comps: 2, groups: 2, depth: 2, lead: 0 },
        "C19" => w([1, 4, 0, 0, 1, 1, 1, 0, 0, 0, 10, 4, 3, 1]),
        "C24" => Cfg { w: [2, 5, 3, 5, 8, 8, 2, 1, 1, 3, 0, 1, 4, 2], comps: 3, groups: 3, depth: 2, lead: 0 },
        "C20" => Cfg { w: [2, 5, 3, 5, 6, 6, 4, 1, 1, 3, 1, 1, 5, 4], comps: 4, groups: 3, depth: 2, lead: 0 },
        _ => MIXED,
    };
    let mut e = Ep::new(r, sh, judge(p), sel);
    let e = &mut e;
    match p {
        "C01" => { start(e, &ALL); second(e); for i in 0..24 { if i % 8 == 7 { e.q_bulk() } else if i % 8 == 3 && e.r.chance(1, 3) { e.q_trees_find() } else { e.q_find() } } }
        "C02" => {
            start(e, &ALL); second(e);
            for i in 0..26 {
                if i % 9 == 8 && e.r.coin() { e.quiet(|e| e.m_any()); continue; }
                match e.r.below(10) { 0..=3 => e.q_find(), 4 | 5 => e.q_walk(), 6 => e.q_until(), 7 => e.q_closest(), 8 => e.q_filter(), _ => if e.r.coin() { e.q_add() } else { match e.r.below(4) { 0 => e.q_trees_add(), 1 => e.q_trees_find(), 2 => e.q_trees_walk(), _ => e.q_trees_closest() } } }
            }
        }
        "C03" => {
            start(e, &[(Small, 3), (Same, 3), (Wide, 4), (Bushy, 2), (Motley, 6), (Texty, 2), (Full, 1)]); second(e);
            for _ in 0..20 { match e.r.below(5) { 0 | 1 => e.q_find(), 2 => e.q_filter(), 3 => e.q_trees(), _ => e.q_agree() } }
        }
        "C04" => {
            start(e, &[(Attry, 12), (Small, 4), (Full, 2), (Bushy, 1)]);
            for _ in 0..22 { match e.r.below(4) { 0..=2 => e.q_find(), _ => e.q_agree() } }
        }
        "C05" => {
            start(e, &[(Texty, 4), (Small, 3), (Full, 2), (Form, 1), (Motley, 1), (Same, 1)]);
            if e.r.chance(1, 4) { e.quiet(|e| { e.m_text_gone(); e.m_text_gone(); }); }
            else if e.r.chance(1, 4) { e.quiet(|e| { e.m_text_node(); e.m_text_node(); e.m_empty(); }); }
            for _ in 0..18 { match e.r.below(10) { 0..=6 => e.q_find(), 7 => e.q_top(), _ => e.q_agree() } }
        }
        "C06" => {
            start(e, &ALL); second(e);
            for _ in 0..14 { match e.r.below(15) { 13 | 14 => e.q_trees(), 10..=12 => e.q_bulk(), 0..=2 => e.q_agree(), 3 => e.q_filter(), 8 | 9 => e.q_updown(), 4 => e.q_is(), 5 => e.q_closest(), 6 => e.q_in(), _ => e.q_contains() } }
            if e.r.coin() { e.quiet(|e| { e.m_remove(); e.m_any(); }); e.loose = true; for _ in 0..8 { match e.r.below(9) { 8 => e.q_trees_closest(), 6 | 7 => e.q_trees(), 0 | 1 => e.q_agree(), 2 | 3 => e.q_closest(), _ => e.q_in() } } }
        }
        "C07" => {
            start(e, &ALL); second(e);
            for i in 0..26 {
                if i == 16 && e.r.coin() { e.quiet(|e| { e.m_any(); e.m_any(); }); }
                match e.r.below(9) { 0..=3 => e.q_walk(), 4 | 5 => e.q_until(), 6 => e.q_element(), 7 => e.q_around(), _ => match e.r.below(3) { 0 => e.q_trees_walk(), _ => e.q_closest() } }
            }
        }
        "C08" => {
            start(e, &ALL); second(e);
            for _ in 0..26 { match e.r.below(9) { 0..=2 => e.q_add(), 3..=5 => e.q_index(), 6 => { if e.r.coin() { e.q_in() } if e.r.chance(1, 3) { e.q_trees() } else if e.r.coin() { e.q_trees_add() } }, 7 => e.q_by(), _ => e.q_contains() } }
        }
        "C09" => { start(e, &MUT); second(e); let n = long(e, 14); for _ in 0..n { if e.r.chance(1, 8) { if e.r.coin() { e.m_insert(true) } else { e.m_replace(true) } } else if e.r.chance(1, 10) { e.m_set_html_soup() } else { e.m_any(); } } }
        "C10" => { start(e, &MUT); second(e); let n = long(e, 9); for _ in 0..n { e.m_insert(false); if e.r.chance(1, 6) { e.quiet(|e| e.m_remove()); } } }
        "C11" => { start(e, &MUT); second(e); let n = long(e, 9); for _ in 0..n { match e.r.below(6) { 0 | 1 => e.m_remove(), 2 => e.m_empty(), 3 => e.quiet(|e| e.m_insert(false)), _ => e.m_replace(false) } } }
        "C12" => { start(e, &MUT); second(e); for _ in 0..10 { match e.r.below(8) { 0..=3 => e.m_insert(true), 4 | 5 => e.m_replace(true), 6 => { if e.r.coin() { void_target(e) } else { root_target(e) } }, _ => e.quiet(|e| e.m_any()) } } }
        "C13" => { start(e, &[(Attry, 3), (Small, 1), (Form, 1), (Full, 1)]); for _ in 0..10 { e.m_attr(); e.q_attr(); if e.r.chance(1, 8) { e.quiet(|e| { e.m_class(); }) } } }
        "C14" => { start(e, &[(Attry, 3), (Small, 2), (Tiny, 1)]); for _ in 0..12 { match e.r.below(6) { 0..=3 => e.m_class(), 4 => e.q_attr(), _ => e.quiet(|e| e.m_attr()) } } }
        "C15" => { start(e, &[(Texty, 3), (Small, 2), (Form, 1), (Full, 1)]); for _ in 0..10 { match e.r.below(4) { 0 | 1 => e.m_set_text(), 2 => e.q_text(), _ => e.quiet(|e| { let k = e.r.below(3); if k == 0 { e.m_insert(false) } else if k == 1 { e.m_set_html() } else { e.m_remove() } }) } } }
        "C16" => { start(e, &ALL); for _ in 0..8 { match e.r.below(4) { 0 => e.m_set_html(), 1 | 2 => e.q_html(), _ => { e.quiet(|e| e.m_any()); e.q_html() } } } e.m_set_html_soup(); }
        "C17" => { start(e, &[(Texty, 5), (Small, 2), (Full, 1), (Form, 1), (Bushy, 2), (Wide, 1), (Deep, 1)]); for _ in 0..10 { match e.r.below(6) { 0 | 1 => e.q_texts(), 5 => e.q_tx(), 2 | 3 => e.m_text_node(), _ => e.quiet(|e| e.m_any()) } } }
        "C18" => { start(e, &MUT); for _ in 0..9 { match e.r.below(4) { 0 | 1 => e.m_clone(), 2 => e.quiet(|e| e.m_any()), _ => { if e.r.coin() { e.m_attr() } else { e.m_set_text() } } } } }
        "C19" => {
            start(e, &[(Form, 8), (Small, 1)]);
            for _ in 0..10 { match e.r.below(5) { 0 | 1 => e.q_val(), 2 => e.q_find(), 3 => e.q_filter(), _ => e.quiet(|e| { if e.r.coin() { e.m_attr() } else { e.m_any() } }) } }
        }
        "C20" => { start(e, &ALL); for _ in 0..30 { let sure = e.r.chance(1, 3); e.q_bad(sure); } if e.r.coin() { e.quiet(|e| { e.m_any(); e.m_any(); }); for _ in 0..6 { e.q_bad(false); } } }
        "C21" => { pure(e); }
        "C22" => {
            start(e, &[(Full, 8), (Small, 2), (Attry, 1)]);
            for _ in 0..14 { match e.r.below(5) { 0..=3 => e.q_doc(), _ => e.quiet(|e| e.m_any()) } }
        }
        "C23" => {
            start(e, &[(Tiny, 6), (Small, 10), (Texty, 5), (Full, 3), (Form, 3), (Bushy, 3), (Wide, 5), (Motley, 3), (Same, 3), (Deep, 1)]);
            second(e);
            let n = long(e, 7);
            for _ in 0..n {
                e.quiet(|e| e.m_any());
                for _ in 0..3 { match e.r.below(10) { 0..=2 => e.q_find(), 3 => e.q_walk(), 4 => if e.r.chance(1, 3) { e.q_trees() } else { e.q_agree() }, 5 => e.q_text(), 6 => e.q_element(), _ => e.q_around() } }
            }
        }
        "C24" => { start(e, &ALL); for _ in 0..16 { match e.r.below(8) { 0..=2 => e.q_spell(), 3 => e.q_bad(true), _ => e.q_bad(false) } } }
        "C25" => { start(e, &[(Small, 3), (Form, 1), (Attry, 1)]); for _ in 0..9 { match e.r.below(12) { 0..=3 => e.q_find(), 4 => e.q_walk(), 5 => e.m_insert(false), 6 => e.q_agree(), 7 => e.m_any(), 8 => e.q_until(), 9 => { match e.r.below(4) { 0 => e.q_html(), 1 => e.q_val(), 2 => e.q_spell(), _ => e.q_bad(false) } } 10 => e.q_closest(), _ => e.m_set_text() } } }
        "C26" => { start(e, &ALL); for _ in 0..20 { match e.r.below(3) { 0 => if e.r.coin() { e.q_by() } else { e.q_tx() }, _ => e.q_iter() } } }
        "C27" => {
            for _ in 0..3 {
                let s = style(&mut e.r, &ALL);
                e.how = e.r.below(4);
                e.doc(s);
                if e.dead { break; }
                e.q_html();
            }
            for _ in 0..3 { crate::extra::soup(e); }
        }
        _ => panic!("no profile {}", p),
    }
}
pub fn start(e: &mut Ep, v: &[(Style, usize)]) {
    let s = style(&mut e.r, v);
    let j = e.judge;
    if j == "full" { e.judge = "any"; }
    e.doc(s);
    e.judge = j;
}
/// now and then a history three times as long
fn long(e: &mut Ep, n: usize) -> usize { if e.r.chance(1, 12) { 3 * n } else { n } }
/// sometimes a second document next to the first
pub fn second(e: &mut Ep) {
    if e.r.chance(1, 3) && !e.dead {
        let ts = crate::docs::doc(&mut e.r, Tiny);
        e.quiet(|e| e.load(ts, false));
    }
}
fn void_target(e: &mut Ep) {
    // a target that cannot hold what is inserted
    let ts = vec![crate::term::Term::el("br"), crate::term::Term::el("textarea").raw("t")];
    let id = e.quiet(|e| e.load_frag(ts));
    if id == 0 || e.dead { return; }
    let kids = e.w.rec(id).c.clone();
    let x = *e.r.pick(&kids);
    let ns = { let mut s = e.pick_els(false); s.truncate(2); s };
    let pos = *e.r.pick(&["append", "prepend"]);
    e.insert_exact(pos, vec![x], ns);
}
fn root_target(e: &mut Ep) {
    // a loaded document is no place to insert at, nor an element to change
    let x = *e.r.pick(&e.w.roots.clone());
    let ns = e.pick_nodes(&[], false);
    match e.r.below(7) {
        0 => { let mut ev = e.op("replace"); ev.push(f("s", J::ids(&[x]))); ev.push(f("s2", J::ids(&ns))); e.go(ev); }
        1 => { let mut ev = e.op("remove"); ev.push(f("s", J::ids(&[x]))); e.go(ev); }
        _ => { let pos = *e.r.pick(&["append", "prepend", "before", "after"]); e.insert_exact(pos, vec![x], ns); }
    }
}
fn pure(e: &mut Ep) {
    start(e, &ALL);
    second(e);
    for _ in 0..6 {
        for _ in 0..4 {
            let k = e.r.below(14);
            let seed = e.r.next();
            // the same question twice, the store and the answer must not change
            let mut len = 0;
            for turn in 0..2 {
                let from = e.count();
                if turn == 1 { e.extra = vec![("again".to_string(), crate::json::J::n(len))]; }
                let save = std::mem::replace(&mut e.r, Rng::new(seed, 7, 7));
                let held: Vec<_> = e.held.drain(..).collect();
                match k { 0..=2 => e.q_find(), 3 => e.q_walk(), 4 => e.q_until(), 5 => e.q_agree(), 6 => e.q_in(), 7 => e.q_add(), 8 => e.q_text(), 9 => e.q_html(), 10 => e.q_attr(), 11 => e.q_val(), 12 => e.q_texts(), _ => e.q_element() }
                e.held = held;
                e.r = save;
                e.extra = vec![];
                len = e.count() - from;
            }
        }
        if e.r.coin() { e.quiet(|e| e.m_any()); }
    }
}
