//! Less regular operations.
use crate::ep::*;
use crate::term::html_of;
use crate::world::kind;

fn links(r: &rphtml::parser::RefNode) -> bool {
    if kind(&r.borrow()) == "el" && r.borrow().meta.is_none() { return false; }
    let kids = r.borrow().childs.clone().unwrap_or_default();
    kids.iter().enumerate().all(|(i, k)| {
        let p = k.borrow().parent.as_ref().and_then(|p| p.upgrade());
        p.map_or(false, |p| std::rc::Rc::ptr_eq(&p, r)) && k.borrow().index == i && links(k)
    })
}
pub fn parser_sound(h: &str) -> bool {
    match rphtml::parser::Doc::parse(h, options()) { Ok(d) => links(&d.get_root_node()), Err(_) => true }
}
/// the html of some terms with a few mistakes in it
pub fn garbled(e: &mut Ep, ts: &[crate::term::Term]) -> String {
    let h = html_of(ts, Some(&mut e.r));
    let mut c: Vec<char> = h.chars().collect();
    let n = 1 + e.r.below(4);
    for _ in 0..n {
        if c.is_empty() { break; }
        let i = e.r.below(c.len());
        match e.r.below(6) {
            0 => c.truncate(i),
            1 => { c.remove(i); }
            2 => { let j = (i + 1 + e.r.below(6)).min(c.len()); c.drain(i..j); }
            3 => { let x = *e.r.pick(&['<', '>', '/', '"', '\'', '=', '&', ' ', '!', '-', 'a']); c.insert(i, x); }
            4 => { for (k, x) in e.r.pick(&["</p>", "<b>", "<", "</", "<!--", "&lt", "</div><p>", "<a b=", "<1>"]).chars().enumerate() { c.insert(i + k, x); } }
            _ => { let j = e.r.below(c.len()); c.swap(i, j); }
        }
    }
    c.into_iter().collect()
}
/// html that is not well formed: loading must not fail, whatever the tree is
pub fn soup(e: &mut Ep) {
    let s = crate::profiles::style(&mut e.r, &crate::profiles::ALL);
    let ts = crate::docs::doc(&mut e.r, s);
    let h = garbled(e, &ts);
    // the parser alone (a dependency) loses the parent of a text made of an unescaped '<', and makes elements
    // with no name that it cannot print: not this code's doing
    if !parser_sound(&h) { return; }
    if e.load_html(h, None, true) == 0 {
        // refused, which the trace says: go on with another one
        e.dead = false;
        return;
    }
    if e.dead { return; }
    // the names in such a tree can be anything: only the shape of the answers is judged
    let j = std::mem::replace(&mut e.judge, "order");
    for _ in 0..4 { e.q_find(); }
    e.q_walk();
    e.judge = j;
}
