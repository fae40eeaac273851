//! The observed state: every node the run has seen, numbered from 1, and a
//! projection of the real tree (read from the node fields, not through the
//! code under test) onto the store of spec/Dom.tla.
use crate::json::{quote, J};
use crate::term::Term;
use rphtml::parser::{Node, NodeType, RefNode};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;
use visdom::types::{BoxDynElement, Elements};

pub type Els = Elements<'static>;
pub type El = BoxDynElement<'static>;

pub fn node_of(e: &BoxDynElement) -> RefNode {
    let any = e.cloned().to_node();
    *any.downcast::<RefNode>().expect("a node")
}
pub fn boxed(n: &RefNode) -> El { Box::new(Rc::clone(n)) }

#[derive(Clone, Default, PartialEq)]
pub struct Rec {
    pub k: &'static str,
    pub t: String,
    pub a: Vec<(String, Option<String>)>,
    pub x: String,
    pub p: usize,
    pub c: Vec<usize>,
    pub i: usize,
}

#[derive(Default)]
pub struct World {
    pub nodes: Vec<RefNode>,
    ids: HashMap<*const RefCell<Node>, usize>,
    pub roots: Vec<usize>,
    pub loaded: Vec<Els>,
    /// loaded pieces of html, kept so that the document they belong to lives on
    pub frags: Vec<(usize, Els)>,
    pub recs: Vec<Rec>,
    pub last: String,
    pub errs: Rc<Cell<usize>>,
}

pub fn kind(n: &Node) -> &'static str {
    match n.node_type {
        NodeType::AbstractRoot => "root",
        NodeType::Tag => "el",
        NodeType::Text | NodeType::SpacesBetweenTag => "text",
        NodeType::Comment => "comment",
        _ => "other",
    }
}
pub fn tag_of(n: &Node) -> String {
    n.meta.as_ref().map_or(String::new(), |m| m.borrow().name.iter().collect::<String>().to_ascii_lowercase())
}
pub fn attrs_of(n: &Node) -> Vec<(String, Option<String>)> {
    let mut v = vec![];
    if let Some(m) = &n.meta {
        let m = m.borrow();
        for (i, a) in m.attrs.iter().enumerate() {
            if let Some(k) = &a.key {
                let name = k.content.iter().collect::<String>().to_ascii_lowercase();
                if m.lc_name_map.get(&name) == Some(&i) {
                    v.push((name, a.value.as_ref().map(|x| x.content.iter().collect::<String>())));
                }
            }
        }
    }
    v
}
pub fn text_of(n: &Node) -> String {
    match n.node_type {
        NodeType::Text | NodeType::SpacesBetweenTag | NodeType::Comment | NodeType::Tag => {
            n.content.as_ref().map_or(String::new(), |c| c.iter().collect())
        }
        _ => String::new(),
    }
}
/// the tree under a node as a term, read from the node fields
pub fn term_of(r: &RefNode) -> Term {
    let n = r.borrow();
    Term {
        k: kind(&n),
        t: if kind(&n) == "other" { String::new() } else { tag_of(&n) },
        a: if kind(&n) == "other" { vec![] } else { attrs_of(&n) },
        x: text_of(&n),
        c: n.childs.as_ref().map_or(vec![], |c| c.iter().map(term_of).collect()),
    }
}

impl World {
    pub fn id(&mut self, r: &RefNode) -> usize {
        let p = Rc::as_ptr(r);
        if let Some(i) = self.ids.get(&p) { return *i; }
        self.nodes.push(Rc::clone(r));
        self.ids.insert(p, self.nodes.len());
        self.nodes.len()
    }
    pub fn known(&self, r: &RefNode) -> bool { self.ids.contains_key(&Rc::as_ptr(r)) }
    pub fn node(&self, id: usize) -> &RefNode { &self.nodes[id - 1] }
    pub fn el(&self, id: usize) -> El { boxed(self.node(id)) }
    pub fn set(&self, ids: &[usize]) -> Els {
        // one element: also the way a user gets from an element to a set
        if ids.len() == 1 && ids[0] % 2 == 0 { return visdom::Vis::dom(&self.el(ids[0])); }
        Elements::with_nodes(ids.iter().map(|i| self.el(*i)).collect())
    }
    pub fn ids_of(&mut self, s: &Elements) -> Vec<usize> {
        let ns: Vec<RefNode> = s.get_ref().iter().map(node_of).collect();
        ns.iter().map(|n| self.id(n)).collect()
    }
    /// number the nodes under a new top in document order
    pub fn number(&mut self, r: &RefNode) {
        let new = !self.known(r);
        self.id(r);
        if new {
            let kids: Vec<RefNode> = r.borrow().childs.clone().unwrap_or_default();
            for k in &kids { self.number(k); }
        }
    }
    /// project the whole state; true if it differs from the one before
    pub fn observe(&mut self) -> bool {
        let mut recs: Vec<Rec> = vec![];
        let mut i = 0;
        while i < self.nodes.len() {
            let r = Rc::clone(&self.nodes[i]);
            let kids: Vec<RefNode> = r.borrow().childs.clone().unwrap_or_default();
            for k in &kids { self.number(k); }
            let parent = r.borrow().parent.as_ref().and_then(|p| p.upgrade());
            let n = r.borrow();
            recs.push(Rec {
                k: kind(&n),
                t: if kind(&n) == "other" { String::new() } else { tag_of(&n) },
                a: if kind(&n) == "other" { vec![] } else { attrs_of(&n) },
                x: text_of(&n),
                p: parent.map_or(0, |p| self.id(&p)),
                c: kids.iter().map(|k| self.id(k)).collect(),
                i: n.index,
            });
            i += 1;
        }
        self.recs = recs;
        let s = self.json();
        if s != self.last { self.last = s; true } else { false }
    }
    pub fn json(&self) -> String {
        let mut o = String::from("[");
        for (n, r) in self.recs.iter().enumerate() {
            if n > 0 { o.push(','); }
            o.push_str("{\"k\":\"");
            o.push_str(r.k);
            o.push_str("\",\"t\":");
            quote(&r.t, &mut o);
            o.push_str(",\"a\":");
            crate::term::attrs_json(&r.a).write(&mut o);
            o.push_str(",\"x\":");
            quote(&r.x, &mut o);
            o.push_str(&format!(",\"p\":{},\"i\":{},\"c\":", r.p, r.i));
            J::ids(&r.c).write(&mut o);
            o.push('}');
        }
        o.push(']');
        o
    }
    /// is the tree sound enough to go on driving it (the specification judges, this only stops the episode)
    pub fn sound(&self) -> bool {
        for (n, r) in self.recs.iter().enumerate() {
            let id = n + 1;
            for c in &r.c { if self.recs[*c - 1].p != id { return false; } }
            if r.p != 0 && self.recs[r.p - 1].c.iter().filter(|x| **x == id).count() != 1 { return false; }
            let mut up = r.p;
            let mut k = 0;
            while up != 0 {
                k += 1;
                if k > self.recs.len() { return false; }
                up = self.recs[up - 1].p;
            }
        }
        true
    }
    pub fn rec(&self, id: usize) -> &Rec { &self.recs[id - 1] }
    pub fn pre(&self, id: usize) -> Vec<usize> {
        let mut v = vec![id];
        for c in &self.rec(id).c { v.extend(self.pre(*c)); }
        v
    }
    pub fn top(&self, id: usize) -> usize { let p = self.rec(id).p; if p == 0 { id } else { self.top(p) } }
    pub fn tops(&self) -> Vec<usize> { (1..=self.recs.len()).filter(|i| self.rec(*i).p == 0).collect() }
    pub fn is_el(&self, id: usize) -> bool { id != 0 && self.rec(id).k == "el" }
    pub fn els_under(&self, id: usize) -> Vec<usize> { self.pre(id).into_iter().filter(|i| self.is_el(*i)).collect() }
}
