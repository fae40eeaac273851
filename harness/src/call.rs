//! Events to calls: does what an event says on the real code and reports what came back.
use crate::ep::*;
use crate::json::J;
use crate::world::*;
use rphtml::parser::RefNode;
use std::cell::RefCell;
use std::rc::Rc;
use visdom::types::{BoxDynElement, BoxDynText, Combinator, Elements, IEnumTyped, INodeType, Texts};
use visdom::Vis;

fn strs(v: &[String]) -> J { J::A(v.iter().map(|x| J::s(x)).collect()) }
fn set_out(e: &mut Ep, s: &Elements) -> Fields { let ids = e.w.ids_of(s); vec![f("r", J::ids(&ids))] }
fn one_out(e: &mut Ep, n: Option<RefNode>) -> Fields { let ids: Vec<usize> = n.iter().map(|n| e.w.id(n)).collect(); vec![f("r", J::ids(&ids))] }
fn ids_of(e: &mut Ep, ns: &[RefNode]) -> Vec<usize> { ns.iter().map(|n| e.w.id(n)).collect() }
fn outers(a: &Els) -> (String, J) { f("hs", J::A(a.map(|_, x| terms_j(&parse(&x.outer_html()))))) }
pub const PROBES: [&str; 9] = ["a", "b", "c", "d", "A", "a:b", "zz", "b-c", "x.y"];

pub fn call(e: &mut Ep, ev: &J) -> Fields {
    let nul = J::Null;
    let g = |k: &str| ev.get(k).unwrap_or(&nul);
    let ids = |k: &str| g(k).id_list();
    let num = |k: &str| g(k).num() as usize;
    let op = g("op").str();
    let (s, s2, t, nm) = (ids("s"), ids("s2"), g("str").str(), g("nm").str());
    match op {
        "load" => {
            if g("fresh").num() == 1 { let errs = e.w.errs.clone(); e.w = World::default(); e.w.errs = errs; e.held.clear(); }
            e.root_was = 0;
            let errs = e.w.errs.clone();
            let counted = errs.clone();
            let catch = Box::new(move |_| counted.set(counted.get() + 1));
            // without a handler a refusal is the result itself
            let or_err = |r: Result<Els, visdom::types::BoxDynError>| r.unwrap_or_else(|_| { errs.set(errs.get() + 1); Els::new() });
            let els: Els = match num("how") {
                1 => or_err(Vis::load(t.to_string())),
                2 => or_err(Vis::load_options(t.to_string(), options())),
                3 => Vis::load_options_catch(t.to_string(), options(), catch),
                _ => Vis::load_catch(t.to_string(), catch),
            };
            if els.length() == 0 { return vec![f("root", J::N(0))]; }
            let n = node_of(els.get(0).unwrap());
            e.w.number(&n);
            let id = e.w.id(&n);
            e.w.roots.push(id);
            e.w.loaded.push(els);
            e.root_was = id;
            vec![f("root", J::n(id))]
        }
        "is" | "is_all" => {
            let b = e.with_set(&s, |x| if op == "is" { x.is(t) } else { x.is_all(t) });
            let mut out = vec![f("b", J::B(b))];
            if ev.get("bad").is_some() { out.push(f("r", J::A(vec![]))); }
            out
        }
        "find" | "children" | "prev" | "prev_all" | "next" | "next_all" | "siblings" | "parent" | "parents" | "closest" | "filter" | "not" | "has" => {
            let r = e.with_set(&s, |x| match op {
                "find" => x.find(t),
                "children" => x.children(t),
                "prev" => x.prev(t),
                "prev_all" => x.prev_all(t),
                "next" => x.next(t),
                "next_all" => x.next_all(t),
                "siblings" => x.siblings(t),
                "parent" => x.parent(t),
                "parents" => x.parents(t),
                "closest" => x.closest(t),
                "filter" => x.filter(t),
                "not" => x.not(t),
                _ => x.has(t),
            });
            let ids = e.w.ids_of(&r);
            let n = r.length();
            e.hold(r, ids.clone());
            let mut out = vec![f("r", J::ids(&ids)), f("n", J::n(n))];
            if ev.get("bad").is_some() { out.push(f("b", J::B(false))); }
            out
        }
        "prev_until" | "next_until" | "parents_until" => {
            let (t2, inc) = (g("fstr").str(), g("inc").num() == 1);
            let r = e.with_set(&s, |x| match op {
                "prev_until" => x.prev_until(t, t2, inc),
                "next_until" => x.next_until(t, t2, inc),
                _ => x.parents_until(t, t2, inc),
            });
            let ids = e.w.ids_of(&r);
            let mut out = vec![f("r", J::ids(&ids)), f("n", J::n(r.length()))];
            if ev.get("bad").is_some() { out.push(f("b", J::B(false))); }
            out
        }
        "filter_in" | "not_in" | "has_in" | "is_in" | "is_all_in" => {
            let b = e.make(&s2);
            let a = e.make(&s);
            match op {
                "is_in" => vec![f("b", J::B(a.is_in(&b)))],
                "is_all_in" => vec![f("b", J::B(a.is_all_in(&b)))],
                "filter_in" => set_out(e, &a.filter_in(&b)),
                "not_in" => set_out(e, &a.not_in(&b)),
                _ => set_out(e, &a.has_in(&b)),
            }
        }
        "add" => {
            let b = e.make(&s2);
            let a = e.make(&s);
            let r = a.add(b);
            let ids = e.w.ids_of(&r);
            e.hold(r, ids.clone());
            vec![f("r", J::ids(&ids))]
        }
        "eq" | "get" | "first" | "last" | "slice" | "length" => {
            let (a, b, kind) = if op == "slice" { (num("ra"), num("rb"), num("kind")) } else { (num("a"), 0, 0) };
            let ns: Vec<RefNode> = e.with_set(&s, |x| {
                use std::ops::Bound::*;
                let r = match op {
                    "eq" => x.eq(a),
                    "first" => x.first(),
                    "last" => x.last(),
                    "get" => return x.get(a).map_or(vec![], |e| vec![node_of(e)]),
                    "length" => x.cloned(),
                    _ => match kind {
                        0 => x.slice(a..b),
                        1 => x.slice(a..),
                        2 => x.slice(..b),
                        3 => x.slice(..),
                        4 => x.slice(a..=b),
                        5 => x.slice(..=b),
                        _ => x.slice((Excluded(a), Excluded(b))),
                    },
                };
                r.get_ref().iter().map(node_of).collect()
            });
            let r = ids_of(e, &ns);
            let (n, em) = e.with_set(&s, |x| (x.length(), x.is_empty()));
            vec![f("r", J::ids(&r)), f("n", J::n(n)), f("b", J::B(em))]
        }
        "contains" => {
            let comb = match g("c").str() { " " => Combinator::ChildrenAll, ">" => Combinator::Children, "+" => Combinator::Next, "~" => Combinator::NextAll, _ => Combinator::Chain };
            let el = e.w.el(num("x"));
            vec![f("b", J::B(e.make(&s).contains(&el, &comb)))]
        }
        "filter_by" | "not_by" | "is_by" | "is_all_by" => {
            let a = e.make(&s);
            let wn: Vec<RefNode> = s2.iter().map(|i| Rc::clone(e.w.node(*i))).collect();
            let seen: RefCell<Vec<(usize, RefNode)>> = RefCell::new(vec![]);
            let h = |i: usize, el: &BoxDynElement| {
                let n = node_of(el);
                let hit = wn.iter().any(|x| Rc::ptr_eq(x, &n));
                seen.borrow_mut().push((i, n));
                hit
            };
            let mut out = match op {
                "filter_by" => set_out(e, &a.filter_by(h)),
                "not_by" => set_out(e, &a.not_by(h)),
                "is_by" => vec![f("b", J::B(a.is_by(h)))],
                _ => vec![f("b", J::B(a.is_all_by(h)))],
            };
            let seen = seen.into_inner();
            out.push(f("at", J::ids(&seen.iter().map(|x| x.0).collect::<Vec<_>>())));
            let ids: Vec<usize> = seen.iter().map(|x| e.w.id(&x.1)).collect();
            out.push(f("seen", J::ids(&ids)));
            out
        }
        "for_each" | "each" | "map" | "into_iter" | "get_ref" => {
            let stop = num("a");
            let mut a = e.make(&s);
            let mut seen: Vec<(usize, RefNode)> = vec![];
            let mut left: Vec<RefNode> = vec![];
            match op {
                "for_each" => { a.for_each(|i, el| { seen.push((i, node_of(el))); i != stop }); left = a.get_ref().iter().map(node_of).collect(); }
                "each" => { a.each(|i, el| { seen.push((i, node_of(el))); i != stop }); left = a.get_ref().iter().map(node_of).collect(); }
                "map" => seen = a.map(|i, el| (i, node_of(el))),
                "into_iter" => seen = a.into_iter().enumerate().map(|(i, el)| (i, node_of(&el))).collect(),
                _ => seen = a.get_ref().iter().enumerate().map(|(i, el)| (i, node_of(el))).collect(),
            }
            let ids: Vec<usize> = seen.iter().map(|x| e.w.id(&x.1)).collect();
            let mut out = vec![f("at", J::ids(&seen.iter().map(|x| x.0).collect::<Vec<_>>())), f("seen", J::ids(&ids))];
            if op == "for_each" || op == "each" { let l = ids_of(e, &left); out.push(f("r", J::ids(&l))); }
            out
        }
        "text" => {
            let a = e.make(&s);
            let each: Vec<String> = a.map(|_, x| x.text());
            vec![f("src", J::A(a.map(|_, x| J::S(x.text_chars().iter().collect::<String>())))), f("t", J::S(a.text())), f("each", strs(&each))]
        }
        "html" | "outer_html" | "htmls" | "outer_htmls" => {
            let a = e.make(&s);
            let first = a.get(0).filter(|_| num("lvl") == 1).map(|x| match (op, num("a")) { ("html", 0) => Some(x.html()), ("html", _) => Some(x.inner_html()), ("outer_html", _) => Some(x.outer_html()), _ => None });
            let t = if let Some(Some(t)) = first { t } else { match op { "html" => a.html(), "outer_html" => a.outer_html(), "htmls" => a.htmls(), _ => a.outer_htmls() } };
            let ts = parse(&t);
            vec![f("t", J::S(t)), f("ts", terms_j(&ts))]
        }
        "attr" => {
            let v = e.make(&s).attr(nm);
            let mut out = vec![f("v", attr_j(&v))];
            if let Some(v) = &v {
                out.push(f("t", J::S(v.to_string())));
                out.push(f("b", J::B(v.is_true())));
                out.push(f("ws", J::A(v.to_list().iter().map(|x| J::s(x)).collect())));
                out.push(f("eq", J::B(v.is_str(&v.to_string()))));
            }
            out
        }
        "has_attr" => vec![f("b", J::B(e.make(&s).has_attr(nm)))],
        "has_class" => vec![f("b", J::B(e.make(&s).has_class(nm)))],
        "get_attributes" => {
            let v = e.make(&s).get(0).map_or(vec![], |x| x.get_attributes());
            vec![f("v", J::A(v.into_iter().map(|(k, v)| { let a = attr_j(&Some(v)); J::A(vec![J::S(k), a.arr()[0].clone(), a.arr()[1].clone()]) }).collect()))]
        }
        "val" => {
            let a = e.make(&s);
            let v = a.val();
            let t = v.to_string();
            let it: Vec<J> = a.val().into_iter().map(J::S).collect();
            let each: Vec<J> = a.map(|_, x| form_j(x.value()));
            vec![f("v", form_j(v)), f("t", J::S(t)), f("each", J::A(each)), f("it", J::A(it))]
        }
        "texts" | "texts_by" | "texts_by_rec" => {
            let lim = num("a");
            let a = e.make(&s);
            let seen: Rc<RefCell<Vec<(usize, RefNode)>>> = Rc::new(RefCell::new(vec![]));
            let se = seen.clone();
            let h: Box<dyn Fn(usize, &BoxDynText) -> bool> = Box::new(move |d, t| { se.borrow_mut().push((d, text_node(t))); !t.text().trim_matches(|c| " \t\n\r\x0c".contains(c)).is_empty() });
            let st = nm.to_string();
            let one = a.get(0).filter(|_| num("lvl") == 1 && s.len() == 1);
            let t: Texts = match op {
                _ if one.is_some() => {
                    let x = one.unwrap();
                    let o = match op { "texts" => x.texts(lim), "texts_by" => x.texts_by(lim, &h), _ => x.texts_by_rec(lim, &h, &|x: &BoxDynElement| x.tag_name() != st.to_ascii_uppercase()) };
                    o.unwrap_or_else(|| Texts::with_capacity(0))
                }
                "texts" => a.texts(lim),
                "texts_by" => a.texts_by(lim, h),
                _ => a.texts_by_rec(lim, h, Box::new(move |x| x.tag_name() != st.to_ascii_uppercase())),
            };
            let (n, em) = (t.length(), t.is_empty());
            let ns: Vec<RefNode> = t.get_ref().iter().map(text_node).collect();
            let r = ids_of(e, &ns);
            let tx: Vec<J> = t.get_ref().iter().map(|x| J::S(x.text())).collect();
            let seen = seen.borrow();
            let at: Vec<usize> = seen.iter().map(|x| x.0).collect();
            let sid: Vec<usize> = seen.iter().map(|x| e.w.id(&x.1)).collect();
            vec![f("r", J::ids(&r)), f("n", J::n(n)), f("b", J::B(em)), f("tx", J::A(tx)), f("at", J::ids(&at)), f("seen", J::ids(&sid))]
        }
        // iterating over text nodes
        "tx_for_each" | "tx_each" | "tx_into_iter" | "tx_filter_by" | "tx_get_ref" => {
            let stop = num("a");
            let mut t = e.make(&s).texts(0);
            let mut seen: Vec<(usize, RefNode)> = vec![];
            let mut left: Vec<RefNode> = vec![];
            match op {
                "tx_for_each" => { t.for_each(|i, x| { seen.push((i, text_node(x))); i != stop }); left = t.get_ref().iter().map(text_node).collect(); }
                "tx_each" => { t.each(|i, x| { seen.push((i, text_node(x))); i != stop }); left = t.get_ref().iter().map(text_node).collect(); }
                "tx_into_iter" => seen = t.into_iter().enumerate().map(|(i, x)| (i, text_node(&x))).collect(),
                "tx_filter_by" => {
                    let got = RefCell::new(vec![]);
                    let r = t.filter_by(|i, x| { got.borrow_mut().push((i, text_node(x))); i % 2 == stop % 2 });
                    left = r.get_ref().iter().map(text_node).collect();
                    seen = got.into_inner();
                }
                _ => seen = t.get_mut_ref().iter().enumerate().map(|(i, x)| (i, text_node(x))).collect(),
            }
            let (ids, l) = (ids_of(e, &seen.iter().map(|x| x.1.clone()).collect::<Vec<_>>()), ids_of(e, &left));
            vec![f("at", J::ids(&seen.iter().map(|x| x.0).collect::<Vec<_>>())), f("seen", J::ids(&ids)), f("r", J::ids(&l))]
        }
        "title" | "head" | "body" | "document_element" | "get_element_by_id" | "get_root_node" | "root_element" | "owner_document" | "source_code" => {
            let (root, via) = (num("x"), g("via").num() == 1);
            let el = e.w.el(num("y"));
            let i = e.w.roots.iter().position(|r| *r == root).expect("a loaded document");
            let home = std::mem::take(&mut e.w.loaded[i]);
            let got: Result<Option<RefNode>, Fields> = (|| {
                let d = if via { home.document() } else { el.owner_document() };
                let d = match d { Some(d) => d, None => return Err(vec![f("r", J::A(vec![])), f("miss", J::N(1))]) };
                Ok(match op {
                    "head" => d.head().map(|x| node_of(&x)),
                    "body" => d.body().map(|x| node_of(&x)),
                    "document_element" => d.document_element().map(|x| node_of(&x)),
                    "get_element_by_id" => d.get_element_by_id(nm).map(|x| node_of(&x)),
                    "root_element" => el.root_element().map(|x| node_of(&x)),
                    "get_root_node" | "owner_document" => Some(*d.get_root_node().to_node().downcast::<RefNode>().unwrap()),
                    "title" => { let t = d.title(); return Err(vec![f("v", J::A(t.into_iter().map(J::S).collect())), f("miss", J::N(0))]); }
                    _ => { let t = d.source_code(); let ts = parse(&t); return Err(vec![f("t", J::S(t)), f("ts", terms_j(&ts)), f("miss", J::N(0))]); }
                })
            })();
            e.w.loaded[i] = home;
            match got { Ok(o) => { let mut v = one_out(e, o); v.push(f("miss", J::N(0))); v } Err(v) => v }
        }
        "e_next" => { let n = e.w.el(num("x")).next_element_sibling().map(|x| node_of(&x)); one_out(e, n) }
        "e_prev" => { let n = e.w.el(num("x")).previous_element_sibling().map(|x| node_of(&x)); one_out(e, n) }
        "e_parent" => { let n = e.w.el(num("x")).parent().map(|x| node_of(&x)); one_out(e, n) }
        "e_nexts" => { let r = e.w.el(num("x")).next_element_siblings(); set_out(e, &r) }
        "e_prevs" => { let r = e.w.el(num("x")).previous_element_siblings(); set_out(e, &r) }
        "e_siblings" => { let r = e.w.el(num("x")).siblings(); set_out(e, &r) }
        "e_children" => { let r = e.w.el(num("x")).children(); set_out(e, &r) }
        "e_child_nodes" => {
            let el = e.w.el(num("x"));
            let ns: Vec<RefNode> = el.child_nodes().into_iter().map(|n| *n.to_node().downcast::<RefNode>().unwrap()).collect();
            let r = ids_of(e, &ns);
            vec![f("r", J::ids(&r)), f("n", J::n(el.child_nodes_length()))]
        }
        "e_child_item" => { let n = e.w.el(num("x")).child_nodes_item(num("a")).map(|n| *n.to_node().downcast::<RefNode>().unwrap()); one_out(e, n) }
        "e_children_by" => {
            let mut ns: Vec<RefNode> = vec![];
            e.w.el(num("x")).children_by(Box::new(|c| ns.push(node_of(&c.cloned()))));
            let r = ids_of(e, &ns);
            vec![f("r", J::ids(&r))]
        }
        "e_since" => {
            // the elements from a position on, forwards or backwards, until the function has enough
            let (from, rev, enough) = (num("a"), g("inc").num() == 1, num("ra"));
            let mut ns: Vec<RefNode> = vec![];
            e.w.el(num("x")).child_nodes_item_since_by(from, rev, Box::new(|c| { ns.push(node_of(&c.cloned())); ns.len() < enough }));
            let r = ids_of(e, &ns);
            vec![f("r", J::ids(&r))]
        }
        "e_index" => vec![f("n", J::n(e.w.el(num("x")).index()))],
        "e_tag_name" => vec![f("t", J::S(e.w.el(num("x")).tag_name()))],
        "e_is" => { let el = e.w.el(num("x")); vec![f("b", J::B(el.is(&e.w.el(num("y"))))), f("b2", J::B(el.is_root_element()))] }
        "e_has_attr" => { let el = e.w.el(num("x")); vec![f("b", J::B(el.has_attribute(nm))), f("v", attr_j(&el.get_attribute(nm)))] }
        "e_text" => { let el = e.w.el(num("x")); vec![f("t", J::S(el.text())), f("t2", J::S(el.text_content()))] }
        "e_type" => {
            let kinds: Vec<J> = e.w.el(num("x")).child_nodes().into_iter().map(|n| {
                let k = match n.node_type() { INodeType::Element => "el", INodeType::Text => "text", INodeType::Comment => "comment", _ => "other" };
                let t = match n.clone_node().typed() { IEnumTyped::Element(_) => "el", IEnumTyped::Text(_) => "text", _ => "comment" };
                let i = if n.clone_node().typed().into_element().is_some() { "el" } else if n.clone_node().typed().into_text().is_some() { "text" } else { "comment" };
                J::A(vec![J::s(k), J::s(t), J::s(i)])
            }).collect();
            vec![f("v", J::A(kinds))]
        }
        // ------------------------------------------------------ mutations
        "insert" => {
            let mut b = e.make(&s2);
            let mut a = e.make(&s);
            match (g("pos").str(), g("rev").num() == 1) {
                ("append", false) => { a.append(&mut b); }
                ("append", true) => { b.append_to(&mut a); }
                ("prepend", false) => { a.prepend(&mut b); }
                ("prepend", true) => { b.prepend_to(&mut a); }
                ("before", false) => { a.before(&mut b); }
                ("before", true) => { b.insert_before(&mut a); }
                ("after", false) => { a.after(&mut b); }
                _ => { b.insert_after(&mut a); }
            }
            vec![]
        }
        "replace" => {
            if num("lvl") == 1 && s.len() == 1 && s2.len() == 1 { let y = e.w.el(s2[0]); e.w.el(s[0]).replace_with(&y); return vec![]; }
            let mut b = e.make(&s2);
            let mut a = e.make(&s);
            a.replace_with(&mut b);
            vec![]
        }
        "remove" => {
            if num("lvl") == 1 { for i in &s { if let Some(mut p) = e.w.el(*i).parent() { p.remove_child(e.w.el(*i)); } } return vec![]; }
            let a = e.make(&s);
            a.remove();
            vec![]
        }
        "e_remove_child" => { let y = e.w.el(num("y")); e.w.el(num("x")).remove_child(y); vec![] }
        "empty" => { let mut a = e.make(&s); a.empty(); vec![] }
        "set_text" => {
            let mut a = e.make(&s);
            if num("lvl") == 1 { a.for_each(|_, x| { x.set_text(t); true }); } else { a.set_text(t); }
            let each: Vec<String> = a.map(|_, x| x.text());
            vec![f("each", strs(&each)), outers(&a)]
        }
        "set_html" => { 
            let mut a = e.make(&s);
            if num("lvl") == 1 { a.for_each(|_, x| { x.set_html(t); true }); } else { a.set_html(t); }
            if g("soup").num() == 1 { vec![] } else { vec![outers(&a)] }
        }
        "set_attr" => {
            let mut a = e.make(&s);
            let v = if g("h").num() == 0 { None } else { Some(t) };
            if num("lvl") == 1 { a.for_each(|_, x| { x.set_attribute(nm, v); true }); } else { a.set_attr(nm, v); }
            let vs: Vec<J> = a.map(|_, x| attr_j(&x.get_attribute(nm)));
            vec![outers(&a), f("vs", J::A(vs))]
        }
        "remove_attr" => { 
            let mut a = e.make(&s);
            if num("lvl") == 1 { a.for_each(|_, x| { x.remove_attribute(nm); true }); } else { a.remove_attr(nm); }
            vec![outers(&a)]
        }
        "add_class" | "remove_class" | "toggle_class" => {
            let mut a = e.make(&s);
            match op { "add_class" => { a.add_class(t); } "remove_class" => { a.remove_class(t); } _ => { a.toggle_class(t); } }
            let has: Vec<J> = (0..s.len()).map(|i| { let o = a.eq(i); J::A(PROBES.iter().filter(|p| o.has_class(p)).map(|p| J::s(p)).collect()) }).collect();
            vec![f("has", J::A(has)), f("probes", J::A(PROBES.iter().map(|p| J::s(p)).collect()))]
        }
        "t_set_text" | "t_append" | "t_prepend" | "t_set_html" | "t_remove" => {
            let all = e.w.set(&ids("from")).texts(num("lim"));
            let ns: Vec<RefNode> = s.iter().map(|i| Rc::clone(e.w.node(*i))).collect();
            if op == "t_remove" && g("via").num() == 1 && s.len() > 1 {
                all.filter_by(|_, x| { let n = text_node(x); ns.iter().any(|y| Rc::ptr_eq(y, &n)) }).remove();
                return vec![];
            }
            let mut texts: Vec<BoxDynText> = vec![];
            for n in &ns {
                if let Some(t) = all.get_ref().iter().find(|x| Rc::ptr_eq(&text_node(x), n)) {
                    let c: BoxDynText = Box::new(text_node(t));
                    texts.push(c);
                }
            }
            for mut x in texts {
                match op {
                    "t_set_text" => x.set_text(t),
                    "t_append" => x.append_text(t),
                    "t_prepend" => x.prepend_text(t),
                    "t_set_html" => x.set_html(t),
                    _ => x.remove(),
                }
            }
            vec![]
        }
        "copy" => {
            let n: RefNode = match num("via") {
                1 => node_of(&e.w.el(num("x")).copied()),
                2 => { let c = e.make(&[num("x")]).clone(); node_of(c.get(0).unwrap()) }
                3 => { let r = e.w.rec(num("x")).clone(); let n = e.w.el(r.p).child_nodes_item(r.i).unwrap(); *n.copy_node().to_node().downcast::<RefNode>().unwrap() }
                _ => *e.w.el(num("x")).copy_node().to_node().downcast::<RefNode>().unwrap(),
            };
            let was = e.w.known(&n);
            e.w.number(&n);
            let id = e.w.id(&n);
            vec![f("r", J::ids(&[id])), f("b", J::B(was))]
        }
        _ => { eprintln!("no operation {}", op); std::process::exit(3) }
    }
}
