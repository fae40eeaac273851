//! Generators of documents, as terms.
use crate::rng::Rng;
use crate::sel::Vocab;
use crate::term::{Term, RAW, VOID};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Style { Small, Same, Wide, Deep, Full, Form, Texty, Attry, Tiny, Bushy, Motley }

const TAGS: [&str; 8] = ["div", "p", "span", "ul", "li", "b", "h1", "section"];
const MORE: [&str; 22] = ["div", "p", "span", "ul", "li", "b", "i", "a", "em", "h1", "h2", "h3", "h4", "h5", "h6", "h7", "section", "sections", "x-item-a", "x-item-b", "x-item-a2", "x"];
const WORDS: [&str; 12] = ["the quick brown fox jumps over", "the quick brown cow jumps",  "one", "two", "x", "hello world", " ", "\n  ", "a &lt; b", "tom &amp; jerry", "\u{e9}t\u{e9}", "one two"];
const CLASSES: [&str; 13] = ["a-rather-long-name a-rather-long-nama", "a-rather-long-nam b", "a\u{c}b\r\nc", "a", "b", "a b", "b c", " a\tb ", "c\n a  b", "a:b x.y", "A", "", "b a b"];
const VALUES: [&str; 21] = ["a-rather-long-value-x", "a-rather-long-value-y z", "/some/long/path/to/a/page.html", "x", "y", "x y", "en", "en-US", "", "it's", "say \"hi\"", "a]b", "x>y", "\u{e9}", "a=b", "y-x-z", "x\ty", "&lt;", "X", "xy", "1"];

fn text(r: &mut Rng) -> Term { Term::text(r.pick(&WORDS)) }
pub fn attrs(r: &mut Rng, mut t: Term, heavy: bool) -> Term {
    let n = if heavy { 3 } else { 6 };
    if r.chance(1, n) { let i = *r.pick(&["i1", "i2", "i3", "x:y", "I1", "n_1", " i1", "i2 ", "i1 i2", "\u{c9}", "\u{e9}", "a-rather-long-id-1", "a-rather-long-id-2"]); t = t.attr("id", i); }
    if r.chance(2, n) { let c = *r.pick(&CLASSES); t = t.attr("class", c); }
    for name in ["title", "data-k", "lang", "data-m"] {
        if r.chance(1, n * 2) {
            if r.chance(1, 6) { t = t.flag(name); } else { let v = *r.pick(&VALUES); t = t.attr(name, v); }
        }
    }
    // names with more than letters and hyphens in them
    if r.chance(1, 8) {
        let name = *r.pick(&["xml:lang", "v-on:x.y", "v-on", "v-on:x", "_x", "x.y", "x", ":k", "\u{fc}n\u{ef}", "data-k2", "data_k", "data-"]);
        if r.chance(1, 4) { t = t.flag(name); } else { let v = *r.pick(&VALUES); t = t.attr(name, v); }
    }
    if r.chance(1, 40) {
        let k = 5 + r.below(8);
        let c = (0..k).map(|_| *r.pick(&["a", "b", "c", "d", "e", "f", "g", "h-i", "j_k", "l", "m", "n"])).collect::<Vec<_>>().join(" ");
        t.a.retain(|a| a.0 != "class");
        t = t.attr("class", &c);
    }
    if r.chance(1, 40) {
        for i in 0..4 + r.below(10) { let v = format!("v{}", r.below(3)); t = if r.chance(1, 5) { t.flag(&format!("data-x{}", i)) } else { t.attr(&format!("data-x{}", i), &v) }; }
    }
    if heavy { r.shuffle(&mut t.a); }
    t
}
/// put text and comments between elements
fn mix(r: &mut Rng, els: Vec<Term>, density: usize) -> Vec<Term> {
    let mut v: Vec<Term> = vec![];
    let slot = |r: &mut Rng, v: &mut Vec<Term>| {
        if r.chance(density, 10) {
            let last_text = v.last().map_or(false, |t| t.k == "text");
            if r.chance(1, 4) { let c = *r.pick(&["c", " note ", "x y"]); v.push(Term::comment(c)); }
            else if !last_text { let t = text(r); v.push(t); }
        }
    };
    slot(r, &mut v);
    for e in els { v.push(e); slot(r, &mut v); }
    v
}
fn tree(r: &mut Rng, tags: &[&str], budget: &mut i64, depth: usize, density: usize, heavy: bool) -> Term {
    *budget -= 1;
    let tag = *r.pick(tags);
    let mut t = Term::el(tag);
    t = attrs(r, t, heavy);
    if VOID.contains(&tag) { return t; }
    if RAW.contains(&tag) { let x = *r.pick(&["", "raw", "var a = 1;"]); t.x = x.into(); return t; }
    let mut kids = vec![];
    if depth > 0 {
        let n = match r.below(6) { 0 | 1 => 0, 2 => 1, 3 => 2, 4 => 3, _ => 4 };
        for _ in 0..n { if *budget > 0 { kids.push(tree(r, tags, budget, depth - 1, density, heavy)); } }
    }
    t.c = mix(r, kids, density);
    t
}
pub fn some_tags<'a>(r: &mut Rng, n: usize) -> Vec<&'a str> {
    let mut v: Vec<&str> = if r.chance(1, 5) { MORE.to_vec() } else { TAGS.to_vec() };
    r.shuffle(&mut v);
    v.truncate(n);
    v
}
pub fn forest(r: &mut Rng, size: i64, tops: usize, ntags: usize, density: usize, heavy: bool) -> Vec<Term> {
    let mut tags = some_tags(r, ntags);
    if r.chance(1, 4) { tags.push("br"); }
    if r.chance(1, 8) { let t = *r.pick(&["script", "style", "textarea", "title"]); tags.push(t); }
    let mut b = size;
    let mut els = vec![];
    for _ in 0..tops { if b > 0 { els.push(tree(r, &tags, &mut b, 4, density, heavy)); } }
    mix(r, els, density)
}
/// siblings of many kinds: some kinds once, some several times
fn motley(r: &mut Rng) -> Vec<Term> {
    let groups = 1 + r.below(3);
    let mut outer = vec![];
    for _ in 0..groups {
        let mut pool: Vec<&str> = MORE.to_vec();
        r.shuffle(&mut pool);
        let k = 2 + r.below(8);
        let mut tags = vec![];
        for t in pool.into_iter().take(k) { for _ in 0..*r.pick(&[1, 1, 1, 2, 3, 4]) { tags.push(t); } }
        match r.below(3) { 0 => {} _ => r.shuffle(&mut tags) }
        let mut els = vec![];
        for t in tags {
            let mut e = if r.chance(1, 4) { attrs(r, Term::el(t), false) } else { Term::el(t) };
            if r.chance(1, 5) { e = if r.coin() { e.kids(vec![text(r)]) } else { let t = some_tags(r, 2); e.kids(t.into_iter().map(Term::el).collect()) }; }
            els.push(e);
        }
        let d = r.below(3);
        let kids = mix(r, els, d);
        if groups == 1 && r.chance(1, 4) { return kids; }
        let t = *r.pick(&MORE);
        outer.push(Term::el(t).kids(kids));
    }
    outer
}
fn wide(r: &mut Rng) -> Vec<Term> {
    let tags = some_tags(r, 2);
    let n = 12 + r.below(28);
    let mut els = vec![];
    for _ in 0..n { let t = *r.pick(&tags); let e = attrs(r, Term::el(t), false); let c = if r.chance(1, 4) { vec![text(r)] } else { vec![] }; els.push(e.kids(c)); }
    let kids = mix(r, els, 3);
    if r.chance(1, 4) { return kids; }
    vec![Term::el("ul").kids(kids)]
}
/// many children with a few children each
fn bushy(r: &mut Rng) -> Vec<Term> {
    let tags = some_tags(r, 3);
    let n = 8 + r.below(10);
    let mut els = vec![];
    for i in 0..n {
        let t = if r.chance(3, 4) { tags[0] } else { *r.pick(&tags) };
        let mut e = if r.chance(1, 3) { attrs(r, Term::el(t), false) } else { Term::el(t) };
        if r.chance(1, 3) || i + 1 == n {
            let mut kids = vec![];
            for _ in 0..1 + r.below(2) {
                let t = *r.pick(&tags);
                let mut k = Term::el(t);
                if r.chance(1, 3) { let t = if i + 1 == n && r.coin() { "em" } else { *r.pick(&tags) }; k = k.kids(vec![Term::el(t)]); }
                kids.push(k);
            }
            e = e.kids(kids);
        } else if r.chance(1, 5) { e = e.kids(vec![text(r)]); }
        els.push(e);
    }
    let kids = mix(r, els, 2);
    if r.chance(1, 4) { return kids; }
    vec![Term::el(tags[1]).kids(kids)]
}
fn deep(r: &mut Rng) -> Vec<Term> {
    let tags = some_tags(r, 3);
    let n = 10 + r.below(16);
    let mut cur: Vec<Term> = vec![Term::text("end")];
    for _ in 0..n {
        let t = *r.pick(&tags);
        let e = attrs(r, Term::el(t), false).kids(cur);
        cur = vec![];
        if r.chance(1, 3) { cur.push(Term::el(r.pick(&tags))); }
        cur.push(e);
        if r.chance(1, 3) { cur.push(Term::el(r.pick(&tags))); }
    }
    cur
}
fn full(r: &mut Rng) -> Vec<Term> {
    let body = forest(r, 10, 3, 3, 3, true);
    let mut head = vec![];
    if r.chance(3, 4) { let t = *r.pick(&["The title", "T", ""]); head.push(Term::el("title").raw(t)); }
    if r.chance(1, 2) { head.push(Term::el("meta").attr("charset", "utf-8")); }
    if r.chance(1, 3) { head.push(Term::el("style").raw("a { b: c }")); }
    let mut html = vec![];
    if r.chance(5, 6) { html.push(Term::el("head").kids(head)); }
    if r.chance(1, 4) { html.push(Term::text("\n")); }
    if r.chance(7, 8) { html.push(attrs(r, Term::el("body"), false).kids(body)); } else { html.extend(body); }
    let mut v = vec![];
    if r.chance(1, 2) { v.push(Term { k: "other", t: String::new(), a: vec![], x: String::new(), c: vec![] }); }
    if r.chance(1, 3) { v.push(Term::comment("top")); }
    v.push(attrs(r, Term::el("html"), false).kids(html));
    v
}
pub fn form(r: &mut Rng) -> Vec<Term> {
    let mut els = vec![];
    for _ in 0..2 + r.below(4) {
        let e = match r.below(7) {
            0 => { let ty = *r.pick(&["checkbox", "checkbox", "radio", "radio", "CHECKBOX", "Radio", " checkbox ", "checkboxes", "", "text", "submit", "Submit"]); let mut t = Term::el("input").attr("type", ty); if r.chance(1, 2) { t = t.attr("value", "v1"); } if r.chance(1, 2) { t = t.flag("checked"); } t }
            1 => Term::el("textarea").raw(*r.pick(&["", "some text", "a\nb"])),
            2 => { let mut t = Term::el("button"); if r.chance(2, 3) { let ty = *r.pick(&["submit", "button", "reset"]); t = t.attr("type", ty); } t.kids(vec![Term::text("go")]) }
            3 => { let mut t = Term::el("input"); if r.chance(1, 2) { t = t.attr("value", "q"); } t }
            _ => select(r),
        };
        els.push(e);
    }
    let kids = mix(r, els, 3);
    vec![Term::el("form").kids(kids)]
}
fn option(r: &mut Rng, n: usize, none: bool) -> Term {
    let mut t = Term::el("option");
    if r.chance(3, 4) { t = t.attr("value", &format!("o{}", n)); }
    if !none && r.chance(1, 4) { if r.chance(1, 2) { t = t.flag("selected") } else { t = t.attr("selected", "selected") } }
    t.kids(vec![Term::text(&format!("Option {}", n))])
}
fn select(r: &mut Rng) -> Term {
    let mut t = Term::el("select");
    if r.chance(1, 3) { t = t.flag("multiple"); }
    let mut kids = vec![];
    let mut n = 0;
    let k = if r.chance(1, 5) { 6 + r.below(10) } else { r.below(5) };
    let none = r.chance(1, 3);
    let many = r.chance(1, 8);
    for _ in 0..if many { 12 } else { k } {
        if r.chance(if many { 9 } else { 3 }, if many { 10 } else { 9 }) {
            let mut g = vec![];
            if many { kids.push(Term::el(*r.pick(&["optgroup", "hr", "optgroup"]))); continue; }
            let most = if r.chance(1, 8) { 14 } else { 4 };
            for _ in 0..r.below(most) { n += 1; g.push(option(r, n, none)); }
            kids.push(Term::el("optgroup").attr("label", "g").kids(g));
        } else { n += 1; kids.push(option(r, n, none)); }
    }
    let kids = mix(r, kids, 2);
    t.kids(kids)
}
fn texty(r: &mut Rng) -> Vec<Term> {
    let size = 6 + r.below(6) as i64;
    forest(r, size, 2, 3, 8, false)
}
/// whitespace at the ends of a document and next to other whitespace is kept; nothing to normalise.
pub fn doc(r: &mut Rng, s: Style) -> Vec<Term> {
    let mut v = match s {
        Style::Small => { let n = 4 + r.below(10) as i64; let k = 1 + r.below(3); let d = r.below(5); let h = r.coin(); forest(r, n, k, 3, d, h) }
        Style::Tiny => { let n = 2 + r.below(5) as i64; let k = 1 + r.below(2); forest(r, n, k, 2, 3, false) }
        Style::Same => { let n = 5 + r.below(9) as i64; let d = r.below(4); forest(r, n, 2, 1, d, false) }
        Style::Wide => wide(r),
        Style::Motley => motley(r),
        Style::Deep => deep(r),
        Style::Bushy => bushy(r),
        Style::Full => full(r),
        Style::Form => form(r),
        Style::Texty => texty(r),
        Style::Attry => { let n = 4 + r.below(6) as i64; forest(r, n, 2, 3, 2, true) }
    };
    if v.is_empty() { v.push(Term::el("div")); }
    v
}
impl Rng { pub fn coin(&mut self) -> bool { self.chance(1, 2) } }
fn all_text(t: &Term) -> String {
    if t.k == "text" { return t.x.replace("&lt;", "<").replace("&amp;", "&"); }
    if t.k != "el" { return String::new(); }
    let mut s = t.x.clone();
    for c in &t.c { s.push_str(&all_text(c)); }
    s
}
/// the names and values that occur in some terms
pub fn vocab(ts: &[Term]) -> Vocab {
    let mut v = Vocab::default();
    fn go(t: &Term, v: &mut Vocab) {
        if t.k == "el" {
            if !v.tags.contains(&t.t) { v.tags.push(t.t.clone()); }
            for (n, x) in &t.a {
                let x = x.clone().unwrap_or_default();
                if n == "id" && !v.ids.contains(&x) { v.ids.push(x.clone()); }
                if n == "class" { for w in x.split_whitespace() { if !v.classes.contains(&w.to_string()) { v.classes.push(w.to_string()); } } }
                v.attrs.push((n.clone(), x));
            }
            if !t.x.is_empty() { v.texts.push(t.x.clone()); }
            else if t.c.len() > 1 { let x = all_text(t); if x.len() < 200 { v.texts.push(x); } }
        }
        if t.k == "text" { v.texts.push(t.x.replace("&lt;", "<").replace("&amp;", "&")); }
        for c in &t.c { go(c, v); }
    }
    for t in ts { go(t, &mut v); }
    v.tags.push("em".into());
    v.ids.push("none".into());
    v.classes.push("zz".into());
    v.texts.push("o".into());
    v
}
/// any text at all for set_text: the code must encode it
pub fn any_text(r: &mut Rng) -> String {
    let pool = ["a", "b c", "<b>x</b>", "a & b", "&lt;", "&amp;amp;", "\"q\"", "'q'", "\u{e9}\u{4e2d}", " ", "", "x<y", "a>b", "&copy", "&#65;", "\n", "tail &", "-->", "\u{a0}", "1 < 2 && 3 > 2"];
    let mut s = String::new();
    let k = if r.chance(1, 12) { 10 + r.below(30) } else { 1 + r.below(3) };
    for _ in 0..k { s.push_str(r.pick(&pool)); }
    s
}
/// a fragment of html for set_html and for insertion, as terms
pub fn fragment(r: &mut Rng) -> Vec<Term> {
    match r.below(10) {
        0 => vec![],
        1 => vec![text(r)],
        2 => vec![Term::comment("new")],
        3 => vec![Term::el("br")],
        4 if r.chance(1, 3) => { let n = 6 + r.below(6) as i64; let k = 2 + r.below(6); forest(r, n, k, 3, 2, false) }
        4..=7 => { let n = 1 + r.below(4) as i64; let k = 1 + r.below(2); forest(r, n, k, 2, 3, false) }
        _ => { let k = 1 + r.below(3); forest(r, 5, k, 3, 5, true) }
    }
}
