//! Selectors: their abstract syntax, concrete syntax with variations, and generators.
use crate::json::J;
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub enum Simple {
    Any,
    Tag(String),
    Id(String),
    Class(String),
    Attr(String, &'static str, String),
    Nth(&'static str, i64, i64),
    Flag(&'static str),
    Contains(String),
    Not(Sel),
    Has(Sel),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Comp { pub c: &'static str, pub m: Vec<Simple> }
pub type Group = Vec<Comp>;
pub type Sel = Vec<Group>;

pub const OPS: [&str; 8] = ["", "=", "!=", "^=", "$=", "*=", "~=", "|="];
pub const NTHS: [&str; 4] = ["nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type"];
pub const STRUCT: [&str; 6] = ["first-child", "last-child", "only-child", "first-of-type", "last-of-type", "only-of-type"];

fn o(v: Vec<(&str, J)>) -> J { J::O(v.into_iter().map(|(k, x)| (k.to_string(), x)).collect()) }
impl Simple {
    pub fn json(&self) -> J {
        match self {
            Simple::Any => o(vec![("s", J::s("any"))]),
            Simple::Tag(v) => o(vec![("s", J::s("tag")), ("v", J::s(v))]),
            Simple::Id(v) => o(vec![("s", J::s("id")), ("v", J::s(v))]),
            Simple::Class(v) => o(vec![("s", J::s("class")), ("v", J::s(v))]),
            Simple::Attr(n, op, v) => o(vec![("s", J::s("attr")), ("n", J::s(n)), ("o", J::s(op)), ("v", J::s(v))]),
            Simple::Nth(k, a, b) => o(vec![("s", J::s(k)), ("a", J::N(*a)), ("b", J::N(*b))]),
            Simple::Flag(k) => o(vec![("s", J::s(k))]),
            Simple::Contains(v) => o(vec![("s", J::s("contains")), ("v", J::s(v))]),
            Simple::Not(g) => o(vec![("s", J::s("not")), ("g", sel_json(g))]),
            Simple::Has(g) => o(vec![("s", J::s("has")), ("g", sel_json(g))]),
        }
    }
    pub fn render(&self, r: &mut Rng, out: &mut String) {
        match self {
            Simple::Any => out.push('*'),
            Simple::Tag(v) => out.push_str(v),
            Simple::Id(v) => { out.push('#'); ident(v, out) }
            Simple::Class(v) => { out.push('.'); ident(v, out) }
            Simple::Attr(n, op, v) => {
                out.push('[');
                sp(r, out);
                out.push_str(n);
                sp(r, out);
                if !op.is_empty() {
                    out.push_str(op);
                    sp(r, out);
                    let bare = !v.is_empty() && v.chars().all(|c| !c.is_whitespace() && !"]'\"<>/=`\\".contains(c));
                    if bare && r.chance(1, 3) { out.push_str(v) }
                    else if v.contains('"') || (!v.contains('\'') && r.chance(1, 2)) { out.push('\''); out.push_str(v); out.push('\''); }
                    else { out.push('"'); out.push_str(v); out.push('"'); }
                    sp(r, out);
                }
                out.push(']');
            }
            Simple::Nth(k, a, b) => {
                out.push(':');
                out.push_str(k);
                out.push('(');
                sp(r, out);
                out.push_str(&nth_text(*a, *b, r));
                sp(r, out);
                out.push(')');
            }
            Simple::Flag(k) => { out.push(':'); out.push_str(k) }
            Simple::Contains(v) => {
                out.push_str(":contains(");
                sp(r, out);
                let bare = v.chars().all(|c| !c.is_whitespace() && !")'\"<>/=`\\".contains(c));
                if bare && r.chance(1, 3) { out.push_str(v) }
                else if v.contains('"') || (!v.contains('\'') && r.chance(1, 2)) { out.push('\''); out.push_str(v); out.push('\''); }
                else { out.push('"'); out.push_str(v); out.push('"'); }
                sp(r, out);
                out.push(')');
            }
            Simple::Not(g) => { out.push_str(":not("); sp(r, out); out.push_str(&render(g, r)); sp(r, out); out.push(')') }
            Simple::Has(g) => { out.push_str(":has("); sp(r, out); out.push_str(&render(g, r)); sp(r, out); out.push(')') }
        }
    }
}
fn sp(r: &mut Rng, out: &mut String) { if r.chance(1, 5) { out.push_str(r.pick(&[" ", "  ", "\t", "\n", "\r\n", "\u{c}"])) } }
/// an identifier; characters the grammar does not allow bare are escaped
fn ident(v: &str, out: &mut String) {
    for c in v.chars() {
        if !(c.is_ascii_alphanumeric() || c == '-' || c == '_') { out.push('\\'); }
        out.push(c);
    }
}
const NTH_WS: [&str; 8] = [" ", " ", " ", "  ", "\t", "\n", "\r\n ", "\u{c}"];
fn nth_text(a: i64, b: i64, r: &mut Rng) -> String {
    if a == 2 && b == 1 && r.chance(1, 3) { return "odd".into(); }
    if a == 2 && b == 0 && r.chance(1, 3) { return "even".into(); }
    if a == 0 && r.chance(2, 3) { return if b >= 0 && r.chance(1, 4) { format!("+{}", b) } else { b.to_string() }; }
    let mut s = String::new();
    if a < 0 { s.push('-') } else if r.chance(1, 5) { s.push('+') }
    if a.abs() != 1 || r.chance(1, 3) { s.push_str(&a.abs().to_string()); }
    s.push('n');
    if b != 0 || r.chance(1, 3) {
        if r.chance(1, 3) { s.push_str(r.pick(&NTH_WS)) }
        s.push(if b < 0 { '-' } else { '+' });
        if r.chance(1, 3) { s.push_str(r.pick(&NTH_WS)) }
        s.push_str(&b.abs().to_string());
    }
    s
}
pub fn sel_json(s: &Sel) -> J {
    J::A(s.iter().map(|g| J::A(g.iter().map(|c| o(vec![("c", J::s(c.c)), ("m", J::A(c.m.iter().map(|x| x.json()).collect()))])).collect())).collect())
}
pub fn render(s: &Sel, r: &mut Rng) -> String {
    let mut out = String::new();
    for (i, g) in s.iter().enumerate() {
        if i > 0 { out.push_str(r.pick(&[",", ", ", " ,", " , ", ",\n "])); }
        for (j, c) in g.iter().enumerate() {
            if j > 0 || c.c != " " {
                match c.c {
                    " " => out.push_str(r.pick(&[" ", " ", " ", "  ", "\n", "\t ", "\r\n", "\u{c}"])),
                    x => { out.push_str(r.pick(&["", " ", " ", "  "])); out.push_str(x); out.push_str(r.pick(&["", " ", " ", "\t", "\r", "\u{c} "])); }
                }
            }
            for m in &c.m { m.render(r, &mut out); }
        }
    }
    out
}

/// names and values to draw from
#[derive(Clone, Default, Debug)]
pub struct Vocab {
    pub tags: Vec<String>,
    pub ids: Vec<String>,
    pub classes: Vec<String>,
    pub attrs: Vec<(String, String)>,
    pub texts: Vec<String>,
}
#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    /// any tag id class attr nth struct empty root contains checked header/input/submit not has
    pub w: [usize; 14],
    pub comps: usize,
    pub groups: usize,
    pub depth: usize,
    pub lead: usize,
}
pub const MIXED: Cfg = Cfg { w: [3, 8, 3, 6, 4, 4, 4, 1, 1, 1, 1, 1, 3, 2], comps: 3, groups: 2, depth: 1, lead: 0 };
pub fn gen(r: &mut Rng, v: &Vocab, c: &Cfg) -> Sel {
    let mut c = *c;
    // now and then more of everything than one would write
    match r.below(60) { 0 => c.groups += 5, 1 => c.comps += 5, 2 if c.depth > 0 => { c.depth += 2; c.w[12] += 4; c.w[13] += 4; } _ => {} }
    gen_d(r, v, &c, c.depth)
}
fn gen_d(r: &mut Rng, v: &Vocab, c: &Cfg, depth: usize) -> Sel {
    let n = if c.groups > 1 && r.chance(1, 4) { 2 + r.below(c.groups - 1) } else { 1 };
    (0..n).map(|i| gen_group(r, v, c, depth, i == 0)).collect()
}
/// a combinator can only lead the first alternative: the grammar does not take one after a comma
fn gen_group(r: &mut Rng, v: &Vocab, c: &Cfg, depth: usize, first: bool) -> Group {
    let n = match r.below(6) { 0 | 1 | 2 => 1, 3 | 4 => 2.min(c.comps), _ => 1 + r.below(c.comps) };
    (0..n).map(|i| {
        let comb = if i == 0 { if first && c.lead > 0 && depth == c.depth && r.chance(1, c.lead) { *r.pick(&[">", "+", "~"]) } else { " " } }
            else { *r.pick(&[" ", " ", ">", ">", "+", "~"]) };
        Comp { c: comb, m: gen_comp(r, v, c, depth) }
    }).collect()
}
fn gen_comp(r: &mut Rng, v: &Vocab, c: &Cfg, depth: usize) -> Vec<Simple> {
    let n = match r.below(8) { 0..=4 => 1, 5 | 6 => 2, _ if r.chance(1, 8) => 6, _ => 3 };
    let mut m: Vec<Simple> = (0..n).map(|_| gen_simple(r, v, c, depth)).collect();
    // a type selector can only come first
    let first = m.iter().position(|x| matches!(x, Simple::Tag(_) | Simple::Any));
    if let Some(i) = first {
        let x = m.remove(i);
        m.retain(|y| !matches!(y, Simple::Tag(_) | Simple::Any));
        m.insert(0, x);
    }
    m
}
fn pk(r: &mut Rng, v: &[String], d: &str) -> String { if v.is_empty() { d.to_string() } else { r.pick(v).clone() } }
pub fn gen_nth(r: &mut Rng) -> (i64, i64) {
    match r.below(12) {
        0 => (2, 1),
        1 => (2, 0),
        2..=4 => (0, r.range(0, 6)),
        5 => (0, r.range(-2, 40)),
        6 => (1, r.range(-3, 5)),
        7 | 8 => (-r.range(1, 4), r.range(-2, 9)),
        9 => (r.range(2, 5), r.range(-6, 8)),
        10 => (r.range(-12, 12), r.range(-40, 40)),
        _ => (*r.pick(&[100, -100, 3, 99999, -99999, 0]), *r.pick(&[0, 1, 7, 120, 99999, -99999])),
    }
}
pub fn part(r: &mut Rng, v: &str) -> String {
    let c: Vec<char> = v.chars().collect();
    if c.is_empty() { return String::new(); }
    let a = r.below(c.len());
    let b = a + 1 + r.below(c.len() - a);
    match r.below(4) {
        0 => c[..b].iter().collect(),
        1 => c[a..].iter().collect(),
        2 => c[a..b].iter().collect(),
        _ => v.to_string(),
    }
}
/// the same but for one character
pub fn near(r: &mut Rng, v: &str) -> String {
    let mut c: Vec<char> = v.chars().collect();
    if c.is_empty() { return String::new(); }
    let i = if r.chance(1, 2) { c.len() - 1 } else { r.below(c.len()) };
    match r.below(6) {
        0 => { c[i] = *r.pick(&['q', 'x', '-', 'Z']); }
        1 => { c.insert(i, 'q'); }
        2 => { c.remove(i); }
        3 => { c[i] = if c[i].is_ascii_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() }; }
        4 => { let l = c.len(); c.insert(if r.chance(1, 2) { 0 } else { l }, ' '); }
        _ => { let b = r.below(c.len()); c.swap(i, b); }
    }
    c.into_iter().collect()
}
pub fn ident_ok(v: &str) -> bool {
    v.chars().next().map_or(false, |c| c.is_ascii_alphabetic() || c == '_') && v.chars().all(|c| (c == ' ' || !c.is_whitespace()) && c != '\\')
}
fn gen_simple(r: &mut Rng, v: &Vocab, c: &Cfg, depth: usize) -> Simple {
    let mut w = c.w;
    if depth == 0 { w[12] = 0; w[13] = 0; }
    if w.iter().sum::<usize>() == 0 { w[1] = 1; }
    match r.weighted(&w) {
        0 => Simple::Any,
        1 => { let t = pk(r, &v.tags, "div"); Simple::Tag(if r.chance(1, 10) { t.to_ascii_uppercase() } else { t }) }
        2 => { let x = pk(r, &v.ids, "nope"); let x = if r.chance(1, 8) { near(r, &x) } else { x }; if ident_ok(&x) { Simple::Id(x) } else { Simple::Attr("id".into(), "=", safe_val(&x)) } }
        3 => { let x = pk(r, &v.classes, "zz"); let x = if r.chance(1, 8) { near(r, &x) } else { x }; if ident_ok(&x) { Simple::Class(x) } else { Simple::Attr("class".into(), "~=", safe_val(&x)) } }
        4 => {
            let (n, val) = if v.attrs.is_empty() || r.chance(1, 12) { ("nope".to_string(), "x".to_string()) } else { r.pick(&v.attrs).clone() };
            let op = *r.pick(&OPS);
            let other = if v.attrs.is_empty() { "x".to_string() } else { r.pick(&v.attrs).1.clone() };
            let val = match r.below(9) {
                0 | 1 => val,
                8 => near(r, &val),
                2..=4 => part(r, &val),
                5 => other,
                6 => { if val.contains('-') { val.split('-').next().unwrap().to_string() } else { val.split_whitespace().last().unwrap_or("").to_string() } }
                _ => String::new(),
            };
            let n = if n.starts_with('@') { "data-k".to_string() } else if r.chance(1, 6) { n.to_ascii_uppercase() } else { n };
            Simple::Attr(n, op, if op.is_empty() { String::new() } else { safe_val(&val) })
        }
        5 => { let (a, b) = gen_nth(r); Simple::Nth(r.pick(&NTHS), a, b) }
        6 => Simple::Flag(r.pick(&STRUCT)),
        7 => Simple::Flag("empty"),
        8 => Simple::Flag("root"),
        9 => { let t = pk(r, &v.texts, "x"); let t = if r.chance(1, 3) { t } else { part(r, &t) }; let t = if r.chance(1, 4) { near(r, &t) } else { t }; Simple::Contains(safe_val(&t)) }
        10 => Simple::Flag("checked"),
        11 => Simple::Flag(r.pick(&["header", "input", "submit"])),
        12 => Simple::Not(gen_d(r, v, c, depth - 1)),
        _ => Simple::Has(gen_d(r, v, c, depth - 1)),
    }
}
/// values that the quoted syntax can carry
pub fn safe_val(v: &str) -> String {
    let v: String = v.chars().filter(|c| *c != '\\' && *c != '\n' && *c != '\r').collect();
    if v.contains('"') && v.contains('\'') { v.replace('"', "") } else { v }
}

/// strings that are not selectors, whatever the reading
pub const BAD: [&str; 46] = [
    ">", "+", "~", ",", ">>", "a >", "a +", "a ~", "a >\n", "a,", ",a", "a,,b", "a, ,b", "a > > b", "a + ~ b", "a ~ , b",
    "[", "[]", "[a", "[a=", "[a=]", "[a='x]", "[a=\"x]", "[a='x'", "[=x]", "[a x]", ":", "::", ":foo", ":nth-child", ":nth-child(",
    ":nth-child()", ":nth-child(x)", ":nth-child(2n+)", ":nth-child(n2)", ":not(", ":not(a", ":has(", ":has(.", ".", "#", "..a", "##a", "a)", "@", "a{}",
];
/// a near miss: a valid selector with a character inserted, deleted, changed, or cut short
pub fn garble(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let odd = ['[', ']', '(', ')', ':', '.', '#', '>', '+', '~', ',', '*', ' ', '\\', '\'', '"', '=', 'n', '-', '1', '9', '\u{e9}', '\u{4e2d}', '\0', '|', '^', '$', '!', '{', '@'];
    for _ in 0..1 + r.below(3) {
        let i = r.below(c.len() + 1);
        match r.below(5) {
            0 => c.insert(i, *r.pick(&odd)),
            1 => { if i < c.len() { c.remove(i); } }
            2 => { if i < c.len() { c[i] = *r.pick(&odd); } }
            3 => c.truncate(i),
            _ => { let j = r.below(c.len() + 1); let (a, b) = (i.min(j), i.max(j)); let part: Vec<char> = c[a..b].to_vec(); for (k, x) in part.into_iter().enumerate() { c.insert(a + k, x); } }
        }
    }
    c.into_iter().collect()
}

/// selectors read back from json
const COMBS: [&str; 4] = [" ", ">", "+", "~"];
fn among(v: &[&'static str], x: &str) -> &'static str { v.iter().copied().find(|y| *y == x).unwrap_or_else(|| { eprintln!("no selector part {}", x); std::process::exit(3) }) }
pub fn from_json(j: &J) -> Sel {
    let g = |j: &J, k: &str| j.get(k).cloned().unwrap_or(J::Null);
    j.arr().iter().map(|gr| gr.arr().iter().map(|c| Comp {
        c: among(&COMBS, g(c, "c").str()),
        m: g(c, "m").arr().iter().map(|m| {
            let (k, v) = (g(m, "s"), g(m, "v").str().to_string());
            match k.str() {
                "any" => Simple::Any,
                "tag" => Simple::Tag(v),
                "id" => Simple::Id(v),
                "class" => Simple::Class(v),
                "attr" => Simple::Attr(g(m, "n").str().to_string(), among(&OPS, g(m, "o").str()), v),
                "contains" => Simple::Contains(v),
                "not" => Simple::Not(from_json(&g(m, "g"))),
                "has" => Simple::Has(from_json(&g(m, "g"))),
                n if n.starts_with("nth-") => Simple::Nth(among(&NTHS, n), g(m, "a").num(), g(m, "b").num()),
                f => Simple::Flag(among(&FLAGS, f)),
            }
        }).collect(),
    }).collect()).collect()
}
const FLAGS: [&str; 12] = ["first-child", "last-child", "only-child", "first-of-type", "last-of-type", "only-of-type", "empty", "root", "checked", "header", "input", "submit"];
