/// A small JSON reader and writer.
#[derive(Clone, Debug, PartialEq)]
pub enum J { Null, B(bool), N(i64), S(String), A(Vec<J>), O(Vec<(String, J)>) }
pub fn quote(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}
impl J {
    pub fn s(v: &str) -> J { J::S(v.to_string()) }
    pub fn n(v: usize) -> J { J::N(v as i64) }
    pub fn ids(v: &[usize]) -> J { J::A(v.iter().map(|x| J::n(*x)).collect()) }
    pub fn write(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::N(n) => out.push_str(&n.to_string()),
            J::S(s) => quote(s, out),
            J::A(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 { out.push(','); }
                    x.write(out);
                }
                out.push(']');
            }
            J::O(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { out.push(','); }
                    quote(k, out);
                    out.push(':');
                    x.write(out);
                }
                out.push('}');
            }
        }
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        if let J::O(v) = self { v.iter().find(|(n, _)| n == k).map(|x| &x.1) } else { None }
    }
    pub fn arr(&self) -> &[J] { if let J::A(v) = self { v } else { &[] } }
    pub fn str(&self) -> &str { if let J::S(v) = self { v } else { "" } }
    pub fn num(&self) -> i64 { match self { J::N(n) => *n, J::B(true) => 1, _ => 0 } }
    pub fn id_list(&self) -> Vec<usize> { self.arr().iter().map(|x| x.num() as usize).collect() }
    pub fn parse(s: &str) -> J {
        let c: Vec<char> = s.chars().collect();
        let mut i = 0;
        val(&c, &mut i)
    }
}
fn ws(c: &[char], i: &mut usize) { while *i < c.len() && c[*i].is_whitespace() { *i += 1; } }
fn val(c: &[char], i: &mut usize) -> J {
    ws(c, i);
    match c[*i] {
        '{' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(c, i);
                if c[*i] == '}' { *i += 1; return J::O(v); }
                if c[*i] == ',' { *i += 1; continue; }
                let k = val(c, i);
                ws(c, i);
                *i += 1;
                let x = val(c, i);
                v.push((k.str().to_string(), x));
            }
        }
        '[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(c, i);
                if c[*i] == ']' { *i += 1; return J::A(v); }
                if c[*i] == ',' { *i += 1; continue; }
                v.push(val(c, i));
            }
        }
        '"' => {
            *i += 1;
            let mut s = String::new();
            while c[*i] != '"' {
                if c[*i] == '\\' {
                    *i += 1;
                    match c[*i] {
                        'n' => s.push('\n'),
                        'r' => s.push('\r'),
                        't' => s.push('\t'),
                        'u' => {
                            let h: String = c[*i + 1..*i + 5].iter().collect();
                            s.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap_or('?'));
                            *i += 4;
                        }
                        x => s.push(x),
                    }
                } else {
                    s.push(c[*i]);
                }
                *i += 1;
            }
            *i += 1;
            J::S(s)
        }
        't' => { *i += 4; J::B(true) }
        'f' => { *i += 5; J::B(false) }
        'n' => { *i += 4; J::Null }
        _ => {
            let st = *i;
            while *i < c.len() && (c[*i] == '-' || c[*i].is_ascii_digit()) { *i += 1; }
            J::N(c[st..*i].iter().collect::<String>().parse().unwrap())
        }
    }
}
