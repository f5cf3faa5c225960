//! A JSON tree of our own (ordered objects, free choice of layout and escapes): the reference the
//! code under test is compared with.
use simkit::Sim;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

struct P<'a>(&'a [u8], usize);
impl P<'_> {
    fn ws(&mut self) {
        while self.1 < self.0.len() && matches!(self.0[self.1], b' ' | b'\t' | b'\n' | b'\r') {
            self.1 += 1;
        }
    }
    fn string(&mut self) -> Option<String> {
        // canonical or damaged text: leave escapes to serde_json's own string parser
        let start = self.1;
        if self.0.get(self.1) != Some(&b'"') {
            return None;
        }
        self.1 += 1;
        loop {
            match self.0.get(self.1)? {
                b'"' => break,
                b'\\' => self.1 += 2,
                _ => self.1 += 1,
            }
        }
        self.1 += 1;
        serde_json::from_slice(&self.0[start..self.1]).ok()
    }
    fn value(&mut self) -> Option<J> {
        self.ws();
        let r = match *self.0.get(self.1)? {
            b'"' => J::Str(self.string()?),
            b'{' => {
                self.1 += 1;
                let mut v = vec![];
                self.ws();
                if self.0.get(self.1) == Some(&b'}') {
                    self.1 += 1;
                    return Some(J::Obj(v));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    if self.0.get(self.1) != Some(&b':') {
                        return None;
                    }
                    self.1 += 1;
                    v.push((k, self.value()?));
                    self.ws();
                    match self.0.get(self.1)? {
                        b',' => self.1 += 1,
                        b'}' => break,
                        _ => return None,
                    }
                }
                self.1 += 1;
                J::Obj(v)
            }
            b'[' => {
                self.1 += 1;
                let mut v = vec![];
                self.ws();
                if self.0.get(self.1) == Some(&b']') {
                    self.1 += 1;
                    return Some(J::Arr(v));
                }
                loop {
                    v.push(self.value()?);
                    self.ws();
                    match self.0.get(self.1)? {
                        b',' => self.1 += 1,
                        b']' => break,
                        _ => return None,
                    }
                }
                self.1 += 1;
                J::Arr(v)
            }
            _ => {
                let start = self.1;
                while self.1 < self.0.len() &&
                    !matches!(self.0[self.1], b',' | b']' | b'}' | b' ' | b'\n' | b'\t' | b'\r')
                {
                    self.1 += 1;
                }
                match std::str::from_utf8(&self.0[start..self.1]).ok()? {
                    "null" => J::Null,
                    "true" => J::Bool(true),
                    "false" => J::Bool(false),
                    n if !n.is_empty() => J::Num(n.into()),
                    _ => return None,
                }
            }
        };
        Some(r)
    }
}

impl J {
    pub fn parse(s: &str) -> Option<J> {
        let mut p = P(s.as_bytes(), 0);
        let v = p.value()?;
        p.ws();
        (p.1 == s.len()).then_some(v)
    }
    pub fn compact(&self) -> String {
        let mut s = String::new();
        self.write(&mut s, &mut Plain);
        s
    }
    pub fn styled(&self, sim: &mut Sim, st: &Style) -> String {
        let mut s = String::new();
        let mut st = Styled { sim, st };
        self.write(&mut s, &mut st);
        s
    }
    fn write(&self, o: &mut String, st: &mut dyn Layout) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => o.push_str(n),
            J::Str(s) => st.string(o, s),
            J::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    st.gap(o);
                    x.write(o, st);
                    st.gap(o);
                }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (i, j) in st.order(v.len()).into_iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    st.gap(o);
                    st.string(o, &v[j].0);
                    st.gap(o);
                    o.push(':');
                    st.gap(o);
                    v[j].1.write(o, st);
                    st.gap(o);
                }
                o.push('}');
            }
        }
    }
    /// number of leaves
    pub fn size(&self) -> usize {
        match self {
            J::Arr(v) => 1 + v.iter().map(|x| x.size()).sum::<usize>(),
            J::Obj(v) => 1 + v.iter().map(|x| x.1.size()).sum::<usize>(),
            _ => 1,
        }
    }
    /// every path to a node, with the name of the closest object key
    pub fn walk(&self, path: &mut Vec<usize>, key: &str, f: &mut dyn FnMut(&[usize], &str, &J)) {
        f(path, key, self);
        match self {
            J::Arr(v) => {
                for (i, x) in v.iter().enumerate() {
                    path.push(i);
                    x.walk(path, key, f);
                    path.pop();
                }
            }
            J::Obj(v) => {
                for (i, (k, x)) in v.iter().enumerate() {
                    path.push(i);
                    x.walk(path, k, f);
                    path.pop();
                }
            }
            _ => {}
        }
    }
    pub fn at(&mut self, path: &[usize]) -> &mut J {
        match path.split_first() {
            None => self,
            Some((i, rest)) => match self {
                J::Arr(v) => v[*i].at(rest),
                J::Obj(v) => v[*i].1.at(rest),
                _ => unreachable!(),
            },
        }
    }
    /// does `self` hold all that `part` holds? (objects may have more keys; order is free)
    pub fn covers(&self, part: &J) -> bool {
        match (self, part) {
            (J::Obj(a), J::Obj(b)) => b.iter().all(|(k, v)| {
                // a repeated key leaves the reader a choice
                let mut hits = a.iter().filter(|(k2, _)| k2 == k).peekable();
                // an absent optional value may be written as null
                hits.peek().is_none() && *v == J::Null || hits.any(|(_, x)| x.covers(v))
            }),
            (J::Arr(a), J::Arr(b)) => {
                a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.covers(y))
            }
            (J::Str(a), J::Str(b)) => a == b || lenient(a) == lenient(b),
            // a number may be taken for the quoted number and the other way round
            (J::Num(a), J::Str(b)) | (J::Str(a), J::Num(b)) => lenient(a) == lenient(b),
            (J::Num(a), J::Num(b)) => {
                a == b || matches!((a.parse::<f64>(), b.parse::<f64>()), (Ok(x), Ok(y)) if x == y)
            }
            _ => self == part,
        }
    }
}

/// spellings that can only mean one value: hex digits of either case, with or without the prefix;
/// integers with leading zeros or a plus sign
fn lenient(s: &str) -> String {
    if !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit()) || s.starts_with('+') {
        let t = s.strip_prefix('+').unwrap_or(s);
        if !t.is_empty() && t.bytes().all(|c| c.is_ascii_digit()) {
            let u = t.trim_start_matches('0');
            // a bare run of decimal digits may also be hex without prefix
            return if u.is_empty() { "0".into() } else { u.into() };
        }
    }
    let h = s.strip_prefix("0x").unwrap_or(s);
    if h.len() % 2 == 0 && h.bytes().all(|c| c.is_ascii_hexdigit()) {
        let l = h.to_ascii_lowercase();
        if l.bytes().all(|c| c.is_ascii_digit()) {
            let u = l.trim_start_matches('0');
            return if u.is_empty() { "0".into() } else { u.into() };
        }
        return format!("0x{l}");
    }
    s.to_string()
}

trait Layout {
    fn gap(&mut self, _o: &mut String) {}
    fn order(&mut self, n: usize) -> Vec<usize> {
        (0..n).collect()
    }
    fn string(&mut self, o: &mut String, s: &str) {
        o.push('"');
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
                c => o.push(c),
            }
        }
        o.push('"');
    }
}
struct Plain;
impl Layout for Plain {}

#[derive(Default, Clone, Debug)]
pub struct Style {
    pub gaps: bool,
    pub escapes: bool,
    pub reorder: bool,
}
struct Styled<'a> {
    sim: &'a mut Sim,
    st: &'a Style,
}
impl Layout for Styled<'_> {
    fn gap(&mut self, o: &mut String) {
        if self.st.gaps && self.sim.chance(1, 6) {
            o.push(*self.sim.pick(&[' ', '\n', '\t', '\r']));
        }
    }
    fn order(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        if self.st.reorder && self.sim.chance(1, 2) {
            self.sim.shuffle(&mut v);
        }
        v
    }
    fn string(&mut self, o: &mut String, s: &str) {
        if self.st.escapes && self.sim.chance(1, 4) && !s.is_empty() {
            // write one or all characters as \u escapes
            let all = self.sim.chance(1, 3) && s.len() < 200;
            let n = s.chars().count() as u64;
            let one = self.sim.choose(n) as usize;
            o.push('"');
            for (i, c) in s.chars().enumerate() {
                if (all || i == one || c == '"' || c == '\\' || (c as u32) < 0x20) &&
                    (c as u32) < 0x10000
                {
                    o.push_str(&format!("\\u{:04x}", c as u32));
                } else {
                    o.push(c);
                }
            }
            o.push('"');
        } else {
            Plain.string(o, s)
        }
    }
}
