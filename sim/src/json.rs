//! Minimal JSON: enough for replay files and evidence.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i128),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub fn s<T: Into<String>>(x: T) -> J {
    J::Str(x.into())
}
pub fn n(x: u64) -> J {
    J::Int(x as i128)
}
pub fn obj(v: Vec<(&str, J)>) -> J {
    J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}
pub fn arr<T>(v: &[T], f: impl Fn(&T) -> J) -> J {
    J::Arr(v.iter().map(f).collect())
}

fn esc(x: &str, o: &mut String) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        if let J::Obj(v) = self {
            for (a, b) in v {
                if a == k {
                    return b;
                }
            }
        }
        &J::Null
    }
    pub fn u(&self) -> u64 {
        match self {
            J::Int(i) => *i as u64,
            J::Num(f) => *f as u64,
            J::Bool(b) => *b as u64,
            _ => 0,
        }
    }
    pub fn us(&self) -> usize {
        self.u() as usize
    }
    pub fn b(&self) -> bool {
        matches!(self, J::Bool(true))
    }
    pub fn st(&self) -> String {
        match self {
            J::Str(s) => s.clone(),
            _ => String::new(),
        }
    }
    pub fn a(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn dump(&self) -> String {
        let mut o = String::new();
        self.w(&mut o, 0);
        o
    }
    fn flat(&self) -> bool {
        match self {
            J::Arr(v) => v.iter().all(|x| !matches!(x, J::Arr(_) | J::Obj(_))),
            J::Obj(v) => v.len() <= 6 && v.iter().all(|(_, x)| !matches!(x, J::Obj(_)) && !matches!(x, J::Arr(a) if a.len() > 4 || !x.flat())),
            _ => true,
        }
    }
    fn w(&self, o: &mut String, ind: usize) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => o.push_str(&i.to_string()),
            J::Num(f) => o.push_str(&if f.is_finite() { format!("{:.3}", f) } else { "0".into() }),
            J::Str(x) => esc(x, o),
            J::Arr(v) => {
                let flat = self.flat();
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    if !flat {
                        o.push('\n');
                        o.push_str(&" ".repeat(ind + 1));
                    }
                    x.w(o, ind + 1);
                }
                o.push(']');
            }
            J::Obj(v) => {
                let flat = self.flat();
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    if !flat {
                        o.push('\n');
                        o.push_str(&" ".repeat(ind + 1));
                    }
                    esc(k, o);
                    o.push_str(": ");
                    x.w(o, ind + 1);
                }
                o.push('}');
            }
        }
    }
    pub fn parse(t: &str) -> Result<J, String> {
        let c: Vec<char> = t.chars().collect();
        let mut p = P { c, i: 0 };
        let v = p.val()?;
        Ok(v)
    }
}

struct P {
    c: Vec<char>,
    i: usize,
}
impl P {
    fn ws(&mut self) {
        while self.i < self.c.len() && self.c[self.i].is_whitespace() {
            self.i += 1;
        }
    }
    fn pk(&self) -> char {
        *self.c.get(self.i).unwrap_or(&'\0')
    }
    fn val(&mut self) -> Result<J, String> {
        self.ws();
        match self.pk() {
            '{' => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    self.ws();
                    if self.pk() == '}' {
                        self.i += 1;
                        return Ok(J::Obj(v));
                    }
                    let k = self.string()?;
                    self.ws();
                    if self.pk() != ':' {
                        return Err(format!("expected : at {}", self.i));
                    }
                    self.i += 1;
                    v.push((k, self.val()?));
                    self.ws();
                    if self.pk() == ',' {
                        self.i += 1;
                    }
                }
            }
            '[' => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    self.ws();
                    if self.pk() == ']' {
                        self.i += 1;
                        return Ok(J::Arr(v));
                    }
                    v.push(self.val()?);
                    self.ws();
                    if self.pk() == ',' {
                        self.i += 1;
                    }
                }
            }
            '"' => Ok(J::Str(self.string()?)),
            't' => {
                self.i += 4;
                Ok(J::Bool(true))
            }
            'f' => {
                self.i += 5;
                Ok(J::Bool(false))
            }
            'n' => {
                self.i += 4;
                Ok(J::Null)
            }
            _ => {
                let b = self.i;
                while self.i < self.c.len() && matches!(self.c[self.i], '0'..='9' | '-' | '+' | '.' | 'e' | 'E') {
                    self.i += 1;
                }
                let t: String = self.c[b..self.i].iter().collect();
                if let Ok(i) = t.parse::<i128>() {
                    return Ok(J::Int(i));
                }
                t.parse::<f64>().map(J::Num).map_err(|_| format!("bad value at {}", b))
            }
        }
    }
    fn string(&mut self) -> Result<String, String> {
        if self.pk() != '"' {
            return Err(format!("expected string at {}", self.i));
        }
        self.i += 1;
        let mut o = String::new();
        while self.i < self.c.len() {
            let c = self.c[self.i];
            self.i += 1;
            match c {
                '"' => return Ok(o),
                '\\' => {
                    let e = self.pk();
                    self.i += 1;
                    match e {
                        'n' => o.push('\n'),
                        't' => o.push('\t'),
                        'r' => o.push('\r'),
                        'b' => o.push('\u{8}'),
                        'f' => o.push('\u{c}'),
                        'u' => {
                            let h: String = self.c[self.i..(self.i + 4).min(self.c.len())].iter().collect();
                            self.i += 4;
                            o.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap_or(63)).unwrap_or('?'));
                        }
                        c => o.push(c),
                    }
                }
                c => o.push(c),
            }
        }
        Err("unterminated string".into())
    }
}

pub fn map(m: &BTreeMap<String, u64>) -> J {
    J::Obj(m.iter().map(|(k, v)| (k.clone(), n(*v))).collect())
}
