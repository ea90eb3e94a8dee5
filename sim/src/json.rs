//! A small JSON value, parser and printer (no dependencies; objects keep insertion order).
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    U64(u64),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl From<&str> for J {
    fn from(s: &str) -> J {
        J::Str(s.to_string())
    }
}
impl From<String> for J {
    fn from(s: String) -> J {
        J::Str(s)
    }
}
impl From<i64> for J {
    fn from(x: i64) -> J {
        J::Int(x)
    }
}
impl From<usize> for J {
    fn from(x: usize) -> J {
        J::Int(x as i64)
    }
}
impl From<u32> for J {
    fn from(x: u32) -> J {
        J::Int(x as i64)
    }
}
impl From<i32> for J {
    fn from(x: i32) -> J {
        J::Int(x as i64)
    }
}
impl From<u64> for J {
    fn from(x: u64) -> J {
        if x <= i64::MAX as u64 {
            J::Int(x as i64)
        } else {
            J::U64(x)
        }
    }
}
impl From<f64> for J {
    fn from(x: f64) -> J {
        J::Num(x)
    }
}
impl From<bool> for J {
    fn from(x: bool) -> J {
        J::Bool(x)
    }
}
impl<T: Into<J>> From<Vec<T>> for J {
    fn from(x: Vec<T>) -> J {
        J::Arr(x.into_iter().map(Into::into).collect())
    }
}

#[macro_export]
macro_rules! obj {
    ($($k:expr => $v:expr),* $(,)?) => {
        $crate::json::J::Obj(vec![$(($k.to_string(), $crate::json::J::from($v))),*])
    };
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(a, _)| a == k).map(|(_, b)| b),
            _ => None,
        }
    }
    pub fn set(&mut self, k: &str, val: J) {
        if let J::Obj(v) = self {
            if let Some(e) = v.iter_mut().find(|(a, _)| a == k) {
                e.1 = val;
            } else {
                v.push((k.to_string(), val));
            }
        }
    }
    pub fn remove(&mut self, k: &str) {
        if let J::Obj(v) = self {
            v.retain(|(x, _)| x != k);
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn int(&self) -> Option<i64> {
        match self {
            J::Int(x) => Some(*x),
            J::U64(x) => Some(*x as i64),
            J::Num(x) => Some(*x as i64),
            _ => None,
        }
    }
    pub fn u64(&self) -> Option<u64> {
        match self {
            J::Int(x) => Some(*x as u64),
            J::U64(x) => Some(*x),
            _ => None,
        }
    }
    pub fn bool(&self) -> Option<bool> {
        match self {
            J::Bool(b) => Some(*b),
            _ => None,
        }
    }
    pub fn arr(&self) -> Option<&[J]> {
        match self {
            J::Arr(v) => Some(v),
            _ => None,
        }
    }
    pub fn gs(&self, k: &str) -> String {
        self.get(k).and_then(|x| x.str()).unwrap_or("").to_string()
    }
    pub fn gi(&self, k: &str) -> i64 {
        self.get(k).and_then(|x| x.int()).unwrap_or(0)
    }
    pub fn gu(&self, k: &str) -> u64 {
        self.get(k).and_then(|x| x.u64()).unwrap_or(0)
    }
    pub fn gb(&self, k: &str) -> bool {
        self.get(k).and_then(|x| x.bool()).unwrap_or(false)
    }
    pub fn ga(&self, k: &str) -> Vec<J> {
        self.get(k).and_then(|x| x.arr()).unwrap_or(&[]).to_vec()
    }
    pub fn dump(&self) -> String {
        let mut s = String::new();
        self.write(&mut s, None, 0);
        s
    }
    pub fn pretty(&self) -> String {
        let mut s = String::new();
        self.write(&mut s, Some(1), 0);
        s
    }
    fn write(&self, o: &mut String, ind: Option<usize>, lvl: usize) {
        let nl = |o: &mut String, l: usize| {
            if let Some(n) = ind {
                o.push('\n');
                for _ in 0..l * n {
                    o.push(' ');
                }
            }
        };
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(x) => write!(o, "{}", x).unwrap(),
            J::U64(x) => write!(o, "{}", x).unwrap(),
            J::Num(x) => {
                if x.is_finite() {
                    write!(o, "{}", x).unwrap()
                } else {
                    o.push_str("null")
                }
            }
            J::Str(s) => write_str(o, s),
            J::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    nl(o, lvl + 1);
                    x.write(o, ind, lvl + 1);
                }
                if !v.is_empty() {
                    nl(o, lvl);
                }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    nl(o, lvl + 1);
                    write_str(o, k);
                    o.push(':');
                    if ind.is_some() {
                        o.push(' ');
                    }
                    x.write(o, ind, lvl + 1);
                }
                if !v.is_empty() {
                    nl(o, lvl);
                }
                o.push('}');
            }
        }
    }
    pub fn parse(s: &str) -> Result<J, String> {
        let c: Vec<char> = s.chars().collect();
        let mut p = P { c: &c, i: 0 };
        let v = p.value(0)?;
        p.ws();
        if p.i != c.len() {
            return Err(format!("trailing characters at {}", p.i));
        }
        Ok(v)
    }
}

fn write_str(o: &mut String, s: &str) {
    o.push('"');
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
}

struct P<'a> {
    c: &'a [char],
    i: usize,
}
impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.c.len() && matches!(self.c[self.i], ' ' | '\n' | '\r' | '\t') {
            self.i += 1;
        }
    }
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn lit(&mut self, s: &str, v: J) -> Result<J, String> {
        for ch in s.chars() {
            if self.peek() != Some(ch) {
                return Err(format!("bad literal at {}", self.i));
            }
            self.i += 1;
        }
        Ok(v)
    }
    fn value(&mut self, depth: usize) -> Result<J, String> {
        if depth > 200 {
            return Err("too deep".into());
        }
        self.ws();
        match self.peek() {
            None => Err("eof".into()),
            Some('n') => self.lit("null", J::Null),
            Some('t') => self.lit("true", J::Bool(true)),
            Some('f') => self.lit("false", J::Bool(false)),
            Some('"') => Ok(J::Str(self.string()?)),
            Some('[') => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == Some(']') {
                    self.i += 1;
                    return Ok(J::Arr(v));
                }
                loop {
                    v.push(self.value(depth + 1)?);
                    self.ws();
                    match self.peek() {
                        Some(',') => self.i += 1,
                        Some(']') => {
                            self.i += 1;
                            return Ok(J::Arr(v));
                        }
                        _ => return Err(format!("array at {}", self.i)),
                    }
                }
            }
            Some('{') => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == Some('}') {
                    self.i += 1;
                    return Ok(J::Obj(v));
                }
                loop {
                    self.ws();
                    if self.peek() != Some('"') {
                        return Err(format!("key at {}", self.i));
                    }
                    let k = self.string()?;
                    self.ws();
                    if self.peek() != Some(':') {
                        return Err(format!("colon at {}", self.i));
                    }
                    self.i += 1;
                    let x = self.value(depth + 1)?;
                    v.push((k, x));
                    self.ws();
                    match self.peek() {
                        Some(',') => self.i += 1,
                        Some('}') => {
                            self.i += 1;
                            return Ok(J::Obj(v));
                        }
                        _ => return Err(format!("object at {}", self.i)),
                    }
                }
            }
            Some(_) => {
                let st = self.i;
                while let Some(ch) = self.peek() {
                    if ch.is_ascii_digit() || matches!(ch, '-' | '+' | '.' | 'e' | 'E') {
                        self.i += 1;
                    } else {
                        break;
                    }
                }
                let t: String = self.c[st..self.i].iter().collect();
                if let Ok(x) = t.parse::<i64>() {
                    return Ok(J::Int(x));
                }
                if let Ok(x) = t.parse::<u64>() {
                    return Ok(J::U64(x));
                }
                t.parse::<f64>().map(J::Num).map_err(|e| format!("number {:?}: {}", t, e))
            }
        }
    }
    fn hex4(&mut self) -> Result<u32, String> {
        let mut x = 0;
        for _ in 0..4 {
            let d = self.peek().and_then(|c| c.to_digit(16)).ok_or("bad \\u")?;
            x = x * 16 + d;
            self.i += 1;
        }
        Ok(x)
    }
    fn string(&mut self) -> Result<String, String> {
        self.i += 1;
        let mut s = String::new();
        loop {
            match self.peek() {
                None => return Err("unterminated string".into()),
                Some('"') => {
                    self.i += 1;
                    return Ok(s);
                }
                Some('\\') => {
                    self.i += 1;
                    let e = self.peek().ok_or("eof in escape")?;
                    self.i += 1;
                    match e {
                        'n' => s.push('\n'),
                        'r' => s.push('\r'),
                        't' => s.push('\t'),
                        'b' => s.push('\u{8}'),
                        'f' => s.push('\u{c}'),
                        '"' | '\\' | '/' => s.push(e),
                        'u' => {
                            let mut x = self.hex4()?;
                            if (0xd800..0xdc00).contains(&x) && self.peek() == Some('\\') {
                                self.i += 2;
                                let y = self.hex4()?;
                                x = 0x10000 + ((x - 0xd800) << 10) + (y.wrapping_sub(0xdc00) & 0x3ff);
                            }
                            s.push(char::from_u32(x).unwrap_or('\u{fffd}'));
                        }
                        _ => return Err("bad escape".into()),
                    }
                }
                Some(c) if (c as u32) < 0x20 => return Err("control character in string".into()),
                Some(c) => {
                    s.push(c);
                    self.i += 1;
                }
            }
        }
    }
}
