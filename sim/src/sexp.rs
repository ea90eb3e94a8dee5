//! S-expressions (SMT-LIB lexical syntax): parser, printer, helpers.
use std::fmt;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum S {
    /// Symbol, keyword, numeral ... kept verbatim (quoted symbols keep their bars).
    A(String),
    /// String literal: raw text between the quotes, with "" already turned into ".
    Str(String),
    L(Vec<S>),
}

pub fn a(s: impl Into<String>) -> S {
    S::A(s.into())
}
pub fn l(v: Vec<S>) -> S {
    S::L(v)
}
/// `app("and", [x, y])` = (and x y)
pub fn app(h: &str, args: impl IntoIterator<Item = S>) -> S {
    let mut v = vec![a(h)];
    v.extend(args);
    S::L(v)
}

impl fmt::Display for S {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            S::A(s) => f.write_str(s),
            S::Str(s) => write!(f, "\"{}\"", s.replace('"', "\"\"")),
            S::L(v) => {
                f.write_str("(")?;
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        f.write_str(" ")?;
                    }
                    x.fmt(f)?;
                }
                f.write_str(")")
            }
        }
    }
}

impl S {
    pub fn atom(&self) -> Option<&str> {
        match self {
            S::A(s) => Some(s),
            _ => None,
        }
    }
    pub fn list(&self) -> Option<&[S]> {
        match self {
            S::L(v) => Some(v),
            _ => None,
        }
    }
    pub fn head(&self) -> Option<&str> {
        self.list().and_then(|v| v.first()).and_then(|x| x.atom())
    }
    pub fn is(&self, s: &str) -> bool {
        self.atom() == Some(s)
    }
    pub fn size(&self) -> usize {
        match self {
            S::L(v) => 1 + v.iter().map(|x| x.size()).sum::<usize>(),
            _ => 1,
        }
    }
}

/// Symbol text with |bars| removed (|x| and x are the same symbol).
pub fn unbar(s: &str) -> &str {
    if s.len() >= 2 && s.starts_with('|') && s.ends_with('|') {
        &s[1..s.len() - 1]
    } else {
        s
    }
}

pub fn parse_all(t: &str) -> Result<Vec<S>, String> {
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    let mut stack: Vec<Vec<S>> = vec![vec![]];
    while i < c.len() {
        match c[i] {
            ';' => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            x if x.is_whitespace() => i += 1,
            '(' => {
                stack.push(vec![]);
                i += 1;
            }
            ')' => {
                let v = stack.pop().unwrap();
                match stack.last_mut() {
                    Some(p) => p.push(S::L(v)),
                    None => return Err(format!("unexpected ')' at {}", i)),
                }
                i += 1;
            }
            '"' => {
                let mut s = String::new();
                i += 1;
                loop {
                    if i >= c.len() {
                        return Err("unterminated string".into());
                    }
                    if c[i] == '"' {
                        if c.get(i + 1) == Some(&'"') {
                            s.push('"');
                            i += 2;
                            continue;
                        }
                        i += 1;
                        break;
                    }
                    s.push(c[i]);
                    i += 1;
                }
                stack.last_mut().unwrap().push(S::Str(s));
            }
            '|' => {
                let st = i;
                i += 1;
                while i < c.len() && c[i] != '|' {
                    i += 1;
                }
                if i >= c.len() {
                    return Err("unterminated quoted symbol".into());
                }
                i += 1;
                stack.last_mut().unwrap().push(S::A(c[st..i].iter().collect()));
            }
            _ => {
                let st = i;
                while i < c.len() && !c[i].is_whitespace() && !matches!(c[i], '(' | ')' | '"' | ';' | '|') {
                    i += 1;
                }
                stack.last_mut().unwrap().push(S::A(c[st..i].iter().collect()));
            }
        }
    }
    if stack.len() != 1 {
        return Err("unbalanced parentheses".into());
    }
    Ok(stack.pop().unwrap())
}

pub fn print_all(v: &[S]) -> String {
    let mut s = String::new();
    for x in v {
        s.push_str(&x.to_string());
        s.push('\n');
    }
    s
}
