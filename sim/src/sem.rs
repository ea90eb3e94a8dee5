//! The meaning of string terms under an assignment (SMT-LIB Unicode strings), used to plant models.
use crate::sexp::S;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    S(Vec<char>),
    I(i64),
    B(bool),
}
pub type Env = BTreeMap<String, V>;

fn st(t: &S, e: &Env) -> Option<Vec<char>> {
    match ev(t, e)? {
        V::S(s) => Some(s),
        _ => None,
    }
}
fn it(t: &S, e: &Env) -> Option<i64> {
    match ev(t, e)? {
        V::I(s) => Some(s),
        _ => None,
    }
}
fn bt(t: &S, e: &Env) -> Option<bool> {
    match ev(t, e)? {
        V::B(s) => Some(s),
        _ => None,
    }
}
fn find(s: &[char], p: &[char], from: usize) -> Option<usize> {
    (from..=s.len()).find(|&i| s[i..].starts_with(p))
}
pub fn ev(t: &S, e: &Env) -> Option<V> {
    match t {
        S::Str(s) => return Some(V::S(s.chars().collect())),
        S::A(x) => {
            return match x.as_str() {
                "true" => Some(V::B(true)),
                "false" => Some(V::B(false)),
                _ => x.parse::<i64>().ok().map(V::I).or_else(|| e.get(x).cloned()),
            }
        }
        _ => {}
    }
    let l = t.list()?;
    let a = &l[1..];
    let all = || a.iter().map(|x| ev(x, e)).collect::<Option<Vec<V>>>();
    Some(match t.head()? {
        "=" => V::B(all()?.windows(2).all(|w| w[0] == w[1])),
        "distinct" => {
            let v = all()?;
            V::B((0..v.len()).all(|i| v[i + 1..].iter().all(|x| *x != v[i])))
        }
        "not" => V::B(!bt(&a[0], e)?),
        "and" => V::B(a.iter().map(|x| bt(x, e)).collect::<Option<Vec<_>>>()?.into_iter().all(|b| b)),
        "or" => V::B(a.iter().map(|x| bt(x, e)).collect::<Option<Vec<_>>>()?.into_iter().any(|b| b)),
        "xor" => V::B(bt(&a[0], e)? ^ bt(&a[1], e)?),
        "=>" => V::B(!bt(&a[0], e)? || bt(&a[1], e)?),
        "ite" => return if bt(&a[0], e)? { ev(&a[1], e) } else { ev(&a[2], e) },
        "<" => V::B(it(&a[0], e)? < it(&a[1], e)?),
        "<=" => V::B(it(&a[0], e)? <= it(&a[1], e)?),
        ">" => V::B(it(&a[0], e)? > it(&a[1], e)?),
        ">=" => V::B(it(&a[0], e)? >= it(&a[1], e)?),
        "+" => V::I(it(&a[0], e)? + it(&a[1], e)?),
        "-" if a.len() == 1 => V::I(-it(&a[0], e)?),
        "-" => V::I(it(&a[0], e)? - it(&a[1], e)?),
        "str.len" => V::I(st(&a[0], e)?.len() as i64),
        "str.++" => V::S(a.iter().map(|x| st(x, e)).collect::<Option<Vec<_>>>()?.concat()),
        "str.prefixof" => V::B(st(&a[1], e)?.starts_with(&st(&a[0], e)?)),
        "str.suffixof" => V::B(st(&a[1], e)?.ends_with(&st(&a[0], e)?)),
        "str.contains" => V::B(find(&st(&a[0], e)?, &st(&a[1], e)?, 0).is_some()),
        "str.<" => V::B(st(&a[0], e)? < st(&a[1], e)?),
        "str.<=" => V::B(st(&a[0], e)? <= st(&a[1], e)?),
        "str.is_digit" => {
            let s = st(&a[0], e)?;
            V::B(s.len() == 1 && s[0].is_ascii_digit())
        }
        "str.to_int" => {
            let s = st(&a[0], e)?;
            if s.is_empty() || !s.iter().all(|c| c.is_ascii_digit()) {
                V::I(-1)
            } else {
                V::I(s.iter().collect::<String>().parse().ok()?)
            }
        }
        "str.from_int" => {
            let n = it(&a[0], e)?;
            V::S(if n < 0 { vec![] } else { n.to_string().chars().collect() })
        }
        "str.to_code" => {
            let s = st(&a[0], e)?;
            V::I(if s.len() == 1 { s[0] as i64 } else { -1 })
        }
        "str.from_code" => {
            let n = it(&a[0], e)?;
            V::S(if (0..0xd800).contains(&n) { vec![char::from_u32(n as u32)?] } else if n < 0 { vec![] } else { return None })
        }
        "str.at" => {
            let (s, i) = (st(&a[0], e)?, it(&a[1], e)?);
            V::S(if i >= 0 && (i as usize) < s.len() { vec![s[i as usize]] } else { vec![] })
        }
        "str.substr" => {
            let (s, i, n) = (st(&a[0], e)?, it(&a[1], e)?, it(&a[2], e)?);
            V::S(if i < 0 || i as usize >= s.len() || n <= 0 { vec![] } else { s[i as usize..(i + n).min(s.len() as i64) as usize].to_vec() })
        }
        "str.indexof" => {
            let (s, p, i) = (st(&a[0], e)?, st(&a[1], e)?, it(&a[2], e)?);
            V::I(if i < 0 || i as usize > s.len() { -1 } else { find(&s, &p, i as usize).map_or(-1, |k| k as i64) })
        }
        "str.replace" => {
            let (s, p, q) = (st(&a[0], e)?, st(&a[1], e)?, st(&a[2], e)?);
            V::S(match find(&s, &p, 0) {
                Some(k) => [&s[..k], &q[..], &s[k + p.len()..]].concat(),
                None => s,
            })
        }
        "str.replace_all" => {
            let (s, p, q) = (st(&a[0], e)?, st(&a[1], e)?, st(&a[2], e)?);
            if p.is_empty() {
                return Some(V::S(s));
            }
            let (mut out, mut i) = (vec![], 0);
            while let Some(k) = find(&s, &p, i) {
                out.extend_from_slice(&s[i..k]);
                out.extend_from_slice(&q);
                i = k + p.len();
            }
            out.extend_from_slice(&s[i..]);
            V::S(out)
        }
        "str.in_re" => V::B(matches(&a[1], &st(&a[0], e)?, e)?),
        _ => return None,
    })
}
/// Whether a regular expression matches a (short) string.
pub fn matches(r: &S, s: &[char], e: &Env) -> Option<bool> {
    let n = s.len();
    let rep = |x: &S, lo: usize, hi: Option<usize>| -> Option<bool> {
        // the set of positions reachable after k repetitions
        let mut m = vec![vec![false; n + 1]; n + 1];
        for i in 0..=n {
            for j in i..=n {
                m[i][j] = matches(x, &s[i..j], e)?;
            }
        }
        let mut at = vec![false; n + 1];
        at[0] = true;
        for k in 0..=hi.unwrap_or(lo + n + 1) {
            if k >= lo && at[n] {
                return Some(true);
            }
            let mut next = vec![false; n + 1];
            for i in 0..=n {
                for j in i..=n {
                    next[j] |= at[i] && m[i][j];
                }
            }
            at = next;
        }
        Some(false)
    };
    if let S::A(x) = r {
        return match x.as_str() {
            "re.all" => Some(true),
            "re.none" => Some(false),
            "re.allchar" => Some(n == 1),
            _ => None,
        };
    }
    let l = r.list()?;
    let a = &l[1..];
    let all = || a.iter().map(|x| matches(x, s, e)).collect::<Option<Vec<bool>>>();
    if let Some(ix) = l[0].list() {
        let k = |i: usize| ix.get(i).and_then(|x| x.atom()).and_then(|x| x.parse::<usize>().ok());
        return match ix.get(1)?.atom()? {
            "re.^" => rep(&a[0], k(2)?, Some(k(2)?)),
            "re.loop" => {
                if k(2)? > k(3)? {
                    Some(false)
                } else {
                    rep(&a[0], k(2)?, Some(k(3)?))
                }
            }
            _ => None,
        };
    }
    Some(match r.head()? {
        "str.to_re" => st(&a[0], e)? == s,
        "re.range" => {
            let (x, y) = (st(&a[0], e)?, st(&a[1], e)?);
            x.len() == 1 && y.len() == 1 && n == 1 && x[0] <= s[0] && s[0] <= y[0]
        }
        "re.union" => all()?.into_iter().any(|b| b),
        "re.inter" => all()?.into_iter().all(|b| b),
        "re.diff" => {
            let v = all()?;
            v[0] && !v[1]
        }
        "re.comp" => !matches(&a[0], s, e)?,
        "re.opt" => n == 0 || matches(&a[0], s, e)?,
        "re.*" => return rep(&a[0], 0, None),
        "re.+" => return rep(&a[0], 1, None),
        "re.++" => {
            if a.len() == 1 {
                return matches(&a[0], s, e);
            }
            let rest = S::L([&l[..1], &a[1..]].concat());
            let mut any = false;
            for i in 0..=n {
                any |= matches(&a[0], &s[..i], e)? && matches(&rest, &s[i..], e)?;
                if any {
                    break;
                }
            }
            any
        }
        _ => return None,
    })
}
