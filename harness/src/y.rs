//! Document model: a YAML tree of our own, with emitters, merging and comparison against
//! `serde_yaml::Value`.
use serde_yaml::Value;

#[derive(Clone, Debug, PartialEq)]
pub enum Y {
    Null,
    B(bool),
    I(i128),
    F(f64),
    /// A string, always written quoted (or plain where that is certainly a string).
    S(String),
    /// Text written as it is.
    Raw(String),
    L(Vec<Y>),
    /// A mapping whose order has no meaning (a struct).
    M(Vec<(String, Y)>),
    /// A mapping whose order must be kept.
    O(Vec<(String, Y)>),
}
use Y::*;

pub fn s(t: impl Into<String>) -> Y {
    S(t.into())
}
pub fn i(n: impl Into<i128>) -> Y {
    I(n.into())
}
pub fn raw(t: impl Into<String>) -> Y {
    Raw(t.into())
}
pub fn l(v: impl IntoIterator<Item = Y>) -> Y {
    L(v.into_iter().collect())
}
pub fn m<K: Into<String>>(v: impl IntoIterator<Item = (K, Y)>) -> Y {
    M(v.into_iter().map(|(k, y)| (k.into(), y)).collect())
}
pub fn o<K: Into<String>>(v: impl IntoIterator<Item = (K, Y)>) -> Y {
    O(v.into_iter().map(|(k, y)| (k.into(), y)).collect())
}
pub fn ls<T: Into<String>>(v: impl IntoIterator<Item = T>) -> Y {
    L(v.into_iter().map(|t| S(t.into())).collect())
}

pub fn quote(t: &str, out: &mut String) {
    out.push('"');
    for c in t.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\t' => out.push_str("\\t"),
            '\r' => out.push_str("\\r"),
            '\0' => out.push_str("\\0"),
            c if (c as u32) < 0x20 || c == '\u{7f}' || c == '\u{feff}' || ('\u{80}'..='\u{9f}').contains(&c) => {
                out.push_str(&format!("\\u{:04x}", c as u32));
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

/// Certainly a string when written without quotes, in block style.
fn plain(t: &str) -> bool {
    let mut c = t.chars();
    c.next().is_some_and(|c| c.is_ascii_alphabetic() || c == '/')
        && c.all(|c| c.is_ascii_alphanumeric() || matches!(c, '_' | '-' | '/' | '.'))
        && !["true", "false", "null", "yes", "no", "on", "off", "y", "n"].contains(&t.to_ascii_lowercase().as_str())
}

fn float(f: f64) -> String {
    if f.is_nan() {
        ".nan".into()
    } else if f.is_infinite() {
        if f > 0.0 { ".inf" } else { "-.inf" }.into()
    } else {
        let t = format!("{f:?}");
        t
    }
}

impl Y {
    pub fn is_map(&self) -> bool {
        matches!(self, M(_) | O(_))
    }
    pub fn entries(&self) -> &[(String, Y)] {
        match self {
            M(v) | O(v) => v,
            _ => &[],
        }
    }
    pub fn get(&self, key: &str) -> Option<&Y> {
        self.entries().iter().find(|(k, _)| k == key).map(|(_, y)| y)
    }

    /// Flow style on one line.
    pub fn flow(&self) -> String {
        let mut t = String::new();
        self.flow_to(&mut t);
        t
    }
    pub fn flow_to(&self, out: &mut String) {
        match self {
            Null => out.push_str("null"),
            B(b) => out.push_str(if *b { "true" } else { "false" }),
            I(n) => out.push_str(&n.to_string()),
            F(f) => out.push_str(&float(*f)),
            S(t) => quote(t, out),
            Raw(t) => out.push_str(t),
            L(v) => {
                out.push('[');
                for (n, y) in v.iter().enumerate() {
                    if n > 0 {
                        out.push_str(", ");
                    }
                    y.flow_to(out);
                }
                out.push(']');
            }
            M(v) | O(v) => {
                out.push('{');
                for (n, (k, y)) in v.iter().enumerate() {
                    if n > 0 {
                        out.push_str(", ");
                    }
                    quote(k, out);
                    out.push_str(": ");
                    y.flow_to(out);
                }
                out.push('}');
            }
        }
    }

    /// Block style, strings plain where possible.
    pub fn block(&self) -> String {
        let mut t = String::new();
        self.block_to(0, &mut t);
        t
    }
    fn block_to(&self, ind: usize, out: &mut String) {
        match self {
            S(t) if plain(t) => {
                out.push_str(t);
                out.push('\n');
            }
            S(t) if !t.contains(|c: char| c < ' ' || c > '~') => {
                out.push('\'');
                out.push_str(&t.replace('\'', "''"));
                out.push_str("'\n");
            }
            L(v) if !v.is_empty() => {
                if ind > 0 {
                    out.push('\n');
                }
                for y in v {
                    out.push_str(&" ".repeat(ind));
                    out.push_str("- ");
                    y.block_to(ind + 2, out);
                }
            }
            M(v) | O(v) if !v.is_empty() => {
                if ind > 0 {
                    out.push('\n');
                }
                for (k, y) in v {
                    out.push_str(&" ".repeat(ind));
                    if plain(k) {
                        out.push_str(k);
                    } else {
                        quote(k, out);
                    }
                    out.push_str(": ");
                    y.block_to(ind + 2, out);
                }
            }
            y => {
                y.flow_to(out);
                out.push('\n');
            }
        }
    }

    pub fn value(&self) -> Value {
        match self {
            Null => Value::Null,
            B(b) => Value::Bool(*b),
            I(n) => {
                if let Ok(u) = u64::try_from(*n) {
                    Value::Number(u.into())
                } else if let Ok(v) = i64::try_from(*n) {
                    Value::Number(v.into())
                } else {
                    serde_yaml::from_str(&n.to_string()).expect("integer")
                }
            }
            F(f) => Value::Number((*f).into()),
            S(t) => Value::String(t.clone()),
            Raw(t) => serde_yaml::from_str(t).unwrap_or_else(|e| panic!("raw {t:?}: {e}")),
            L(v) => Value::Sequence(v.iter().map(Y::value).collect()),
            M(v) | O(v) => Value::Mapping(
                v.iter()
                    .map(|(k, y)| (Value::String(k.clone()), y.value()))
                    .collect(),
            ),
        }
    }

    /// As JSON, which some documents cannot be written in.
    pub fn json(&self) -> Option<String> {
        Some(match self {
            Null => "null".into(),
            B(b) => b.to_string(),
            I(n) => n.to_string(),
            F(f) if f.is_finite() => format!("{f:?}"),
            F(_) | Raw(_) => return None,
            S(t) => serde_json::to_string(t).ok()?,
            L(v) => format!("[{}]", v.iter().map(Y::json).collect::<Option<Vec<_>>>()?.join(",")),
            M(v) | O(v) => {
                let entry = |(k, y): &(String, Y)| Some(format!("{}:{}", serde_json::to_string(k).ok()?, y.json()?));
                format!("{{{}}}", v.iter().map(entry).collect::<Option<Vec<_>>>()?.join(","))
            }
        })
    }
    pub fn has_raw(&self) -> bool {
        match self {
            Raw(_) => true,
            L(v) => v.iter().any(Y::has_raw),
            M(v) | O(v) => v.iter().any(|(_, y)| y.has_raw()),
            _ => false,
        }
    }

    /// Deep merge. Panics on contradicting documents: a mistake in the model.
    pub fn merge(&mut self, other: &Y) {
        match (self, other) {
            (M(a), M(b)) | (O(a), O(b)) => {
                for (k, y) in b {
                    if let Some((_, x)) = a.iter_mut().find(|(j, _)| j == k) {
                        x.merge(y);
                    } else {
                        a.push((k.clone(), y.clone()));
                    }
                }
            }
            (L(a), L(b)) => {
                for (n, y) in b.iter().enumerate() {
                    if n < a.len() {
                        a[n].merge(y);
                    } else {
                        a.push(y.clone());
                    }
                }
            }
            (a, b) => assert!(*a == *b, "model: cannot merge {} with {}", a.flow(), b.flow()),
        }
    }

    /// Compare with what the library wrote. Struct mappings compare without order, except that
    /// extension keys keep theirs.
    pub fn matches(&self, v: &Value) -> Result<(), String> {
        self.matches_at(v, "")
    }
    fn matches_at(&self, v: &Value, at: &str) -> Result<(), String> {
        let bad = || Err(format!("at {:?}: wrote {v:?}, should be {}", at, self.flow()));
        match (self, v) {
            (L(a), Value::Sequence(b)) => {
                if a.len() != b.len() {
                    return bad();
                }
                for (n, (x, w)) in a.iter().zip(b).enumerate() {
                    x.matches_at(w, &format!("{at}[{n}]"))?;
                }
                Ok(())
            }
            (M(a) | O(a), Value::Mapping(b)) => {
                for (k, y) in a {
                    match b.get(k.as_str()) {
                        Some(w) => y.matches_at(w, &format!("{at}.{k}"))?,
                        None => return Err(format!("at {:?}: {k:?} is not written", at)),
                    }
                }
                for (k, w) in b {
                    if !a.iter().any(|(j, _)| k.as_str() == Some(j)) {
                        return Err(format!("at {:?}: {k:?}: {w:?} is written", at));
                    }
                }
                let want: Vec<&str> = a
                    .iter()
                    .map(|(k, _)| k.as_str())
                    .filter(|k| matches!(self, O(_)) || k.starts_with("x-"))
                    .collect();
                let got: Vec<&str> = b
                    .keys()
                    .filter_map(Value::as_str)
                    .filter(|k| matches!(self, O(_)) || k.starts_with("x-"))
                    .collect();
                if want != got {
                    return Err(format!("at {:?}: keys are written in the order {got:?}, should be {want:?}", at));
                }
                Ok(())
            }
            (Raw(_), _) | (Null | B(_) | I(_) | F(_) | S(_), _) => {
                if self.value() == *v {
                    Ok(())
                } else {
                    bad()
                }
            }
            _ => bad(),
        }
    }

    /// Every node of the tree by path.
    pub fn paths(&self) -> Vec<Vec<usize>> {
        fn go(y: &Y, at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
            out.push(at.clone());
            match y {
                L(v) => {
                    for (n, y) in v.iter().enumerate() {
                        at.push(n);
                        go(y, at, out);
                        at.pop();
                    }
                }
                M(v) | O(v) => {
                    for (n, (_, y)) in v.iter().enumerate() {
                        at.push(n);
                        go(y, at, out);
                        at.pop();
                    }
                }
                _ => {}
            }
        }
        let mut out = Vec::new();
        go(self, &mut Vec::new(), &mut out);
        out
    }
    pub fn at(&self, path: &[usize]) -> &Y {
        match path.split_first() {
            None => self,
            Some((n, rest)) => match self {
                L(v) => v[*n].at(rest),
                M(v) | O(v) => v[*n].1.at(rest),
                _ => unreachable!(),
            },
        }
    }
    pub fn at_mut(&mut self, path: &[usize]) -> &mut Y {
        match path.split_first() {
            None => self,
            Some((n, rest)) => match self {
                L(v) => v[*n].at_mut(rest),
                M(v) | O(v) => v[*n].1.at_mut(rest),
                _ => unreachable!(),
            },
        }
    }
    pub fn path_text(&self, path: &[usize]) -> String {
        let mut t = String::new();
        let mut y = self;
        for n in path {
            match y {
                L(v) => {
                    t.push_str(&format!("[{n}]"));
                    y = &v[*n];
                }
                M(v) | O(v) => {
                    t.push('.');
                    t.push_str(&v[*n].0);
                    y = &v[*n].1;
                }
                _ => unreachable!(),
            }
        }
        t
    }
}

/// A `Value` as our tree (struct order irrelevant information kept as ordered).
pub fn from_value(v: &Value) -> Y {
    match v {
        Value::Null => Null,
        Value::Bool(b) => B(*b),
        Value::Number(n) => {
            if let Some(u) = n.as_u64() {
                I(u.into())
            } else if let Some(v) = n.as_i64() {
                I(v.into())
            } else {
                F(n.as_f64().unwrap_or(f64::NAN))
            }
        }
        Value::String(t) => S(t.clone()),
        Value::Sequence(v) => L(v.iter().map(from_value).collect()),
        Value::Mapping(m) => O(m
            .iter()
            .map(|(k, v)| (k.as_str().unwrap_or("?").to_owned(), from_value(v)))
            .collect()),
        Value::Tagged(t) => from_value(&t.value),
    }
}
