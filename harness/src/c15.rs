//! C15: scalars, lists and maps convert without changing meaning.
use std::{
    borrow::Cow,
    fmt::{Debug, Display},
    net::IpAddr,
    path::PathBuf,
};

use compose_spec::{
    service::{self, env_file::EnvFile, Command, Service},
    Identifier, ItemOrList, ListOrMap, Map, MapKey, Number, ShortOrLong, StringOrNumber, Value,
};
use indexmap::{IndexMap, IndexSet};
use serde::{de::DeserializeOwned, Serialize};
use serde_yaml::Value as Yaml;

use crate::{
    engine::{same, Ctx},
    y,
};

pub const ASSUME: &[&str] = &[
    "a float with an integral value prints without a point, as in Rust's Display: it may be read back as the integer, and one of 2^64 or more need not be read back as a number",
    "an integer which does not fit 64 bits may be rejected, or read as a float or a string",
    "a 64-bit integer outside the 32-bit range may convert to a float if the conversion is exact",
    "-0 may be read as an unsigned or a signed zero",
    "std decides the value of a float's text",
    "keys which are not strings in YAML are not judged",
];

fn e(t: impl Display) -> String {
    t.to_string()
}

/// A scalar, and what it is.
#[derive(Clone, Debug)]
enum K {
    S(String),
    U(u64),
    I(i64),
    F(f64),
    B(bool),
}

fn feq(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

fn number_is(n: &Number, k: &K) -> bool {
    match (n, k) {
        (Number::UnsignedInt(a), K::U(b)) => a == b,
        (Number::SignedInt(a), K::I(b)) => a == b,
        (Number::Float(a), K::F(b)) => feq(*a, *b),
        _ => false,
    }
}

fn value_is(v: &Value, k: &K) -> bool {
    match (v, k) {
        (Value::String(a), K::S(b)) => a == b,
        (Value::Bool(a), K::B(b)) => a == b,
        (Value::Number(n), k) => number_is(n, k),
        _ => false,
    }
}

fn son_is(v: &StringOrNumber, k: &K) -> bool {
    match (v, k) {
        (StringOrNumber::String(a), K::S(b)) => a == b,
        (StringOrNumber::Number(n), k) => number_is(n, k),
        _ => false,
    }
}

impl K {
    fn text(&self) -> String {
        match self {
            K::S(s) => s.clone(),
            K::U(n) => n.to_string(),
            K::I(n) => n.to_string(),
            K::F(n) => n.to_string(),
            K::B(b) => b.to_string(),
        }
    }

    fn yaml(&self) -> Yaml {
        match self {
            K::S(s) => s.as_str().into(),
            K::U(n) => (*n).into(),
            K::I(n) => (*n).into(),
            K::F(n) => (*n).into(),
            K::B(b) => (*b).into(),
        }
    }

    fn value(&self) -> Value {
        match self {
            K::S(s) => Value::from(s.as_str()),
            K::U(n) => Value::from(*n),
            K::I(n) => Value::from(*n),
            K::F(n) => Value::from(*n),
            K::B(b) => Value::from(*b),
        }
    }

    /// YAML texts for the scalar.
    fn texts(&self) -> Vec<String> {
        match self {
            K::S(s) => {
                let mut q = String::new();
                y::quote(s, &mut q);
                let mut v = vec![q];
                if !s.contains(['\'', '\n']) && !s.chars().any(char::is_control) {
                    v.push(format!("'{s}'"));
                }
                v
            }
            K::U(n) => vec![n.to_string(), format!("+{n}"), format!("{n:#x}"), format!("{n:#o}"), format!("{n:#b}")],
            K::I(n) => vec![n.to_string()],
            K::F(n) if n.is_nan() => vec![".nan".into(), ".NaN".into()],
            K::F(n) if n.is_infinite() => {
                if *n > 0.0 {
                    vec![".inf".into(), "+.inf".into(), ".Inf".into()]
                } else {
                    vec!["-.inf".into(), "-.INF".into()]
                }
            }
            K::F(n) => vec![format!("{n:?}"), format!("{n:e}").replace('e', ".0e").replacen(".0e", if format!("{n:e}").contains('.') { "e" } else { ".0e" }, 1)],
            K::B(b) => vec![b.to_string()],
        }
    }

    /// A negative zero or similar.
    fn number(&self) -> Option<K> {
        match self {
            K::S(s) => parse_number(s).ok(),
            K::B(b) => Some(K::U(u64::from(*b))),
            k => Some(k.clone()),
        }
    }
}

enum Stop {
    No,
    Any,
}

/// What a text is as a number, by the documentation.
fn parse_number(s: &str) -> Result<K, Stop> {
    let body = s.strip_prefix(['+', '-']).unwrap_or(s);
    if !body.is_empty() && body.bytes().all(|b| b.is_ascii_digit()) {
        let z = body.trim_start_matches('0');
        if z.len() > 20 {
            // does not fit: not a number, its text is to be kept
            return Err(Stop::No);
        }
        let n: u128 = if z.is_empty() { 0 } else { z.parse().unwrap() };
        return if s.starts_with('-') {
            if n == 0 {
                Err(Stop::Any)
            } else if n > 1 << 63 {
                Err(Stop::No)
            } else {
                Ok(K::I((n as i128).wrapping_neg() as i64))
            }
        } else if n > u128::from(u64::MAX) {
            Err(Stop::No)
        } else {
            Ok(K::U(n as u64))
        };
    }
    // [digits][.[digits]][e[sign]digits] with a digit in the mantissa, or inf, infinity, nan in any case
    let lower = body.to_ascii_lowercase();
    let special = matches!(lower.as_str(), "inf" | "infinity" | "nan");
    let (mant, exp) = match body.find(['e', 'E']) {
        Some(i) => (&body[..i], Some(&body[i + 1..])),
        None => (body, None),
    };
    let digits = |t: &str| t.bytes().all(|b| b.is_ascii_digit());
    let (int, frac) = mant.split_once('.').unwrap_or((mant, ""));
    let ok = digits(int) && digits(frac) && !(int.is_empty() && frac.is_empty())
        && exp.is_none_or(|x| {
            let d = x.strip_prefix(['+', '-']).unwrap_or(x);
            !d.is_empty() && digits(d)
        });
    if ok || special {
        s.parse().map(K::F).map_err(|_| Stop::Any)
    } else {
        Err(Stop::No)
    }
}

/// What a text is as a value.
fn parse_value(s: &str) -> Result<K, Stop> {
    match s {
        "true" => Ok(K::B(true)),
        "false" => Ok(K::B(false)),
        _ => match parse_number(s) {
            Err(Stop::No) => Ok(K::S(s.into())),
            r => r,
        },
    }
}

fn is(what: &str, ok: bool, got: &impl Debug, want: &impl Debug) -> Result<(), String> {
    if ok {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, expected {want:?}"))
    }
}

/// Everything which may be asked of a value.
fn ask(v: &Value, k: &K) -> Result<(), String> {
    is("value", value_is(v, k), v, k)?;
    let (s, n, b) = (matches!(k, K::S(_)), matches!(k, K::U(_) | K::I(_) | K::F(_)), matches!(k, K::B(_)));
    same("is_string, is_number, is_bool", &(v.is_string(), v.is_number(), v.is_bool()), &(s, n, b))?;
    same("as_string", &v.as_string().cloned(), &if let K::S(s) = k { Some(s.clone()) } else { None })?;
    same("as_bool", &v.as_bool(), &if let K::B(b) = k { Some(*b) } else { None })?;
    is("as_number", v.as_number().map_or(!n, |x| number_is(x, k)), &v.as_number(), k)?;
    if let Some(x) = v.as_number() {
        ask_number(x, k)?;
    }
    same("Display", &v.to_string(), &k.text())?;
    same("String::from", &String::from(v.clone()), &k.text())?;
    let yaml = serde_yaml::to_value(v).map_err(e)?;
    is("serialized", same_yaml(&yaml, &k.yaml()), &yaml, &k.yaml())?;
    // a negative zero
    let zero = matches!(k, K::I(0));
    if !zero && !matches!(k, K::I(n) if *n >= 0) {
        let again: Value = serde_yaml::from_value(yaml).map_err(e)?;
        is("read back", value_is(&again, k), &again, k)?;
        let text = serde_yaml::to_string(v).map_err(e)?;
        let again: Value = serde_yaml::from_str(&text).map_err(e)?;
        is("read back from text", value_is(&again, k), &again, k)?;
    }
    // conversions to native types
    let as_num = k.number();
    let got = Number::try_from(v.clone());
    match (&as_num, &got) {
        (Some(k), Ok(n)) if number_is(n, k) => {}
        (None, Err(_)) => {}
        (None, Ok(_)) if matches!(k, K::S(s) if matches!(parse_number(s), Err(Stop::Any))) => {}
        _ => return Err(format!("Number::try_from: got {got:?}, expected {as_num:?}")),
    }
    if matches!(k, K::S(s) if matches!(parse_number(s), Err(Stop::Any))) {
        return Ok(());
    }
    narrow(as_num.as_ref(), u64::try_from(v.clone()).ok(), i64::try_from(v.clone()).ok(), f64::try_from(v.clone()).ok())?;
    same("bool::try_from", &bool::try_from(v.clone()).ok(), &if let K::B(b) = k { Some(*b) } else { None })
}

/// Conversions of a number succeed exactly when it fits.
fn narrow(k: Option<&K>, u: Option<u64>, i: Option<i64>, f: Option<f64>) -> Result<(), String> {
    let n: Option<i128> = match k {
        Some(K::U(n)) => Some(i128::from(*n)),
        Some(K::I(n)) => Some(i128::from(*n)),
        _ => None,
    };
    same("u64::try_from", &u, &n.and_then(|n| n.try_into().ok()))?;
    same("i64::try_from", &i, &n.and_then(|n| n.try_into().ok()))?;
    match (k, f) {
        (Some(K::F(x)), got) => is("f64::try_from", got.is_some_and(|g| feq(g, *x)), &got, x),
        (_, None) => is("f64::try_from", !n.is_some_and(|n| (0..=i128::from(u32::MAX)).contains(&n) || (i128::from(i32::MIN)..=i128::from(i32::MAX)).contains(&n)), &f, &n),
        (_, Some(x)) => is("f64::try_from", n.is_some_and(|n| x as i128 == n && n.unsigned_abs() <= 1 << 64), &f, &n),
    }
}

fn ask_number(n: &Number, k: &K) -> Result<(), String> {
    is("number", number_is(n, k), n, k)?;
    same(
        "is_unsigned_int, is_signed_int, is_float",
        &(n.is_unsigned_int(), n.is_signed_int(), n.is_float()),
        &(matches!(k, K::U(_)), matches!(k, K::I(_)), matches!(k, K::F(_))),
    )?;
    same("as_unsigned_int", &n.as_unsigned_int(), &if let K::U(n) = k { Some(*n) } else { None })?;
    same("as_signed_int", &n.as_signed_int(), &if let K::I(n) = k { Some(*n) } else { None })?;
    same("as_float", &n.as_float().map(f64::to_bits), &if let K::F(n) = k { Some(n.to_bits()) } else { None })?;
    same("Display", &n.to_string(), &k.text())?;
    let (lo, up) = match k {
        K::U(n) => (format!("{n:e}"), format!("{n:E}")),
        K::I(n) => (format!("{n:e}"), format!("{n:E}")),
        K::F(n) => (format!("{n:e}"), format!("{n:E}")),
        _ => unreachable!(),
    };
    same("LowerExp", &format!("{n:e}"), &lo)?;
    same("UpperExp", &format!("{n:E}"), &up)?;
    let yaml = serde_yaml::to_value(n).map_err(e)?;
    is("serialized", same_yaml(&yaml, &k.yaml()), &yaml, &k.yaml())?;
    narrow(Some(k), u64::try_from(*n).ok(), i64::try_from(*n).ok(), f64::try_from(*n).ok())?;
    // what is printed parses to the number
    let text = n.to_string();
    let back = text.parse::<Number>();
    match (k, &back) {
        (K::F(x), r) if x.is_finite() && x.fract() == 0.0 => {
            let v = match r {
                Ok(Number::UnsignedInt(n)) => Some(*n as f64),
                Ok(Number::SignedInt(n)) => Some(*n as f64),
                Ok(Number::Float(n)) => Some(*n),
                Err(_) => None,
            };
            // (the exact digits of a whole float)
            is("parsed back", v.map_or(x.abs() >= 9.2e18, |v| v == *x), r, x)
        }
        (K::I(n), _) if *n >= 0 => Ok(()),
        (k, Ok(b)) if number_is(b, k) => Ok(()),
        (k, r) => Err(format!("{text:?} parses to {r:?}, expected {k:?}")),
    }
}

fn same_yaml(a: &Yaml, b: &Yaml) -> bool {
    match (a, b) {
        (Yaml::Number(x), Yaml::Number(y)) => match (x.as_u64(), x.as_i64(), y.as_u64(), y.as_i64()) {
            (None, None, None, None) => feq(x.as_f64().unwrap(), y.as_f64().unwrap()),
            (a, b, c, d) => a == c && b == d,
        },
        _ => a == b,
    }
}

fn read<T: DeserializeOwned>(t: &str) -> Result<T, String> {
    serde_yaml::from_str(t).map_err(e)
}

fn scalars() -> Vec<K> {
    let mut v: Vec<K> = Vec::new();
    let mut ints: Vec<i128> = vec![0];
    for k in 0..64 {
        for d in -2..=2 {
            ints.push((1 << k) + d);
            ints.push(-(1 << k) + d);
        }
    }
    for k in 0..20 {
        for d in -1..=1 {
            ints.push(10i128.pow(k) + d);
            ints.push(-10i128.pow(k) + d);
        }
    }
    ints.extend([i128::from(u64::MAX), i128::from(u64::MAX) - 1, i128::from(i64::MIN), i128::from(i64::MIN) + 1]);
    ints.sort_unstable();
    ints.dedup();
    for n in ints {
        if let Ok(n) = u64::try_from(n) {
            v.push(K::U(n));
        } else if let Ok(n) = i64::try_from(n) {
            v.push(K::I(n));
        }
    }
    for m in [1.0, 1.5, 2.25, 0.1, 1.1, 3.3333333333333335, 9.999999999999999, 1.2345678901234567, 0.30000000000000004] {
        for x in [-324, -323, -308, -307, -100, -20, -10, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 5, 9, 15, 16, 17, 18, 19, 20, 21, 22, 100, 300, 308] {
            let f: f64 = format!("{m:?}e{x}").parse().unwrap();
            v.push(K::F(f));
            v.push(K::F(-f));
        }
    }
    v.extend([f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::EPSILON, 5e-324, 0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 4294967295.5, 9007199254740993.0, 0.1 + 0.2].map(K::F));
    v.extend([K::B(true), K::B(false)]);
    for s in STRINGS {
        v.push(K::S((*s).into()));
    }
    v
}

const STRINGS: &[&str] = &[
    "", " ", "a", "A b", "true", "false", "True", "TRUE", "yes", "no", "on", "off", "null", "~", "Null", "0", "1", "-1", "+1", "007", "-0", "1.0", "1.10", "1.", ".5", "-.5", "+.5e3", "1e3",
    "1E3", "1e", "e1", "1_000", "0x10", "0o7", "0b1", "inf", "-inf", "Infinity", "nan", ".inf", ".nan", "18446744073709551615", "18446744073709551616", "-9223372036854775808",
    "-9223372036854775809", "9223372036854775808", "1 ", " 1", "1a", "--1", "+-1", "+", "-", ".", "é", "٣", "a=b", "a: b", "# c", "- x", "[a]", "{a: b}", "\"q\"", "'q'", "l1\nl2", "tab\t", "\u{a0}", "\u{1F600}",
    "*a", "&a", "!t", "|", ">", "%", "@", "`", "1:30", "2001-01-01", "0.1e-400", "1e400", "-1e400",
];

fn each_scalar(ctx: &Ctx) {
    let pool = scalars();
    ctx.part("scalars", pool.len() as u64);
    ctx.par(pool.len(), |i| {
        let k = &pool[i];
        ctx.add_states(1);
        ctx.case(
            || format!("value {k:?}"),
            || {
                ask(&k.value(), k)?;
                let v: Value = serde_yaml::from_value(k.yaml()).map_err(e)?;
                if !matches!(k, K::I(n) if *n >= 0) {
                    ask(&v, k)?;
                }
                match k {
                    K::S(s) => {
                        same("From<String>", &Value::from(s.clone()), &v)?;
                        same("From<Box<str>>", &Value::from(Box::<str>::from(s.as_str())), &v)?;
                        same("From<Cow>", &Value::from(Cow::Borrowed(s.as_str())), &v)?;
                        same("From<Cow>, owned", &Value::from(Cow::<str>::Owned(s.clone())), &v)?;
                    }
                    K::U(n) => same("From<Number>", &Value::from(Number::from(*n)), &v)?,
                    K::F(n) => is("From<Number>", value_is(&Value::from(Number::from(*n)), k), n, k)?,
                    _ => {}
                }
                Ok(())
            },
        );
        for t in k.texts() {
            ctx.case(
                || format!("YAML {t}"),
                || {
                    let v: Value = read(&t)?;
                    is("value", value_is(&v, k), &v, k)?;
                    let v: Value = serde_yaml::from_reader(t.as_bytes()).map_err(e)?;
                    is("value, from a reader", value_is(&v, k), &v, k)?;
                    let n = read::<Number>(&t);
                    match (k, &n) {
                        (K::S(_) | K::B(_), Err(_)) => {}
                        (k, Ok(n)) if number_is(n, k) => ask_number(n, k)?,
                        _ => return Err(format!("Number: {n:?}")),
                    }
                    let s = read::<StringOrNumber>(&t);
                    match (k, &s) {
                        (K::B(_), Err(_)) => Ok(()),
                        (k, Ok(s)) if son_is(s, k) => ask_son(s, k),
                        _ => Err(format!("StringOrNumber: {s:?}")),
                    }
                },
            );
        }
    });
    // neither kind
    for t in ["null", "~", "", "[]", "[a]", "{}", "{a: b}", "[1]"] {
        ctx.case(
            || format!("YAML {t}"),
            || {
                is("Value", read::<Value>(t).is_err(), &read::<Value>(t), &())?;
                is("Number", read::<Number>(t).is_err(), &read::<Number>(t), &())?;
                is("StringOrNumber", read::<StringOrNumber>(t).is_err(), &read::<StringOrNumber>(t), &())
            },
        );
    }
    // equality of numbers and values: by kind and content
    let n = pool.len();
    ctx.par(n, |i| {
        let a = &pool[i];
        let va = a.value();
        for b in &pool {
            let vb = b.value();
            let want = value_is(&va, b) && !matches!(a, K::F(x) if x.is_nan());
            let got = va == vb;
            // zeros of both signs are equal
            let zeros = matches!((a, b), (K::F(x), K::F(y)) if *x == 0.0 && *y == 0.0);
            if got != want && !zeros {
                ctx.case(|| format!("{va:?} == {vb:?}"), || Err(format!("{got}")));
            }
        }
    });
    ctx.add_states((n * n) as u64);
}

fn ask_son(s: &StringOrNumber, k: &K) -> Result<(), String> {
    let str = matches!(k, K::S(_));
    same("is_string, is_number", &(s.is_string(), s.is_number()), &(str, !str))?;
    same("as_string", &s.as_string().cloned(), &if let K::S(s) = k { Some(s.clone()) } else { None })?;
    is("as_number", s.as_number().map_or(str, |n| number_is(&n, k)), &s.as_number(), k)?;
    same("Display", &s.to_string(), &k.text())?;
    let yaml = serde_yaml::to_value(s).map_err(e)?;
    is("serialized", same_yaml(&yaml, &k.yaml()), &yaml, &k.yaml())?;
    let text = serde_yaml::to_string(s).map_err(e)?;
    let again: StringOrNumber = read(&text)?;
    is("read back from text", son_is(&again, k) || matches!(k, K::I(0)), &again, k)?;
    same("String", &String::from(s.clone()), &k.text())?;
    let n = Number::try_from(s.clone());
    match (&k.number(), &n) {
        (Some(k), Ok(n)) if number_is(n, k) => {}
        (None, Err(_)) => {}
        (None, Ok(_)) if matches!(k, K::S(s) if matches!(parse_number(s), Err(Stop::Any))) => {}
        (want, _) => return Err(format!("Number::try_from: got {n:?}, expected {want:?}")),
    }
    match k {
        K::S(t) => {
            same("From<String>", &StringOrNumber::from(t.clone()), s)?;
            same("From<&str>", &StringOrNumber::from(t.as_str()), s)?;
            same("From<Box<str>>", &StringOrNumber::from(Box::<str>::from(t.as_str())), s)?;
            same("From<Cow>", &StringOrNumber::from(Cow::Borrowed(t.as_str())), s)
        }
        K::U(n) => same("From<u64>", &StringOrNumber::from(*n), s),
        K::I(n) => same("From<i64>", &StringOrNumber::from(*n), s),
        K::F(n) => is("From<f64>", son_is(&StringOrNumber::from(*n), k), s, k),
        K::B(_) => Ok(()),
    }
}

fn parsing(ctx: &Ctx) {
    let toks = ["0", "1", "95", "-", "+", ".", "e", "E", "inf", "nan", "true", "false", " ", "x", "_", "18446744073709551615", "9223372036854775808", "INFINITY"];
    let k = toks.len();
    let depth = ctx.pick(5, 6);
    let mut total = 0;
    for len in 0..=depth {
        let n = k.pow(len);
        total += n;
        ctx.par(n, |mut i| {
            let mut s = String::new();
            for _ in 0..len {
                s.push_str(toks[i % k]);
                i /= k;
            }
            parse_one(ctx, &s);
        });
    }
    for s in STRINGS {
        parse_one(ctx, s);
    }
    ctx.part("texts parsed as scalars", total as u64);
}

fn parse_one(ctx: &Ctx, s: &str) {
    ctx.add_states(1);
    ctx.case(
        || format!("text {s:?}"),
        || {
            let v = Value::parse(s);
            match parse_value(s) {
                Ok(k) => is("Value::parse", value_is(&v, &k), &v, &k)?,
                Err(_) => {
                    // not judged, but its text is kept if it is a string
                    if let Value::String(t) = &v {
                        same("text", &t.as_str(), &s)?;
                    }
                }
            }
            let w = Value::parse(s.to_owned());
            is("Value::parse(String)", format!("{w:?}") == format!("{v:?}"), &w, &v)?;
            let n = s.parse::<Number>();
            match (parse_number(s), &n) {
                (Ok(k), Ok(n)) if number_is(n, &k) => ask_number(n, &k)?,
                (Err(Stop::No), Err(_)) | (Err(Stop::Any), _) => {}
                (k, _) => return Err(format!("Number: {n:?}, expected {:?}", k.ok())),
            }
            let t = Number::try_from(s);
            is("Number::try_from", format!("{t:?}") == format!("{n:?}"), &t, &n)?;
            let q = StringOrNumber::parse(s);
            match &n {
                Ok(n) => is("StringOrNumber::parse", format!("{q:?}") == format!("{:?}", StringOrNumber::Number(*n)), &q, n)?,
                Err(_) => same("StringOrNumber::parse", &q, &StringOrNumber::String(s.into()))?,
            }
            // a string value converts to the number of its text
            let via = Number::try_from(Value::String(s.into()));
            is("Number of a string value", format!("{via:?}") == format!("{n:?}"), &via, &n)
        },
    );
}

// ---------------------------------------------------------------- lists and maps

const KEYS: &[&str] = &["a", "b", "A", "a.b", "k y", "", "é", "a\nb"];
const VALS: &[&str] = &["", "v", "1", "1.5", "true", "x=y", "=", "-3", "null", " ", "a:b", "007"];

fn entries() -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    for k in KEYS {
        v.push((*k).into());
        for d in ['=', ':'] {
            for val in VALS {
                v.push(format!("{k}{d}{val}"));
            }
        }
    }
    v
}

/// The map of a list.
fn model_map(list: &[String], delims: &[char]) -> Option<Vec<(String, Option<String>)>> {
    let mut out: Vec<(String, Option<String>)> = Vec::new();
    for item in list {
        let (k, v) = match item.find(|c| delims.contains(&c)) {
            None => (item.as_str(), None),
            Some(i) => (&item[..i], Some(item[i + 1..].to_owned()).filter(|v| !v.is_empty())),
        };
        if k.is_empty() || k.contains('\n') {
            return None;
        }
        match out.iter_mut().find(|e| e.0 == k) {
            Some(e) => e.1 = v,
            None => out.push((k.into(), v)),
        }
    }
    Some(out)
}

fn map_is(map: &Map, want: &[(String, Option<String>)]) -> Result<(), String> {
    same("keys", &map.keys().map(|k| k.as_str()).collect::<Vec<_>>(), &want.iter().map(|e| e.0.as_str()).collect::<Vec<_>>())?;
    for ((k, got), (_, v)) in map.iter().zip(want) {
        let ok = match (got, v) {
            (None, None) => true,
            (Some(got), Some(v)) => match parse_value(v) {
                Ok(k) => value_is(got, &k),
                Err(_) => true,
            },
            _ => false,
        };
        is(&format!("value of {k}"), ok, got, v)?;
    }
    Ok(())
}

fn lists(ctx: &Ctx) {
    let pool = entries();
    let reps: Vec<String> = {
        // one of each kind for the longer lists
        let keep = ["a", "b", "a=", "a=1", "b=v", "a=x=y", "b:1", "a:b=c", "k y=true", "=", "=v", "", "a\nb=1", "é=1.5", "A=1", "a.b"];
        keep.iter().map(|s| (*s).to_owned()).collect()
    };
    let delims: &[&[char]] = &[&['='], &[':'], &['=', ':'], &[':', '='], &[]];
    let one = |list: &[String]| {
        ctx.add_states(1);
        ctx.case(
            || format!("list {list:?}"),
            || {
                let set: IndexSet<String> = list.iter().cloned().collect();
                let unique: Vec<String> = set.iter().cloned().collect();
                let lom = ListOrMap::List(set.clone());
                same("as_list", &lom.as_list().map(|l| l.iter().cloned().collect::<Vec<_>>()), &Some(unique.clone()))?;
                same("as_map", &lom.as_map().is_some(), &false)?;
                same("is_empty", &lom.is_empty(), &list.is_empty())?;
                same("into_list", &lom.clone().into_list().into_iter().collect::<Vec<_>>(), &unique)?;
                // YAML
                let doc = y::ls(unique.clone());
                let read: ListOrMap = serde_yaml::from_value(doc.value()).map_err(e)?;
                same("from YAML", &read, &lom)?;
                let yaml = serde_yaml::to_value(&lom).map_err(e)?;
                same("to YAML", &yaml, &doc.value())?;
                let text: ListOrMap = serde_yaml::from_str(&serde_yaml::to_string(&lom).map_err(e)?).map_err(e)?;
                same("from text", &text.into_list().into_iter().collect::<Vec<_>>(), &unique)?;
                for d in delims {
                    let got = lom.clone().into_map_split_on(d);
                    match (model_map(&unique, d), &got) {
                        (None, Err(_)) => {}
                        (Some(w), Ok(m)) => map_is(m, &w).map_err(|e| format!("split on {d:?}: {e}"))?,
                        (w, g) => return Err(format!("split on {d:?}: got {g:?}, expected {w:?}")),
                    }
                }
                let map = lom.clone().into_map();
                same("into_map", &map.is_ok(), &model_map(&unique, &['=']).is_some())?;
                if let Ok(map) = map {
                    map_is(&map, &model_map(&unique, &['=']).unwrap())?;
                    // the list of the map has the same keys and values
                    let list = ListOrMap::Map(map.clone()).into_list();
                    same("number of entries", &list.len(), &map.len())?;
                    let again = ListOrMap::List(list).into_map().map_err(e)?;
                    let loose = |v: &Option<Value>| match v {
                        Some(Value::Number(Number::Float(f))) if f.fract() == 0.0 => format!("{f}"),
                        Some(Value::Number(n)) => n.to_string(),
                        o => format!("{o:?}"),
                    };
                    same(
                        "map of the list of the map",
                        &again.iter().map(|(k, v)| (k.to_string(), loose(v))).collect::<Vec<_>>(),
                        &map.iter().map(|(k, v)| (k.to_string(), loose(v))).collect::<Vec<_>>(),
                    )?;
                    same("into_map of a map", &ListOrMap::Map(map.clone()).into_map().map(|m| m.into_iter().collect::<Vec<_>>()).ok(), &Some(map.into_iter().collect::<Vec<_>>()))?;
                }
                Ok(())
            },
        );
    };
    one(&[]);
    for a in &pool {
        one(&[a.clone()]);
    }
    let n = pool.len();
    ctx.part("lists of two entries", (n * n) as u64);
    ctx.par(n * n, |i| one(&[pool[i / n].clone(), pool[i % n].clone()]));
    let n = reps.len();
    for len in 3..=ctx.pick(4, 5) {
        ctx.part(&format!("lists of {len} entries"), n.pow(len) as u64);
        ctx.par(n.pow(len), |mut i| {
            let mut list = Vec::new();
            for _ in 0..len {
                list.push(reps[i % n].clone());
                i /= n;
            }
            one(&list);
        });
    }
    // maps
    let vals: Vec<Option<K>> = vec![
        None,
        Some(K::S(String::new())),
        Some(K::S("v".into())),
        Some(K::S("1".into())),
        Some(K::S("true".into())),
        Some(K::S("x=y".into())),
        Some(K::U(0)),
        Some(K::U(u64::MAX)),
        Some(K::I(-3)),
        Some(K::F(1.5)),
        Some(K::B(true)),
        Some(K::B(false)),
    ];
    let keys = ["a", "b", "a.b", "k y", "A", "é", "1", "true", "null", "~", "x-y"];
    let (nk, nv) = (keys.len(), vals.len());
    let one = |m: &[(&str, &Option<K>)]| {
        ctx.add_states(1);
        ctx.case(
            || format!("map {m:?}"),
            || {
                let map: Map = m.iter().map(|(k, v)| (MapKey::new(*k).unwrap(), v.as_ref().map(K::value))).collect();
                let lom = ListOrMap::Map(map.clone());
                same("as_map", &lom.as_map().map(|m| m.iter().collect::<Vec<_>>()), &Some(map.iter().collect::<Vec<_>>()))?;
                same("as_list", &lom.as_list().is_some(), &false)?;
                same("is_empty", &lom.is_empty(), &m.is_empty())?;
                let want: Vec<String> = m.iter().map(|(k, v)| v.as_ref().map_or((*k).to_owned(), |v| format!("{k}={}", v.text()))).collect();
                same("into_list", &lom.clone().into_list().into_iter().collect::<Vec<_>>(), &want)?;
                let yaml: Yaml = Yaml::Mapping(m.iter().map(|(k, v)| ((*k).into(), v.as_ref().map_or(Yaml::Null, K::yaml))).collect());
                let read: ListOrMap = serde_yaml::from_value(yaml.clone()).map_err(e)?;
                same("from YAML", &read, &lom)?;
                same("order from YAML", &read.as_map().map(|m| m.iter().collect::<Vec<_>>()), &Some(map.iter().collect::<Vec<_>>()))?;
                same("to YAML", &serde_yaml::to_value(&lom).map_err(e)?, &yaml)?;
                let text: ListOrMap = serde_yaml::from_str(&serde_yaml::to_string(&lom).map_err(e)?).map_err(e)?;
                same("from text", &text, &lom)?;
                // a string value which is not a number or bool is kept, the others are what their text is
                let back = ListOrMap::List(want.into_iter().collect()).into_map().map_err(e)?;
                map_is(&back, &m.iter().map(|(k, v)| ((*k).to_owned(), v.as_ref().map(K::text).filter(|t| !t.is_empty()))).collect::<Vec<_>>())
            },
        );
    };
    one(&[]);
    let combos = nk * nv;
    ctx.part("maps of two entries", (combos * combos) as u64);
    ctx.par(combos, |i| {
        let a = (keys[i / nv], &vals[i % nv]);
        one(&[a]);
        for j in 0..combos {
            let b = (keys[j / nv], &vals[j % nv]);
            if a.0 != b.0 {
                one(&[a, b]);
            }
        }
    });
    if ctx.thorough() {
        ctx.par(combos * nv, |i| {
            let (a, v) = (i / nv, &vals[i % nv]);
            for b in 0..combos {
                let (ka, kb) = (keys[a / nv], keys[b / nv]);
                for kc in keys {
                    if ka != kb && ka != kc && kb != kc {
                        one(&[(ka, &vals[a % nv]), (kb, &vals[b % nv]), (kc, v)]);
                    }
                }
            }
        });
    }
    // equality, and what is neither
    ctx.case(
        || "empty".into(),
        || {
            let (l, m) = (ListOrMap::List(IndexSet::new()), ListOrMap::Map(Map::new()));
            same("default", &ListOrMap::default(), &l)?;
            same("default is a list", &ListOrMap::default().as_list().is_some(), &true)?;
            is("empty list == empty map", l == m && m == l, &l, &m)?;
            let full = ListOrMap::List(["a".to_owned()].into_iter().collect());
            let fmap = ListOrMap::Map([(MapKey::new("a").unwrap(), None)].into_iter().collect());
            is("list != map", full != fmap && full != m && fmap != l && full != l, &full, &fmap)
        },
    );
    for t in ["[1]", "[true]", "[null]", "[[a]]", "[{a: b}]", "{a: [b]}", "{a: {b: c}}", "a", "1", "true", "{'': a}", "[1.5, a]", "null"] {
        ctx.case(
            || format!("list or map {t}"),
            || {
                let v = serde_yaml::from_str::<Yaml>(t).map_err(e)?;
                let got = serde_yaml::from_value::<ListOrMap>(v);
                is("neither", got.is_err(), &got, &())
            },
        );
    }
}

// ---------------------------------------------------------------- single items and lists

fn items<T>(ctx: &Ctx, name: &str, pool: &[(Yaml, T)], bad: &[&str])
where
    T: Clone + Debug + Eq + std::hash::Hash + Serialize + DeserializeOwned + Send + Sync,
{
    let n = pool.len();
    for (y, t) in pool {
        ctx.add_states(1);
        ctx.case(
            || format!("{name} item {t:?}"),
            || {
                let got: ItemOrList<T> = serde_yaml::from_value(y.clone()).map_err(e)?;
                same("item", &got, &ItemOrList::Item(t.clone()))?;
                same("From", &ItemOrList::from(t.clone()), &got)?;
                same("as_item", &got.as_item(), &Some(t))?;
                same("as_list", &got.as_list().is_some(), &false)?;
                same("into_list", &got.clone().into_list().into_iter().collect::<Vec<_>>(), &vec![t.clone()])?;
                same("IndexSet::from", &IndexSet::from(got.clone()).into_iter().collect::<Vec<T>>(), &vec![t.clone()])?;
                same("serialized", &serde_yaml::to_value(&got).map_err(e)?, y)?;
                let text = serde_yaml::to_string(&got).map_err(e)?;
                same("read back", &serde_yaml::from_str::<ItemOrList<T>>(&text).map_err(e)?, &got)
            },
        );
    }
    let depth = ctx.pick(3, 4);
    for len in 0..=depth {
        ctx.par(n.pow(len), |mut i| {
            let mut l: Vec<&(Yaml, T)> = Vec::new();
            for _ in 0..len {
                l.push(&pool[i % n]);
                i /= n;
            }
            ctx.add_states(1);
            ctx.case(
                || format!("{name} list {:?}", l.iter().map(|x| &x.1).collect::<Vec<_>>()),
                || {
                    let set: IndexSet<T> = l.iter().map(|x| x.1.clone()).collect();
                    let order: Vec<T> = set.iter().cloned().collect();
                    let got: ItemOrList<T> = serde_yaml::from_value(Yaml::Sequence(l.iter().map(|x| x.0.clone()).collect())).map_err(e)?;
                    same("list", &got, &ItemOrList::List(set.clone()))?;
                    same("From", &ItemOrList::from(set.clone()), &got)?;
                    same("order", &got.as_list().map(|l| l.iter().cloned().collect::<Vec<_>>()), &Some(order.clone()))?;
                    same("as_item", &got.as_item(), &if order.len() == 1 { order.first() } else { None })?;
                    same("into_list", &got.clone().into_list().into_iter().collect::<Vec<_>>(), &order)?;
                    let text = serde_yaml::to_string(&got).map_err(e)?;
                    let again = serde_yaml::from_str::<ItemOrList<T>>(&text).map_err(e)?;
                    same("read back", &again, &got)?;
                    same("order read back", &again.into_list().into_iter().collect::<Vec<_>>(), &order)?;
                    if let Some(one) = order.first() {
                        is("item != list", got != ItemOrList::Item(one.clone()), &got, one)?;
                    }
                    Ok(())
                },
            );
        });
    }
    for t in bad {
        ctx.case(
            || format!("{name} {t}"),
            || {
                let got = serde_yaml::from_str::<ItemOrList<T>>(t);
                is("neither", got.is_err(), &got, &())
            },
        );
    }
    ctx.part(&format!("ItemOrList<{name}>"), (0..=depth).map(|d| n.pow(d) as u64).sum());
}

fn item_lists(ctx: &Ctx) {
    let strs: Vec<(Yaml, String)> = ["", "a", "b", "1", "true", "null", "[x]", "é"].iter().map(|s| ((*s).into(), (*s).to_owned())).collect();
    items::<String>(ctx, "String", &strs, &["{a: b}", "[[a]]", "[{a: b}]"]);
    let u: Vec<(Yaml, u64)> = [0, 1, 255, u64::MAX].iter().map(|n| ((*n).into(), *n)).collect();
    items::<u64>(ctx, "u64", &u, &["a", "-1", "[a]", "{a: b}", "1.5", "[1.5]", "true"]);
    let i: Vec<(Yaml, i64)> = [0, -1, i64::MIN, i64::MAX].iter().map(|n| ((*n).into(), *n)).collect();
    items::<i64>(ctx, "i64", &i, &["a", "18446744073709551615", "[a]", "{a: b}"]);
    let b: Vec<(Yaml, bool)> = [true, false].iter().map(|n| ((*n).into(), *n)).collect();
    items::<bool>(ctx, "bool", &b, &["1", "a", "[1]", "null"]);
    let c: Vec<(Yaml, char)> = ['a', 'é', '1', ' '].iter().map(|c| (c.to_string().into(), *c)).collect();
    items::<char>(ctx, "char", &c, &["ab", "['']", "{a: b}"]);
    let ip: Vec<(Yaml, IpAddr)> = ["1.2.3.4", "::1", "10.0.0.1", "fe80::1"].iter().map(|s| ((*s).into(), s.parse().unwrap())).collect();
    items::<IpAddr>(ctx, "IpAddr", &ip, &["a", "[a]", "1", "{a: b}", "[1.2.3.4, x]"]);
    let id: Vec<(Yaml, Identifier)> = ["a", "b", "A", "a.b"].iter().map(|s| ((*s).into(), s.parse().unwrap())).collect();
    items::<Identifier>(ctx, "Identifier", &id, &["'-a'", "[a, '']", "{a: b}"]);
    // environment files and commands
    let paths = ["a", "./b", "/c d", "a"];
    for m in 0..3usize.pow(3) {
        let mut list: Vec<ShortOrLong<PathBuf, service::env_file::Config>> = Vec::new();
        let mut ys: Vec<y::Y> = Vec::new();
        let mut single: Vec<Option<PathBuf>> = Vec::new();
        let mut i = m;
        for p in paths.iter().take(3) {
            match i % 3 {
                1 => {
                    list.push(ShortOrLong::Short((*p).into()));
                    ys.push(y::s(*p));
                    single.push(Some((*p).into()));
                }
                2 => {
                    let mut c = service::env_file::Config::from(PathBuf::from(*p));
                    c.required = false;
                    list.push(ShortOrLong::Long(c));
                    ys.push(y::m([("path", y::s(*p)), ("required", y::Y::B(false))]));
                    single.push(None);
                }
                _ => {}
            }
            i /= 3;
        }
        ctx.add_states(1);
        ctx.case(
            || format!("env_file {ys:?}"),
            || {
                let got: EnvFile = serde_yaml::from_value(y::l(ys.clone()).value()).map_err(e)?;
                same("list", &got, &EnvFile::List(list.clone()))?;
                same("From", &EnvFile::from(list.clone()), &got)?;
                same("FromIterator", &list.iter().cloned().collect::<EnvFile>(), &got)?;
                same("into_list", &got.clone().into_list(), &list)?;
                let want = if single.len() == 1 { single[0].clone() } else { None };
                same("as_single", &got.as_single().cloned(), &want)
            },
        );
    }
    for p in ["a", "./b c", "1", "/é", ""] {
        ctx.case(
            || format!("env_file {p:?}"),
            || {
                let got: EnvFile = serde_yaml::from_value(p.into()).map_err(e)?;
                same("single", &got, &EnvFile::Single(p.into()))?;
                same("From<String>", &EnvFile::from(p.to_owned()), &got)?;
                same("From<PathBuf>", &EnvFile::from(PathBuf::from(p)), &got)?;
                same("as_single", &got.as_single().cloned(), &Some(PathBuf::from(p)))?;
                same("into_list", &got.clone().into_list(), &vec![ShortOrLong::Short(PathBuf::from(p))])?;
                same("to YAML", &serde_yaml::to_value(&got).map_err(e)?, &p.into())
            },
        );
    }
    let words = ["", "a", "a b", "-c", "1", "\"q\"", "$X", "é\n"];
    for w in words {
        ctx.case(
            || format!("command {w:?}"),
            || {
                let got: Command = serde_yaml::from_value(w.into()).map_err(e)?;
                same("string", &got, &Command::String(w.into()))?;
                same("From", &Command::from(w.to_owned()), &got)?;
                same("to YAML", &serde_yaml::to_value(&got).map_err(e)?, &w.into())
            },
        );
    }
    let n = words.len();
    for len in 0..=ctx.pick(3, 4) {
        ctx.par(n.pow(len), |mut i| {
            let mut l: Vec<String> = Vec::new();
            for _ in 0..len {
                l.push(words[i % n].into());
                i /= n;
            }
            ctx.add_states(1);
            ctx.case(
                || format!("command {l:?}"),
                || {
                    let y = y::ls(l.clone()).value();
                    let got: Command = serde_yaml::from_value(y.clone()).map_err(e)?;
                    same("list", &got, &Command::List(l.clone()))?;
                    same("From", &Command::from(l.clone()), &got)?;
                    let text = serde_yaml::to_string(&got).map_err(e)?;
                    same("read back", &serde_yaml::from_str::<Command>(&text).map_err(e)?, &got)?;
                    same("to YAML", &serde_yaml::to_value(&got).map_err(e)?, &y)
                },
            );
        });
    }
}

// ---------------------------------------------------------------- attributes which are converted on reading

fn service(y: y::Y) -> Result<Service, String> {
    serde_yaml::from_value(y.value()).map_err(e)
}

/// The list and map forms of additional build contexts read the same.
fn contexts(ctx: &Ctx) {
    let toks = ["0", "1", ".", "-", "+", "e", "a", "/", "true", "false", "nan", "inf", "=", ":", " ", "git://h/", "_"];
    let k = toks.len();
    let depth = ctx.pick(4, 5);
    ctx.part("additional context values", k.pow(depth) as u64);
    let read = |y: y::Y| -> Result<Vec<(String, String, bool)>, String> {
        let s = service(y::m([("build", y::m([("context", y::s(".")), ("additional_contexts", y)]))]))?;
        let Some(ShortOrLong::Long(b)) = s.build else { return Err("not a long build".into()) };
        Ok(b.additional_contexts.iter().map(|(k, v)| (k.to_string(), v.to_string(), v.as_url().is_some())).collect())
    };
    for len in 0..=depth {
        ctx.par(k.pow(len), |mut i| {
            let mut v = String::new();
            for _ in 0..len {
                v.push_str(toks[i % k]);
                i /= k;
            }
            if v.starts_with(' ') || v.ends_with(' ') {
                return;
            }
            ctx.add_states(1);
            ctx.case(
                || format!("additional context {v:?}"),
                || {
                    let list = read(y::l([y::s(format!("k={v}")), y::s("z")]))?;
                    let url = url::Url::parse(&v).ok();
                    let text = url.as_ref().map_or_else(|| v.clone(), |u| u.to_string());
                    let dot = if v.is_empty() { ".".to_owned() } else { text.clone() };
                    same("list", &list, &vec![("k".into(), dot, url.is_some()), ("z".into(), ".".into(), false)])?;
                    let map = read(y::m([("k", y::s(v.clone())), ("z", y::Y::Null)]))?;
                    same("map", &map, &vec![("k".into(), text, url.is_some()), ("z".into(), ".".into(), false)])
                },
            );
        });
    }
    for (bad, y) in [
        ("empty key", y::ls(["=v"])),
        ("empty item", y::ls([""])),
        ("number", y::l([y::i(1)])),
        ("nested", y::m([("k", y::ls(["a"]))])),
        ("empty key in a map", y::m([("", y::s("a"))])),
    ] {
        ctx.case(|| format!("additional contexts: {bad}"), || is("read", read(y.clone()).is_err(), &read(y.clone()), &()));
    }
    let pairs = ["a=1", "a=2", "b=x", "a", "b=", "c=d=e"];
    let n = pairs.len();
    ctx.par(n * n * n, |i| {
        let l = [pairs[i % n], pairs[i / n % n], pairs[i / n / n]];
        ctx.add_states(1);
        ctx.case(
            || format!("additional contexts {l:?}"),
            || {
                let mut want: IndexMap<String, (String, bool)> = IndexMap::new();
                for p in l {
                    let (k, v) = p.split_once('=').unwrap_or((p, ""));
                    want.insert(k.into(), (if v.is_empty() { "." } else { v }.into(), false));
                }
                let mut seen: IndexSet<&str> = IndexSet::new();
                for p in l {
                    seen.insert(p);
                }
                let mut want: IndexMap<String, (String, bool)> = IndexMap::new();
                for p in seen {
                    let (k, v) = p.split_once('=').unwrap_or((p, ""));
                    want.insert(k.into(), (if v.is_empty() { "." } else { v }.into(), false));
                }
                same("contexts", &read(y::ls(l))?, &want.into_iter().map(|(k, (v, u))| (k, v, u)).collect::<Vec<_>>())
            },
        );
    });
}

/// Scalars in the attributes which take any of them are kept.
fn attributes(ctx: &Ctx) {
    let pool = scalars();
    ctx.par(pool.len(), |i| {
        let k = &pool[i];
        if matches!(k, K::I(n) if *n >= 0) {
            return;
        }
        ctx.add_states(1);
        ctx.case(
            || format!("attribute value {k:?}"),
            || {
                let yv = k.yaml();
                let doc = |path: &[&str]| -> Yaml {
                    path.iter().rev().fold(yv.clone(), |v, p| Yaml::Mapping([(Yaml::from(*p), v)].into_iter().collect()))
                };
                let s: Service = serde_yaml::from_value(doc(&["environment", "K"])).map_err(e)?;
                let got = s.environment.as_map().and_then(|m| m.get("K")).and_then(Option::as_ref).ok_or("no environment")?;
                is("environment", value_is(got, k), got, k)?;
                let back = serde_yaml::to_value(&s).map_err(e)?;
                is("environment written", same_yaml(&back["environment"]["K"], &yv), &back, k)?;
                for attr in ["labels", "annotations", "sysctls", "storage_opt"] {
                    let s: Service = serde_yaml::from_value(doc(&[attr, "K"])).map_err(e)?;
                    let m = match attr {
                        "labels" => s.labels.as_map(),
                        "annotations" => s.annotations.as_map(),
                        "sysctls" => s.sysctls.as_map(),
                        _ => Some(&s.storage_opt),
                    };
                    let got = m.and_then(|m| m.get("K")).and_then(Option::as_ref).ok_or("no value")?;
                    is(attr, value_is(got, k), got, k)?;
                }
                let log: Result<Service, _> = serde_yaml::from_value(doc(&["logging", "options", "K"]));
                match (k, log) {
                    (K::B(_), Err(_)) => Ok(()),
                    (K::B(_), Ok(_)) => Err("a bool as a logging option".into()),
                    (_, Err(err)) => Err(format!("logging: {err}")),
                    (k, Ok(s)) => {
                        let l = s.logging.ok_or("no logging")?;
                        let got = l.options.get("K").and_then(Option::as_ref).ok_or("no option")?;
                        is("logging option", son_is(got, k), got, k)
                    }
                }
            },
        );
    });
}

pub fn run(ctx: &Ctx) {
    each_scalar(ctx);
    parsing(ctx);
    lists(ctx);
    item_lists(ctx);
    contexts(ctx);
    attributes(ctx);
}
