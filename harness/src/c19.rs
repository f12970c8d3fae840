//! C19: bounded numbers accept exactly their range, keep it exactly, and read and write their unlimited forms.
use std::{
    fmt::Debug,
    num::NonZeroU16,
    sync::atomic::{AtomicU64, Ordering::Relaxed},
};

use compose_spec::{
    service::{
        blkio_config::Weight,
        deploy::resources::{Count, Cpus},
        ByteValue, Limit, OomScoreAdj, Percent,
    },
    Compose,
};
use serde_yaml::Value;

use crate::engine::{guard, Ctx};

pub const ASSUME: &[&str] = &[
    "-0.0 CPUs are not judged, nor is whether whole CPUs above 2^32 are accepted",
    "a quoted number for an attribute which is only documented as a number may be rejected; if it is accepted, it must be that number",
];

fn e(t: impl std::fmt::Display) -> String {
    t.to_string()
}

/// Judge an acceptance: `want` is the exact value kept.
fn verdict<T: PartialEq + Debug, E: Debug>(got: Result<T, E>, want: Option<T>) -> Result<(), String> {
    match (&got, &want) {
        (Ok(a), Some(b)) if a == b => Ok(()),
        (Err(_), None) => Ok(()),
        _ => Err(format!("got {got:?}, expected {want:?}")),
    }
}

fn yaml<T: serde::de::DeserializeOwned>(t: &str) -> Result<T, String> {
    let a = serde_yaml::from_str::<T>(t).map_err(e);
    a
}

fn typed(ctx: &Ctx) {
    // every u8, i16 and u16
    for n in 0..=u8::MAX {
        ctx.add_states(1);
        let want = (n <= 100).then_some(n);
        ctx.case(
            || format!("Percent {n}"),
            || {
                verdict(Percent::new(n).map(Percent::into_inner), want)?;
                verdict(Percent::try_from(n).map(u8::from), want)?;
                verdict(yaml::<Percent>(&n.to_string()).map(u8::from), want)?;
                verdict(serde_yaml::from_value::<Percent>(n.into()).map(u8::from), want)?;
                if let Ok(p) = Percent::new(n) {
                    for m in 0..=u8::MAX {
                        if (p == m) != (n == m) {
                            return Err(format!("== {m}"));
                        }
                    }
                    if serde_yaml::to_value(p).map_err(e)? != Value::from(n) {
                        return Err("written as another number".into());
                    }
                }
                Ok(())
            },
        );
    }
    for n in i16::MIN..=i16::MAX {
        ctx.add_states(1);
        let want = (-1000..=1000).contains(&n).then_some(n);
        ctx.case(
            || format!("OomScoreAdj {n}"),
            || {
                verdict(OomScoreAdj::new(n).map(i16::from), want)?;
                verdict(OomScoreAdj::try_from(n).map(i16::from), want)?;
                verdict(yaml::<OomScoreAdj>(&n.to_string()).map(i16::from), want)?;
                if let Ok(p) = OomScoreAdj::new(n) {
                    for m in [n, n.wrapping_neg(), n.wrapping_add(1), 0, i16::MIN, i16::MAX] {
                        if (p == m) != (n == m) {
                            return Err(format!("== {m}"));
                        }
                    }
                    if serde_yaml::to_value(p).map_err(e)? != Value::from(n) {
                        return Err("written as another number".into());
                    }
                }
                Ok(())
            },
        );
    }
    for n in 0..=u16::MAX {
        ctx.add_states(1);
        let want = (10..=1000).contains(&n).then_some(n);
        ctx.case(
            || format!("Weight {n}"),
            || {
                verdict(Weight::new(n).map(u16::from), want)?;
                verdict(Weight::try_from(n).map(u16::from), want)?;
                if let Some(nz) = NonZeroU16::new(n) {
                    verdict(Weight::new(nz).map(|w| w.into_inner().get()), want)?;
                    verdict(Weight::try_from(nz).map(NonZeroU16::from), want.and_then(NonZeroU16::new))?;
                }
                verdict(yaml::<Weight>(&n.to_string()).map(u16::from), want)?;
                if let Ok(w) = Weight::new(n) {
                    if w.to_string() != n.to_string() {
                        return Err(format!("printed as {w}"));
                    }
                    for m in [n, n + 1, n - 1, 500, 0] {
                        if (w == m) != (n == m) || NonZeroU16::new(m).is_some_and(|m| (w == m) != (n == m.get())) {
                            return Err(format!("== {m}"));
                        }
                    }
                    if serde_yaml::to_value(w).map_err(e)? != Value::from(n) {
                        return Err("written as another number".into());
                    }
                }
                Ok(())
            },
        );
    }
    ctx.case(
        || "defaults".into(),
        || {
            if u16::from(Weight::default()) != 500 || Weight::DEFAULT != Weight::default() {
                return Err("default weight".into());
            }
            if Cpus::default().into_inner().to_bits() != 0 || Count::default() != Count::All {
                return Err("default cpus or count".into());
            }
            if Limit::<u32>::default() != Limit::Unlimited || Limit::<ByteValue>::default() != Limit::Unlimited {
                return Err("default limit".into());
            }
            Ok(())
        },
    );
    ctx.part("values of u8, i16 and u16", 256 + 65_536 * 2);
}

fn good_f64(x: f64) -> Option<bool> {
    if x == 0.0 && x.is_sign_negative() {
        return None;
    }
    Some(x.is_finite() && x >= 0.0)
}

fn cpus(ctx: &Ctx) {
    // every f32
    let bits: usize = 256;
    let step: u32 = ctx.pick(251, 1);
    let seen = AtomicU64::new(0);
    ctx.par(bits, |hi| {
        let mut bad: Option<u32> = None;
        let lo_all = 1u32 << 24;
        let mut n = 0u64;
        let mut one = |b: u32| {
            n += 1;
            let x = f32::from_bits(b);
            let Some(ok) = good_f64(f64::from(x)) else { return };
            let right = match Cpus::try_from(x) {
                Ok(c) => ok && c.into_inner().to_bits() == f64::from(x).to_bits(),
                Err(_) => !ok,
            };
            if !right && bad.is_none() {
                bad = Some(b);
            }
        };
        let base = (hi as u32) << 24;
        let mut lo = 0;
        while lo < lo_all {
            one(base | lo);
            lo += step;
        }
        for edge in [1, 2, lo_all - 1, lo_all - 2, 1 << 23, (1 << 23) - 1, (1 << 23) + 1] {
            one(base | edge);
        }
        seen.fetch_add(n, Relaxed);
        ctx.case(|| format!("Cpus from f32 {hi:#x}"), || bad.map_or(Ok(()), |b| Err(format!("{:?}", f32::from_bits(b)))));
    });
    ctx.add_states(seen.load(Relaxed));
    ctx.part("f32 values", seen.load(Relaxed));
    // every exponent of f64 with boundary mantissas
    let mut mant: Vec<u64> = vec![0, 1, 2, 3, (1 << 52) - 1, (1 << 52) - 2];
    for k in 0..52 {
        mant.push(1 << k);
        mant.push((1 << k) - 1);
        mant.push(((1 << 52) - 1) ^ (1 << k));
    }
    mant.extend([0x5555555555555, 0xAAAAAAAAAAAAA, 0x999999999999A, 0x3333333333333, 0x1999999999999]);
    mant.sort_unstable();
    mant.dedup();
    ctx.part("f64 values", 4096 * mant.len() as u64);
    ctx.par(4096, |hi| {
        for m in &mant {
            ctx.add_states(1);
            let x = f64::from_bits((hi as u64) << 52 | m);
            let Some(ok) = good_f64(x) else { continue };
            ctx.case(
                || format!("Cpus from f64 {x:e}"),
                || {
                    let want = ok.then(|| x.to_bits());
                    let bits = |c: Cpus| c.into_inner().to_bits();
                    verdict(Cpus::new(x).map(bits), want)?;
                    verdict(Cpus::try_from(x).map(bits), want)?;
                    verdict(serde_yaml::from_value::<Cpus>(x.into()).map(bits), want)?;
                    let Ok(c) = Cpus::new(x) else { return Ok(()) };
                    if f64::from(c).to_bits() != x.to_bits() || c != x || c.partial_cmp(&x) != Some(std::cmp::Ordering::Equal) {
                        return Err("not equal to its number".into());
                    }
                    let t = serde_yaml::to_string(&c).map_err(e)?;
                    verdict(yaml::<Cpus>(&t).map(bits), want)?;
                    // the same as a string
                    let q = format!("'{}'", t.trim());
                    verdict(yaml::<Cpus>(&q).map(bits), want)
                },
            );
        }
    });
    // every i8, i16; u8, u16; i32 and u32 at boundaries (thorough: all of i32 in strides)
    ctx.case(
        || "Cpus from small integers".into(),
        || {
            for n in i8::MIN..=i8::MAX {
                verdict(Cpus::try_from(n).map(f64::from), (n >= 0).then_some(f64::from(n)))?;
            }
            for n in i16::MIN..=i16::MAX {
                verdict(Cpus::try_from(n).map(f64::from), (n >= 0).then_some(f64::from(n)))?;
            }
            for n in 0..=u8::MAX {
                verdict::<_, ()>(Ok(f64::from(Cpus::from(n))), Some(f64::from(n)))?;
            }
            for n in 0..=u16::MAX {
                verdict::<_, ()>(Ok(f64::from(Cpus::from(n))), Some(f64::from(n)))?;
            }
            Ok(())
        },
    );
    let step: i64 = ctx.pick(65_521, 1);
    ctx.par(256, |k| {
        ctx.case(
            || format!("Cpus from 32-bit integers {k}"),
            || {
                let (lo, hi) = (i64::from(i32::MIN) + ((k as i64) << 24), i64::from(i32::MIN) + ((k as i64 + 1) << 24));
                let mut n = lo;
                let mut m = 0;
                while n < hi {
                    for x in [n, hi - 1 - (n - lo)] {
                        m += 1;
                        let i = x as i32;
                        verdict(Cpus::try_from(i).map(f64::from), (i >= 0).then_some(f64::from(i)))?;
                        let u = i as u32;
                        verdict::<_, ()>(Ok(f64::from(Cpus::from(u))), Some(f64::from(u)))?;
                    }
                    n += step;
                }
                ctx.add_states(m);
                Ok(())
            },
        );
    });
    // texts
    for (t, want) in [
        ("1", Some(1.0)), ("0", Some(0.0)), ("0.5", Some(0.5)), ("'1.5'", Some(1.5)), ("'2'", Some(2.0)), ("1e2", Some(100.0)), ("'1e2'", Some(100.0)),
        (".5", Some(0.5)), ("4294967295", Some(4294967295.0)), ("4294967296.0", Some(4294967296.0)), ("1.7976931348623157e308", Some(f64::MAX)),
        ("5e-324", Some(5e-324)), ("0.1", Some(0.1)), ("0x10", Some(16.0)),
        ("-1", None), ("-0.5", None), ("'-1'", None), ("-1e-300", None), (".inf", None), ("-.inf", None), (".nan", None), ("'inf'", None), ("'-inf'", None),
        ("'nan'", None), ("'infinity'", None), ("'NaN'", None), ("''", None), ("a", None), ("'1 '", None), ("' 1'", None), ("'1,5'", None), ("'0x1'", None), ("[1]", None), ("{}", None),
        ("true", None), ("-2147483648", None), ("-2147483649", None), ("-9223372036854775808", None), ("'1e999'", None), ("'-1e999'", None), ("'1.5.2'", None), ("'1%'", None), ("'1/2'", None),
    ] {
        ctx.add_states(1);
        ctx.case(
            || format!("Cpus from {t}"),
            || {
                verdict(yaml::<Cpus>(t).map(f64::from), want)?;
                let v: Value = serde_yaml::from_str(t).map_err(e)?;
                verdict(serde_yaml::from_value::<Cpus>(v).map(f64::from), want)
            },
        );
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    /// From, to; written as the same number.
    Int(i128, i128),
    /// -1 for unlimited, or a number.
    Limit(i128),
    /// The same, written with its unit.
    Bytes,
    /// A number, or "all", or a quoted number.
    Count,
    /// A quoted number.
    Quoted(i128),
    /// A number or a quoted number, written as a number. (Ports.)
    Cpus,
}

const U64: Kind = Kind::Int(0, u64::MAX as i128);
const U32: Kind = Kind::Int(0, u32::MAX as i128);

/// Every numeric attribute: where it is.
const FIELDS: &[(&str, Kind)] = &[
    ("services.s.cpu_count", U64),
    ("services.s.cpu_shares", U64),
    ("services.s.scale", U64),
    ("services.s.cpu_percent", Kind::Int(0, 100)),
    ("services.s.mem_swappiness", Kind::Int(0, 100)),
    ("services.s.oom_score_adj", Kind::Int(-1000, 1000)),
    ("services.s.cpus", Kind::Cpus),
    ("services.s.pids_limit", Kind::Limit(u32::MAX as i128)),
    ("services.s.memswap_limit", Kind::Bytes),
    ("services.s.blkio_config.weight", Kind::Int(10, 1000)),
    ("services.s.blkio_config.weight_device.0.path=/d.weight", Kind::Int(10, 1000)),
    ("services.s.blkio_config.device_read_iops.0.path=/d.rate", U64),
    ("services.s.blkio_config.device_write_iops.0.path=/d.rate", U64),
    ("services.s.deploy.replicas", U64),
    ("services.s.deploy.placement.max_replicas_per_node", U64),
    ("services.s.deploy.restart_policy.max_attempts", U64),
    ("services.s.deploy.update_config.parallelism", U64),
    ("services.s.deploy.rollback_config.parallelism", U64),
    ("services.s.deploy.resources.limits.cpus", Kind::Cpus),
    ("services.s.deploy.resources.limits.pids", Kind::Limit(u32::MAX as i128)),
    ("services.s.deploy.resources.reservations.cpus", Kind::Cpus),
    ("services.s.deploy.resources.reservations.devices.0.capabilities=[gpu].count", Kind::Count),
    ("services.s.deploy.resources.reservations.generic_resources.0.discrete_resource_spec.value", U64),
    ("services.s.healthcheck.test=a.retries", U64),
    ("services.s.networks.n.priority", U64),
    ("services.s.ports.0.target", Kind::Int(0, 65_535)),
    ("services.s.configs.0.source=c.mode", U32),
    ("services.s.secrets.0.source=c.mode", U32),
    ("services.s.build.secrets.0.source=c.mode", U32),
    ("services.s.configs.0.source=c.uid", Kind::Quoted(u32::MAX as i128)),
    ("services.s.configs.0.source=c.gid", Kind::Quoted(u32::MAX as i128)),
    ("services.s.secrets.0.source=c.uid", Kind::Quoted(u32::MAX as i128)),
    ("services.s.secrets.0.source=c.gid", Kind::Quoted(u32::MAX as i128)),
    ("services.s.ulimits.nofile", Kind::Limit(u64::MAX as i128)),
    ("services.s.ulimits.nofile.hard=1.soft", Kind::Limit(u64::MAX as i128)),
    ("services.s.ulimits.nofile.soft=1.hard", Kind::Limit(u64::MAX as i128)),
    ("services.s.build.ulimits.nofile", Kind::Limit(u64::MAX as i128)),
    ("services.s.volumes.0.type=tmpfs,target=/t.tmpfs.mode", U32),
];

/// The text of the document with the scalar at the path, and the path.
fn document(path: &str, scalar: &str) -> (String, Vec<String>) {
    let mut text = String::from("{");
    let mut close = vec!['}'];
    let mut steps = vec![];
    if !path.starts_with("services") {
        text.push_str("services: {}, ");
    }
    let parts: Vec<&str> = path.split('.').collect();
    for (k, p) in parts.iter().enumerate() {
        if let Some((_, _)) = p.split_once('=') {
            // siblings of the next step
            for kv in p.split(',') {
                let (key, v) = kv.split_once('=').unwrap();
                text.push_str(&format!("{key}: {v}, "));
            }
            continue;
        }
        steps.push((*p).to_owned());
        if *p == "0" {
            text.push('[');
            // replaces the brace which the step before opened
            close.pop();
            let at = text.rfind('{').unwrap();
            text.remove(at);
            close.push(']');
        } else {
            text.push_str(&format!("{p}: "));
        }
        if k + 1 < parts.len() {
            text.push('{');
            close.push('}');
        } else {
            text.push_str(scalar);
        }
    }
    while let Some(c) = close.pop() {
        text.push(c);
    }
    (text, steps)
}

fn at<'a>(mut v: &'a Value, steps: &[String]) -> Option<&'a Value> {
    for s in steps {
        v = match v {
            Value::Mapping(m) => m.get(s.as_str())?,
            Value::Sequence(q) => q.get(s.parse::<usize>().ok()?)?,
            _ => return None,
        };
    }
    Some(v)
}

/// The integer a written value is.
fn int(v: &Value) -> Option<i128> {
    v.as_i64().map(i128::from).or_else(|| v.as_u64().map(i128::from))
}

fn numbers(ctx: &Ctx) -> Vec<i128> {
    let dense: i128 = ctx.pick(1_100, 70_000);
    let mut v: std::collections::BTreeSet<i128> = (-dense..=dense).collect();
    for k in 0..=66 {
        for d in -2..=2 {
            v.insert((1i128 << k) + d);
            v.insert(-(1i128 << k) + d);
        }
    }
    let mut p = 1i128;
    for _ in 0..22 {
        for d in -1..=1 {
            v.insert(p + d);
            v.insert(-p + d);
            v.insert(5 * p + d);
        }
        p *= 10;
    }
    v.into_iter().collect()
}

/// What the attribute holds after reading an integer, or `None` for a rejection; the outer `None` is unjudged.
fn expect(kind: Kind, n: i128) -> Option<Option<Value>> {
    let num = |n: i128| {
        if n < 0 {
            Value::from(n as i64)
        } else {
            Value::from(n as u64)
        }
    };
    Some(match kind {
        Kind::Int(a, b) => (a..=b).contains(&n).then(|| num(n)),
        Kind::Limit(max) => (n == -1 || (0..=max).contains(&n)).then(|| num(n)),
        Kind::Bytes if n == -1 => Some(num(n)),
        Kind::Bytes => (0..=i128::from(u64::MAX)).contains(&n).then(|| Value::from(format!("{n}b"))),
        Kind::Count => (0..=i128::from(u64::MAX)).contains(&n).then(|| num(n)),
        // a plain number where a string is documented
        Kind::Quoted(_) => return None,
        Kind::Cpus => {
            if n > i128::from(u32::MAX) {
                return None;
            }
            (n >= 0).then(|| Value::from(n as f64))
        }
    })
}

/// The same for a string holding the number.
fn expect_quoted(kind: Kind, n: i128) -> Option<Option<Value>> {
    match kind {
        Kind::Count => expect(kind, n),
        Kind::Quoted(max) => Some((0..=max).contains(&n).then(|| Value::from(n.to_string()))),
        Kind::Cpus => (n <= 1 << 53).then(|| (n >= 0).then(|| Value::from(n as f64))),
        Kind::Limit(_) | Kind::Bytes if n == -1 => Some(Some(Value::from(-1))),
        _ => None,
    }
}

/// What a number is written as, if it is accepted at all.
fn same_number(kind: Kind, n: i128) -> Option<Value> {
    match kind {
        Kind::Quoted(max) => (0..=max).contains(&n).then(|| Value::from(n.to_string())),
        Kind::Cpus => (n >= 0).then(|| Value::from(n as f64)),
        Kind::Int(..) | Kind::Limit(_) | Kind::Bytes | Kind::Count => expect(kind, n).flatten(),
    }
}

fn read(text: &str) -> [(&'static str, Result<Compose, String>); 3] {
    let mut o = Compose::options();
    let a = o.from_yaml_str(text).map_err(e);
    let b = serde_yaml::from_str::<Value>(text).and_then(|v| o.from_yaml_value(v)).map_err(e);
    let c = o.apply_merge(true).from_yaml_str(text).map_err(e);
    [("text", a), ("value", b), ("merge", c)]
}

fn documents(ctx: &Ctx) {
    let nums = numbers(ctx);
    ctx.part("numeric attributes", FIELDS.len() as u64);
    ctx.part("integers for each", nums.len() as u64);
    let judge = |text: &str, steps: &[String], want: Option<Value>| -> Result<(), String> {
        for (name, r) in read(text) {
            match (r, &want) {
                (Err(_), None) => {}
                (Ok(c), Some(want)) => {
                    let v = serde_yaml::to_value(&c).map_err(e)?;
                    let got = at(&v, steps);
                    if got != Some(want) {
                        return Err(format!("{name}: written as {got:?}, should be {want:?}"));
                    }
                    // and it is text of the same meaning
                    let t = serde_yaml::to_string(&c).map_err(e)?;
                    let v: Value = serde_yaml::from_str(&t).map_err(e)?;
                    if at(&v, steps) != Some(want) {
                        return Err(format!("{name}: written text {t:?}"));
                    }
                }
                (r, want) => return Err(format!("{name}: got {r:?}, expected {want:?}")),
            }
        }
        Ok(())
    };
    ctx.par(FIELDS.len(), |f| {
        let (path, kind) = FIELDS[f];
        for &n in &nums {
            let dec = n.to_string();
            let mut forms = vec![(dec.clone(), expect(kind, n))];
            forms.push((format!("'{n}'"), expect_quoted(kind, n)));
            if n >= 0 && (n % 16 == 0 || n > 1100) {
                forms.push((format!("0x{n:x}"), expect(kind, n)));
                forms.push((format!("0o{n:o}"), expect(kind, n)));
            }
            if n % 10 == 0 && !matches!(kind, Kind::Cpus) {
                // no integers
                for t in [format!("{n}.0"), format!("{n}.5"), format!("{n}e0"), format!("{n}e1")] {
                    forms.push((t, Some(None)));
                }
            }
            for (t, want) in forms {
                let Some(want) = want else {
                    // whether it is accepted is not judged, but then it is this number
                    let (text, steps) = document(path, &t);
                    let want = same_number(kind, n);
                    ctx.add_states(1);
                    ctx.case(
                        || text.clone(),
                        || {
                            for (name, r) in read(&text) {
                                let Ok(c) = r else { continue };
                                let v = serde_yaml::to_value(&c).map_err(e)?;
                                let got = at(&v, &steps);
                                if want.is_none() || got != want.as_ref() {
                                    return Err(format!("{name}: written as {got:?}, should be {want:?}"));
                                }
                            }
                            Ok(())
                        },
                    );
                    continue;
                };
                // beyond 64 bits, a value holds no such integer: only the rejection counts
                let (text, steps) = document(path, &t);
                ctx.add_states(1);
                ctx.case(|| text.clone(), || judge(&text, &steps, want));
            }
        }
        let other: &[&str] = &[
            "''", "' '", "a", "true", "[]", "[1]", "{}", "{a: 1}", ".inf", "-.inf", ".nan", "'1 '", "' 1'", "'1a'", "'-'", "'0x10'", "'1.5'", "'1_000'", "1_000", "'--1'", "'-2'",
            "'18446744073709551616'", "'99999999999999999999999999999999999999999'", "ALL", "All", "'all '",
        ];
        for t in other {
            let listed = matches!(kind, Kind::Cpus) && *t == "'1.5'";
            // another documented form of the same attribute
            let long = path.ends_with("nofile") && t.starts_with('{')
                || path.ends_with("memswap_limit") && (*t == "'1b'")
                || path.ends_with("cpus") && t.ends_with("9'") || path.ends_with("cpus") && t.ends_with("616'");
            if listed || long {
                continue;
            }
            let (text, steps) = document(path, t);
            ctx.add_states(1);
            ctx.case(|| text.clone(), || judge(&text, &steps, None));
        }
        for (t, want) in match kind {
            Kind::Count => vec![("all", Some(Value::from("all"))), ("'all'", Some(Value::from("all")))],
            Kind::Int(..) => vec![("all", None), ("'-1.0'", None), ("unlimited", None)],
            Kind::Limit(_) | Kind::Bytes => vec![("all", None), ("unlimited", None), ("'-01'", None), ("-1.0", None), ("'-1.0'", None), ("'-1 '", None), ("' -1'", None)],
            _ => vec![],
        } {
            let (text, steps) = document(path, t);
            ctx.add_states(1);
            ctx.case(|| text.clone(), || judge(&text, &steps, want.clone()));
        }
    });
}

fn limits(ctx: &Ctx) {
    let nums = numbers(ctx);
    ctx.par(nums.len(), |k| {
        let n = nums[k];
        ctx.add_states(4);
        ctx.case(
            || format!("Limit and Count of {n}"),
            || {
                let t = n.to_string();
                let want32 = if n == -1 { Some(Limit::Unlimited) } else { u32::try_from(n).ok().map(Limit::Value) };
                let want64 = if n == -1 { Some(Limit::Unlimited) } else { u64::try_from(n).ok().map(Limit::Value) };
                let wantb = if n == -1 { Some(Limit::Unlimited) } else { u64::try_from(n).ok().map(|n| Limit::Value(ByteValue::Bytes(n))) };
                verdict(t.parse::<Limit<u32>>(), want32)?;
                verdict(t.parse::<Limit<u64>>(), want64)?;
                verdict(yaml::<Limit<u32>>(&t), want32)?;
                verdict(yaml::<Limit<u64>>(&t), want64)?;
                verdict(yaml::<Limit<ByteValue>>(&t), wantb)?;
                verdict(t.parse::<Count>(), u64::try_from(n).ok().map(Count::Integer))?;
                verdict(yaml::<Count>(&t), u64::try_from(n).ok().map(Count::Integer))?;
                if let Some(l) = want32 {
                    if l.to_string() != t || serde_yaml::to_string(&l).map_err(e)?.trim() != t {
                        return Err(format!("printed as {l}"));
                    }
                }
                if let Some(l) = want64 {
                    if l.to_string() != t || serde_yaml::to_string(&l).map_err(e)?.trim() != t {
                        return Err(format!("printed as {l}"));
                    }
                }
                if let Ok(x) = u32::try_from(n) {
                    if Limit::from(x) != Limit::Value(x) {
                        return Err("From".into());
                    }
                }
                if let Ok(x) = u64::try_from(n) {
                    if Limit::from(x) != Limit::Value(x) || Count::from(x) != Count::Integer(x) || Count::from(x) != x || Count::All == x {
                        return Err("From".into());
                    }
                    if Limit::from(ByteValue::Bytes(x)) != Limit::Value(ByteValue::Bytes(x)) {
                        return Err("From".into());
                    }
                }
                Ok(())
            },
        );
    });
    // a limit of any value is below no limit
    for (a, b) in [(0u64, 1u64), (1, u64::MAX), (u64::MAX, u64::MAX), (5, 3)] {
        ctx.case(
            || format!("order of limits {a} {b}"),
            || {
                if Limit::Value(a).cmp(&Limit::Value(b)) != a.cmp(&b) || Limit::Value(a) >= Limit::Unlimited {
                    return Err("order".into());
                }
                Ok(())
            },
        );
    }
    for t in ["", "all", "-2", "-01", "+", "-", "- 1", "1 ", " 1", "-1 ", "1.0", "0x1", "4294967296", "99999999999999999999", "−1", "１", "1b", "unlimited", "None"] {
        ctx.add_states(1);
        ctx.case(
            || format!("texts {t:?}"),
            || {
                let r = guard(|| t.parse::<Limit<u32>>())?;
                if r.is_ok() {
                    return Err(format!("Limit {r:?}"));
                }
                let r = guard(|| t.parse::<Count>())?;
                let want = match t {
                    "all" => Some(Count::All),
                    "4294967296" => Some(Count::Integer(4294967296)),
                    _ => None,
                };
                if r.clone().ok() != want {
                    return Err(format!("Count {r:?}"));
                }
                Ok(())
            },
        );
    }
}

/// A format may hand over an integer in any width which holds it: it is the same number.
fn widths(ctx: &Ctx) {
    use compose_spec::{
        service::{ports::Port, user::IdOrName, Expose, Ulimit},
        ItemOrList, Number, ShortOrLong, StringOrNumber,
    };
    use serde::de::{value::Error, DeserializeOwned, IntoDeserializer};
    let mut numbers = std::collections::BTreeSet::new();
    for k in 0..=127 {
        for d in -2..=2 {
            let n = (1i128.checked_shl(k).unwrap_or(i128::MAX)).wrapping_add(d);
            numbers.insert(n);
            numbers.insert(n.wrapping_neg());
        }
    }
    numbers.extend(-1100..=1100);
    let numbers: Vec<i128> = numbers.into_iter().collect();
    fn one<T: DeserializeOwned + PartialEq + Debug>(ctx: &Ctx, name: &str, numbers: &[i128]) {
        ctx.par(numbers.len(), |k| {
            let n = numbers[k];
            ctx.add_states(1);
            ctx.case(
                || format!("{name} from {n} in all widths"),
                || {
                    let mut got: Vec<(&str, Result<T, Error>)> = vec![];
                    macro_rules! width {
                        ($($t:ident)*) => {$(
                            if let Ok(n) = $t::try_from(n) {
                                got.push((stringify!($t), T::deserialize(n.into_deserializer())));
                            }
                        )*};
                    }
                    width!(i64 u64 i8 i16 i32 u8 u16 u32);
                    let narrow = got.len();
                    width!(i128 u128);
                    // what YAML says, for a number which it holds as such; a width may be unsupported
                    if narrow > 0 {
                        let text = serde_yaml::from_str::<T>(&n.to_string());
                        for (w, r) in &got {
                            match (&text, r) {
                                (Ok(a), Ok(b)) if a == b => {}
                                // the kind of integer may be that of the width
                                (Ok(a), Ok(b)) if format!("{a:?}").replace("Unsigned", "Signed") == format!("{b:?}").replace("Unsigned", "Signed") => {}
                                (_, Err(_)) => {}
                                (a, b) => return Err(format!("from YAML: {a:?}, from {w}: {b:?}")),
                            }
                        }
                        // the one which YAML and JSON use
                        let natural = if n < 0 { "i64" } else { "u64" };
                        let natural = got.iter().find(|(w, _)| *w == natural).map(|(_, r)| r.is_ok());
                        if natural != Some(text.is_ok()) {
                            return Err(format!("from YAML: {text:?}, but from a number: {got:?}"));
                        }
                    }
                    // beyond 64 bits nothing holds an integer
                    if narrow == 0 {
                        for (w, r) in &got {
                            if let Ok(v) = r {
                                let text = format!("{v:?}");
                                if !text.contains(&n.to_string()) {
                                    return Err(format!("from {w}: {text}"));
                                }
                            }
                        }
                    }
                    Ok(())
                },
            );
        });
        ctx.part(&format!("{name} in all widths"), numbers.len() as u64);
    }
    macro_rules! each {
        ($($t:ty;)*) => {$( one::<$t>(ctx, stringify!($t), &numbers); )*};
    }
    each! {
        Percent; OomScoreAdj; Weight; Cpus; Count; ByteValue; Limit<u32>; Limit<u64>; Limit<ByteValue>; Limit<Cpus>; Expose; IdOrName;
        compose_spec::Value; Number; StringOrNumber; ShortOrLong<Limit<u64>, Ulimit>;
        ShortOrLong<compose_spec::service::ports::ShortPort, Port>; ItemOrList<Expose>;
    }
}

pub fn run(ctx: &Ctx) {
    typed(ctx);
    widths(ctx);
    cpus(ctx);
    limits(ctx);
    documents(ctx);
}
