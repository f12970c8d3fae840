//! C12: durations and byte quantities. The model computes with 128-bit integers.
use std::{collections::BTreeSet, time::Duration};

use compose_spec::{
    duration,
    service::{ByteValue, Healthcheck, Limit, Service},
};

use crate::engine::Ctx;

const UNITS: &[(&str, u128)] = &[
    ("h", 3_600_000_000),
    ("m", 60_000_000),
    ("s", 1_000_000),
    ("ms", 1_000),
    ("us", 1),
];

/// Reference reading: microseconds, or why not.
fn model_parse(s: &str) -> Option<u128> {
    if s.is_empty() {
        return None;
    }
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut sum: u128 = 0;
    while i < b.len() {
        let start = i;
        let mut v: u128 = 0;
        while i < b.len() && b[i].is_ascii_digit() {
            v = v.saturating_mul(10).saturating_add(b[i] as u128 - '0' as u128);
            i += 1;
        }
        if i == start {
            return None;
        }
        let ustart = i;
        while i < b.len() && !b[i].is_ascii_digit() {
            i += 1;
        }
        let unit: String = b[ustart..i].iter().collect();
        let f = UNITS.iter().find(|u| u.0 == unit)?.1;
        if v > u128::from(u64::MAX) {
            return None; // a value which does not fit is an error
        }
        sum = sum.saturating_add(v.saturating_mul(f));
    }
    (sum / 1_000_000 <= u128::from(u64::MAX)).then_some(sum)
}

fn dur(us: u128) -> Duration {
    Duration::new((us / 1_000_000) as u64, (us % 1_000_000) as u32 * 1000)
}

/// Whether a number is so large that the implementation may refuse it although another term order or
/// unit could represent it. (None are.)
fn check_str(ctx: &Ctx, s: &str) {
    let want = model_parse(s);
    ctx.case(
        || format!("duration {s:?}"),
        || match (duration::parse(s), want) {
            (Ok(d), Some(us)) if d == dur(us) => {
                let t = duration::to_string(d);
                if model_parse(&t) != Some(us) {
                    return Err(format!("printed as {t:?}"));
                }
                Ok(())
            }
            (Err(_), None) => Ok(()),
            (got, want) => Err(format!("got {got:?}, expected {want:?} us")),
        },
    );
}

fn values() -> Vec<String> {
    let mut v: BTreeSet<u128> = BTreeSet::new();
    let m = u128::from(u64::MAX);
    for x in [
        0, 1, 2, 5, 9, 10, 11, 24, 59, 60, 61, 90, 99, 100, 101, 119, 120, 255, 256, 999, 1000, 1001, 1439,
        1440, 3599, 3600, 3601, 9999, 10_000, 59_999, 60_000, 60_001, 65_535, 65_536, 86_399, 86_400,
        999_999, 1_000_000, 1_000_001, 3_599_999, 3_600_000,
    ] {
        v.insert(x);
    }
    for k in [31, 32, 53, 63, 64] {
        for d in -1i128..=1 {
            v.insert(((1i128 << k) + d) as u128);
        }
    }
    for d in [1, 60, 1000, 3600, 1_000_000] {
        for e in 0..=2 {
            v.insert((m / d + e).saturating_sub(1));
        }
    }
    v.extend([4_294_967, 4_294_968, 71_582_788, 71_582_789, 1_193_046, 1_193_047, 10_000_000_000_000_000_000, 10u128.pow(20), 10u128.pow(30)]);
    let mut out: Vec<String> = v.iter().map(u128::to_string).collect();
    out.extend(["007".into(), "00".into(), "0000000000000000000000001".into(), "340282366920938463463374607431768211456".into()]);
    out
}

pub fn run(ctx: &Ctx) {
    let vals = values();
    let bad_units = ["", "d", "ns", "H", "M", "S", "Ms", "mS", "MS", "Us", "hh", "sm", "µs", "min", "sec", " ", "s ", " s", "-s", ".5s", "w", "y", "u", "hm", "uss", "mss", "us ", "\u{3bc}s"];
    // one term, all units, good and bad
    let mut terms: Vec<String> = Vec::new();
    for v in &vals {
        for (u, _) in UNITS {
            terms.push(format!("{v}{u}"));
        }
    }
    let mut bad: Vec<String> = Vec::new();
    for v in ["", "0", "1", "60", "18446744073709551615", "18446744073709551616"] {
        for u in bad_units {
            bad.push(format!("{v}{u}"));
        }
        for p in ["+", "-", " ", ".", "_", "e", "٣", "０"] {
            bad.push(format!("{p}{v}s"));
            bad.push(format!("{v}{p}s"));
            bad.push(format!("1{p}{v}s"));
        }
    }
    bad.extend(UNITS.iter().map(|u| u.0.to_owned()));
    for s in terms.iter().chain(&bad) {
        check_str(ctx, s);
    }
    // every value below a bound in every unit
    let n = ctx.pick(20_000, 2_000_000);
    ctx.par(n, |i| {
        for (u, _) in UNITS {
            check_str(ctx, &format!("{i}{u}"));
        }
    });
    ctx.part("consecutive values per unit", n as u64);
    // two terms
    let t = terms.len();
    ctx.par(t * t, |i| check_str(ctx, &format!("{}{}", terms[i / t], terms[i % t])));
    ctx.par(t * bad.len(), |i| {
        check_str(ctx, &format!("{}{}", terms[i % t], bad[i / t]));
        check_str(ctx, &format!("{}{}", bad[i / t], terms[i % t]));
    });
    // three terms and more
    let mut terms3: Vec<String> = Vec::new();
    for v in ["0", "1", "59", "60", "999", "1000", "18446744073709551615", "18446744073709551614", "5124095576030431", "307445734561825860", "15", "709551615"] {
        for (u, _) in UNITS {
            terms3.push(format!("{v}{u}"));
        }
    }
    let t3 = terms3.len();
    ctx.par(t3 * t3 * t3, |i| {
        check_str(ctx, &format!("{}{}{}", terms3[i / t3 / t3], terms3[i / t3 % t3], terms3[i % t3]));
    });
    // all words over a small alphabet
    let chars: Vec<char> = "019hmsu ".chars().collect();
    let k = chars.len();
    let len = ctx.pick(6, 7);
    for l in 0..=len {
        ctx.par(k.pow(l), |mut i| {
            let mut s = String::new();
            for _ in 0..l {
                s.push(chars[i % k]);
                i /= k;
            }
            check_str(ctx, &s);
        });
    }
    ctx.part("all words over \"019hmsu \" up to length", u64::from(len));
    ctx.add_states((t + bad.len() + t3) as u64);
    ctx.add_transitions((t * t + t3 * t3 * t3) as u64);

    // printing: consecutive seconds with boundary microseconds, all microseconds
    let print = |us: u128| {
        ctx.case(
            || format!("print {us} us"),
            || {
                let d = dur(us);
                let t = duration::to_string(d);
                if model_parse(&t) != Some(us) {
                    return Err(format!("printed as {t:?}"));
                }
                match duration::parse(&t) {
                    Ok(e) if e == d => Ok(()),
                    e => Err(format!("{t:?} reads back as {e:?}")),
                }
            },
        );
    };
    let micros = [0u128, 1, 9, 10, 500, 999, 1000, 1001, 999_000, 999_001, 999_999];
    let secs = ctx.pick(90_000, 2_000_000);
    ctx.par(secs, |s| {
        for m in micros {
            print(s as u128 * 1_000_000 + m);
        }
    });
    ctx.par(1_000_000, |m| {
        for s in [0u128, 1, 3661] {
            print(s * 1_000_000 + m as u128);
        }
    });
    for v in &vals {
        if let Ok(s) = v.parse::<u64>() {
            for m in micros {
                print(u128::from(s) * 1_000_000 + m);
            }
        }
    }
    // through every duration attribute
    let paths: &[&str] = &[
        "cpu_rt_runtime: X",
        "cpu_rt_period: X",
        "stop_grace_period: X",
        "healthcheck: {interval: X}",
        "healthcheck: {timeout: X}",
        "healthcheck: {start_period: X}",
        "healthcheck: {start_interval: X}",
        "deploy: {restart_policy: {delay: X}}",
        "deploy: {restart_policy: {window: X}}",
        "deploy: {update_config: {delay: X}}",
        "deploy: {update_config: {monitor: X}}",
        "deploy: {rollback_config: {delay: X}}",
        "deploy: {rollback_config: {monitor: X}}",
    ];
    fn get(s: &Service, i: usize) -> Option<Duration> {
        let h = || match s.healthcheck.as_ref()? {
            Healthcheck::Command(c) => Some(c),
            Healthcheck::Disable => None,
        };
        let d = || s.deploy.as_ref();
        match i {
            0 => s.cpu_rt_runtime,
            1 => s.cpu_rt_period,
            2 => s.stop_grace_period,
            3 => h()?.interval,
            4 => h()?.timeout,
            5 => h()?.start_period,
            6 => h()?.start_interval,
            7 => d()?.restart_policy.as_ref()?.delay,
            8 => d()?.restart_policy.as_ref()?.window,
            9 => d()?.update_config.as_ref()?.delay,
            10 => d()?.update_config.as_ref()?.monitor,
            11 => d()?.rollback_config.as_ref()?.delay,
            12 => d()?.rollback_config.as_ref()?.monitor,
            13 => s.cpu_period,
            14 => s.cpu_quota,
            _ => unreachable!(),
        }
    }
    let mut forms: Vec<(String, Option<u128>)> = Vec::new();
    for s in terms.iter().step_by(ctx.pick(3, 1)).chain(&bad) {
        // quoted, so that nothing but the text of the string matters
        forms.push((format!("{s:?}").replace("\\u{", "\\u").replace('}', ""), model_parse(s)));
    }
    forms.retain(|f| f.0.is_ascii());
    for s in ["1h5m30s20ms", "1m30s", "40s", "10ms", "0s", "1us2ms3s4m5h"] {
        forms.push((format!("{s:?}"), model_parse(s)));
        forms.push((s.to_owned(), model_parse(s)));
    }
    for v in &vals {
        let Ok(n) = v.parse::<u128>() else { continue };
        if v.starts_with('0') && v.len() > 1 {
            continue;
        }
        forms.push((v.clone(), (n <= u128::from(u64::MAX)).then_some(n)));
    }
    for bad in ["-1", "-60", "1.5", "true", "[1s]", "{}", "\"1\"", "\"\""] {
        forms.push((bad.into(), None));
    }
    let us_paths = ["cpu_period: X", "cpu_quota: X"];
    ctx.par((paths.len() + us_paths.len()) * forms.len(), |i| {
        let (p, (text, want)) = (i / forms.len(), &forms[i % forms.len()]);
        let template = if p < paths.len() { paths[p] } else { us_paths[p - paths.len()] };
        let want = if p >= paths.len() && !text.bytes().all(|c| c.is_ascii_digit()) {
            None // only integers
        } else {
            *want
        };
        let yaml = template.replace('X', text);
        ctx.case(
            || format!("service {{{yaml}}}"),
            || match (serde_yaml::from_str::<Service>(&yaml), want) {
                (Ok(s), Some(us)) => {
                    if get(&s, p) != Some(dur(us)) {
                        return Err(format!("read as {:?}, expected {us} us", get(&s, p)));
                    }
                    for q in 0..15 {
                        if q != p && get(&s, q).is_some() {
                            return Err(format!("attribute {q} was set too"));
                        }
                    }
                    let out = serde_yaml::to_string(&s).map_err(|e| e.to_string())?;
                    let again: Service =
                        serde_yaml::from_str(&out).map_err(|e| format!("{out:?}: {e}"))?;
                    if get(&again, p) != Some(dur(us)) {
                        return Err(format!("written as {out:?}, read back as {:?}", get(&again, p)));
                    }
                    Ok(())
                }
                (Err(_), None) => Ok(()),
                (got, want) => Err(format!(
                    "got {:?}, expected {want:?} us",
                    got.map(|s| get(&s, p)).map_err(|e| e.to_string())
                )),
            },
        );
    });

    bytes(ctx, &vals);
}

fn model_bytes(s: &str) -> Option<Option<ByteValue>> {
    // documented units are lower case (and the single letters in upper case)
    let (v, u) = match s.find(|c: char| !c.is_ascii_digit()) {
        Some(i) => s.split_at(i),
        None => (s, ""),
    };
    if v.is_empty() {
        return Some(None);
    }
    let Ok(n) = v.parse::<u64>() else {
        return Some(None);
    };
    Some(Some(match u {
        "" | "b" | "B" => ByteValue::Bytes(n),
        "k" | "kb" | "K" => ByteValue::Kilobytes(n),
        "m" | "mb" | "M" => ByteValue::Megabytes(n),
        "g" | "gb" | "G" => ByteValue::Gigabytes(n),
        _ if ["kb", "mb", "gb"].contains(&u.to_ascii_lowercase().as_str()) => return None,
        _ => return Some(None),
    }))
}

fn amount(v: ByteValue) -> u128 {
    match v {
        ByteValue::Bytes(n) => u128::from(n),
        ByteValue::Kilobytes(n) => u128::from(n) * 1000,
        ByteValue::Megabytes(n) => u128::from(n) * 1_000_000,
        ByteValue::Gigabytes(n) => u128::from(n) * 1_000_000_000,
    }
}

fn bytes(ctx: &Ctx, vals: &[String]) {
    let check_value = |v: ByteValue| -> Result<(), String> {
        let a = amount(v);
        if v.into_bytes() != u64::try_from(a).ok() {
            return Err(format!("{v:?}.into_bytes() is {:?}, should be {a}", v.into_bytes()));
        }
        let t = v.to_string();
        match model_bytes(&t) {
            Some(Some(w)) if w == v => {}
            w => return Err(format!("{v:?} printed as {t:?} which denotes {w:?}")),
        }
        if !t.ends_with(v.unit()) {
            return Err(format!("{v:?} has unit {:?} and prints {t:?}", v.unit()));
        }
        match t.parse::<ByteValue>() {
            Ok(w) if w == v => {}
            w => return Err(format!("{v:?} printed as {t:?} reads back as {w:?}")),
        }
        let y = serde_yaml::to_value(v).map_err(|e| e.to_string())?;
        match serde_yaml::from_value::<ByteValue>(y.clone()) {
            Ok(w) if w == v => Ok(()),
            w => Err(format!("{v:?} serialized as {y:?} reads back as {w:?}")),
        }
    };
    let units = [
        "", "b", "k", "kb", "m", "mb", "g", "gb", "B", "K", "M", "G", "t", "tb", "kib", "ki", "mib", "gib", "bb",
        "kk", "kbb", "bk", " b", "b ", " kb", "kb ", "byte", "bytes", "p", "KB", "kB", "Kb", "MB", "GB", "é", "-",
        ".5k", "e3", "\n",
    ];
    let mut strs: Vec<String> = Vec::new();
    for v in vals.iter().map(String::as_str).chain(["", "-1", "-", "1.5", "1_000", "1,000", " 1", "0x10", "1e3"]) {
        for u in units {
            strs.push(format!("{v}{u}"));
        }
    }
    let check_str = |s: &str| {
        let Some(want) = model_bytes(s) else { return };
        ctx.case(
            || format!("bytes {s:?}"),
            || {
                let got = s.parse::<ByteValue>().ok();
                if got != want {
                    return Err(format!("got {got:?}, expected {want:?}"));
                }
                let de = serde_yaml::from_value::<ByteValue>(s.into()).ok();
                if de != want {
                    return Err(format!("deserialized as {de:?}, expected {want:?}"));
                }
                if let Some(v) = want {
                    check_value(v)?;
                    let lim = s.parse::<Limit<ByteValue>>().ok();
                    if lim != Some(Limit::Value(v)) {
                        return Err(format!("limit parsed as {lim:?}"));
                    }
                }
                Ok(())
            },
        );
    };
    ctx.par(strs.len(), |i| check_str(&strs[i]));
    let n = ctx.pick(70_000, 2_000_000);
    ctx.par(n, |i| {
        for u in ["", "b", "k", "kb", "m", "mb", "g", "gb", "K", "M", "G", "B"] {
            check_str(&format!("{i}{u}"));
        }
    });
    let chars: Vec<char> = "019kmgbKBt ".chars().collect();
    let k = chars.len();
    let len = ctx.pick(5, 6);
    for l in 0..=len {
        ctx.par(k.pow(l), |mut i| {
            let mut s = String::new();
            for _ in 0..l {
                s.push(chars[i % k]);
                i /= k;
            }
            check_str(&s);
        });
    }
    ctx.part("byte strings: all words over \"019kmgbKBt \" up to length", u64::from(len));
    // in documents
    let paths: &[(&str, fn(&Service) -> Option<ByteValue>)] = &[
        ("mem_limit: X", |s| s.mem_limit),
        ("mem_reservation: X", |s| s.mem_reservation),
        ("shm_size: X", |s| s.shm_size),
        ("memswap_limit: X", |s| match s.memswap_limit? {
            Limit::Value(v) => Some(v),
            Limit::Unlimited => None,
        }),
        ("deploy: {resources: {limits: {memory: X}}}", |s| {
            s.deploy.as_ref()?.resources.as_ref()?.limits.as_ref()?.memory
        }),
        ("deploy: {resources: {reservations: {memory: X}}}", |s| {
            s.deploy.as_ref()?.resources.as_ref()?.reservations.as_ref()?.memory
        }),
        ("build: {context: ., shm_size: X}", |s| match s.build.as_ref()? {
            compose_spec::ShortOrLong::Long(b) => b.shm_size,
            compose_spec::ShortOrLong::Short(_) => None,
        }),
        ("blkio_config: {device_read_bps: [{path: /a, rate: X}]}", |s| {
            Some(s.blkio_config.as_ref()?.device_read_bps.first()?.rate)
        }),
        ("blkio_config: {device_write_bps: [{path: /a, rate: X}]}", |s| {
            Some(s.blkio_config.as_ref()?.device_write_bps.first()?.rate)
        }),
        ("volumes: [{type: tmpfs, target: /a, tmpfs: {size: X}}]", |s| {
            match s.volumes.first()? {
                compose_spec::ShortOrLong::Long(compose_spec::service::volumes::Mount::Tmpfs(t)) => {
                    t.tmpfs.as_ref()?.size
                }
                _ => None,
            }
        }),
    ];
    let mut forms: Vec<(String, Option<ByteValue>)> = Vec::new();
    for s in strs.iter().step_by(ctx.pick(5, 1)) {
        if s.contains(|c: char| c.is_control() || !c.is_ascii()) {
            continue;
        }
        if let Some(w) = model_bytes(s) {
            forms.push((format!("{s:?}"), w));
        }
    }
    for v in vals {
        if v.starts_with('0') && v.len() > 1 {
            continue;
        }
        if let Ok(n) = v.parse::<u128>() {
            forms.push((v.clone(), u64::try_from(n).ok().map(ByteValue::Bytes)));
        }
    }
    for b in ["-2", "1.5", "true", "[]", "{}"] {
        forms.push((b.into(), None));
    }
    ctx.par(paths.len() * forms.len(), |i| {
        let ((template, get), (text, want)) = (paths[i / forms.len()], &forms[i % forms.len()]);
        let yaml = template.replace('X', text);
        if template.starts_with("memswap") && text == "\"-1\"" {
            return; // unlimited
        }
        ctx.case(
            || format!("service {{{yaml}}}"),
            || match (serde_yaml::from_str::<Service>(&yaml), want) {
                (Ok(s), Some(v)) => {
                    if get(&s) != Some(*v) {
                        return Err(format!("read as {:?}, expected {v:?}", get(&s)));
                    }
                    let out = serde_yaml::to_string(&s).map_err(|e| e.to_string())?;
                    let again: Service =
                        serde_yaml::from_str(&out).map_err(|e| format!("{out:?}: {e}"))?;
                    if get(&again).map(amount) != Some(amount(*v)) {
                        return Err(format!("written as {out:?}, read back as {:?}", get(&again)));
                    }
                    Ok(())
                }
                (Err(_), None) => Ok(()),
                (got, want) => Err(format!(
                    "got {:?}, expected {want:?}",
                    got.map(|s| get(&s)).map_err(|e| e.to_string())
                )),
            },
        );
    });
    ctx.add_states(strs.len() as u64);
}
