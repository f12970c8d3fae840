//! C18: port range arithmetic, over all pairs of ports, and the short ranges state machine.
use std::{
    collections::HashSet,
    net::IpAddr,
    sync::atomic::{AtomicU64, Ordering::Relaxed},
};

use compose_spec::service::ports::{Port, Protocol, Range, ShortPort, ShortRanges};
use serde_yaml::Value as Y;

use crate::engine::{guard, Ctx};

pub const ASSUME: &[&str] = &[
    "text forms are the documented {start}[-{end}]; a leading + sign and leading zeros are not judged",
    "Add and Sub on a range are judged only where the result stays within the ports",
];

fn check_pair(s: u16, e: u16) -> Result<(), String> {
    let r = Range::new(s, Some(e));
    if s > e {
        return match r {
            Err(_) => Ok(()),
            Ok(r) => Err(format!("Range::new({s}, {e}) accepted as {r:?}")),
        };
    }
    let Ok(r) = r else {
        return Err(format!("Range::new({s}, {e}) rejected"));
    };
    let end = (s != e).then_some(e);
    if r.start() != s || r.end() != end {
        return Err(format!("is {}..{:?}", r.start(), r.end()));
    }
    if r != (s..=e) {
        return Err("is not equal to its RangeInclusive".into());
    }
    if (r == s) != (s == e) {
        return Err("is equal to a single port".into());
    }
    Ok(())
}

fn check_size(s: u16, e: u16) -> Result<(), String> {
    let r = Range::new(s, Some(e)).map_err(|e| e.to_string())?;
    let want = u32::from(e) - u32::from(s) + 1;
    if u32::from(r.size()) != want {
        return Err(format!("size() is {}, should be {want}", r.size()));
    }
    Ok(())
}

/// Cheap version of both for the exhaustive sweep.
#[inline]
fn fast(s: u16, e: u16) -> bool {
    match Range::new(s, Some(e)) {
        Err(_) => s > e,
        Ok(r) => {
            s <= e
                && r.start() == s
                && r.end() == if s == e { None } else { Some(e) }
                && (u32::from(r.size()) == u32::from(e) - u32::from(s) + 1 || (s == 0 && e == u16::MAX))
        }
    }
}

fn text_of(s: u16, e: u16) -> String {
    if s == e {
        s.to_string()
    } else {
        format!("{s}-{e}")
    }
}

/// Everything which can be observed about one range.
fn check_range(s: u16, e: u16, iterate: bool) -> Result<(), String> {
    let r = Range::new(s, Some(e)).map_err(|e| e.to_string())?;
    let end = (s != e).then_some(e);
    let want_text = text_of(s, e);
    for (how, v) in [
        ("tuple", Range::try_from((s, e)).ok()),
        ("option tuple", Range::try_from((s, Some(e))).ok()),
        ("inclusive", Range::try_from(s..=e).ok()),
        ("text", want_text.parse().ok()),
        ("&str", Range::try_from(want_text.as_str()).ok()),
        ("full text", format!("{s}-{e}").parse().ok()),
        ("yaml string", serde_yaml::from_value(Y::from(want_text.as_str())).ok()),
    ] {
        if v != Some(r) {
            return Err(format!("made from {how}: {v:?}, should be {r:?}"));
        }
    }
    if s == e {
        let n: Option<Range> = Some(Range::from(s));
        let o = Range::new(s, None).ok();
        let y: Option<Range> = serde_yaml::from_value(Y::from(s)).ok();
        if n != Some(r) || o != Some(r) || y != Some(r) || r != s {
            return Err(format!("single port: {n:?} {o:?} {y:?}"));
        }
    }
    if r.to_string() != want_text {
        return Err(format!("printed as {:?}", r.to_string()));
    }
    let y = serde_yaml::to_value(r).map_err(|e| e.to_string())?;
    let want_y = if s == e { Y::from(s) } else { Y::from(want_text.as_str()) };
    if y != want_y {
        return Err(format!("serialized as {y:?}"));
    }
    if r != (s..=e) || (s < e && (r == s || r == e)) {
        return Err("comparison with ports is wrong".into());
    }
    if s > 0 && r == (s - 1..=e) || e < u16::MAX && r == (s..=e + 1) || s < e && r == (s..=e - 1) {
        return Err("equal to another RangeInclusive".into());
    }
    let mut it = r.into_iter();
    if (it.size_hint().0, it.clone().next(), it.clone().next_back())
        != (usize::from(e - s) + 1, Some(s), Some(e))
    {
        return Err(format!("iterates as {it:?}"));
    }
    if iterate {
        for p in s..=e {
            if it.next() != Some(p) {
                return Err(format!("iteration does not yield {p}"));
            }
        }
        if it.next().is_some() {
            return Err("iteration goes on".into());
        }
        if r.into_iter().count() != usize::from(e - s) + 1 {
            return Err("count".into());
        }
    }
    // moved ranges keep their length
    for d in [0, 1, 2, 100, s, u16::MAX - e, (u16::MAX - e).saturating_sub(1)] {
        if u32::from(e) + u32::from(d) <= 65535 {
            let m = r + d;
            let mut n = r;
            n += d;
            if m != n || m.start() != s + d || m.end() != end.map(|e| e + d) {
                return Err(format!("+ {d} is {m:?} / {n:?}"));
            }
        }
        if d <= s {
            let m = r - d;
            let mut n = r;
            n -= d;
            if m != n || m.start() != s - d || m.end() != end.map(|e| e - d) {
                return Err(format!("- {d} is {m:?} / {n:?}"));
            }
        }
    }
    Ok(())
}

fn boundary(ctx: &Ctx) -> Vec<u16> {
    if ctx.thorough() {
        vec![0, 1, 2, 3, 9, 10, 79, 80, 81, 255, 256, 9999, 10000, 32767, 32768, 65532, 65533, 65534, 65535]
    } else {
        vec![0, 1, 2, 3, 79, 80, 81, 32767, 32768, 65533, 65534, 65535]
    }
}

type R = (u16, u16);

fn mk(r: R) -> Range {
    Range::new(r.0, Some(r.1)).expect("range")
}

/// Model of `ShortRanges`.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct M {
    host: Option<R>,
    cont: R,
}

fn fits(host: Option<R>, cont: R) -> bool {
    host.map_or(true, |h| u32::from(h.1) - u32::from(h.0) == u32::from(cont.1) - u32::from(cont.0))
}

fn agree(m: &M, i: &ShortRanges) -> Result<(), String> {
    if i.host() != m.host.map(mk) || i.container() != mk(m.cont) {
        return Err(format!("is {i:?}, should be {m:?}"));
    }
    Ok(())
}

fn observe(m: &M, i: &ShortRanges) -> Result<(), String> {
    agree(m, i)?;
    let text = match m.host {
        Some(h) => format!("{}:{}", text_of(h.0, h.1), text_of(m.cont.0, m.cont.1)),
        None => text_of(m.cont.0, m.cont.1),
    };
    if i.to_string() != text {
        return Err(format!("printed {:?}, should be {text:?}", i.to_string()));
    }
    let back: Result<ShortRanges, _> = text.parse();
    if back.as_ref().ok() != Some(i) {
        return Err(format!("{text:?} reads back as {back:?}"));
    }
    if m.host.is_none() {
        let t = format!(":{text}");
        if t.parse::<ShortRanges>().ok().as_ref() != Some(i) {
            return Err(format!("{t:?} is not read as without host"));
        }
    }
    let n = usize::from(m.cont.1 - m.cont.0) + 1;
    let mut it = i.into_iter();
    for k in 0..n {
        let rest = n - k;
        let (least, most) = it.size_hint();
        if least > rest || most.is_some_and(|most| most < rest) {
            return Err(format!("size_hint is {:?} with {rest} pairs left", it.size_hint()));
        }
        let k = u16::try_from(k).expect("a port");
        let want = (m.host.map(|h| h.0 + k), m.cont.0 + k);
        let got = it.next();
        if got != Some(want) {
            return Err(format!("pair {k} is {got:?}, should be {want:?}"));
        }
    }
    if it.next().is_some() || it.next().is_some() {
        return Err("iteration goes on".into());
    }
    // the other ways to go through the pairs
    let last = Some((m.host.map(|h| h.1), m.cont.1));
    let mid = n / 2;
    let k = u16::try_from(mid).expect("a port");
    let middle = Some((m.host.map(|h| h.0 + k), m.cont.0 + k));
    let ways = [i.into_iter().last() == last, i.into_iter().count() == n, i.into_iter().nth(mid) == middle, i.into_iter().nth(n).is_none()];
    if ways.contains(&false) {
        return Err(format!("last, count, nth, nth after the end: {ways:?}"));
    }
    let mut it = i.into_iter();
    it.nth(mid);
    let copy = it.clone();
    if it != copy || !it.eq(copy) {
        return Err("a copied iterator goes on otherwise".into());
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    // 1. all pairs of ports
    let pairs = AtomicU64::new(0);
    ctx.par(65536, |s| {
        let s = u16::try_from(s).expect("u16");
        let ok = guard(|| (0..=u16::MAX).all(|e| fast(s, e))).unwrap_or(false);
        pairs.fetch_add(65536, Relaxed);
        ctx.traces.fetch_add(65536, Relaxed);
        if !ok {
            for e in 0..=u16::MAX {
                if guard(|| fast(s, e)) != Ok(true) {
                    ctx.case(|| format!("range {s}-{e}"), || check_pair(s, e));
                    if s <= e && !(s == 0 && e == u16::MAX) {
                        ctx.case(|| format!("range {s}-{e} size"), || check_size(s, e));
                    }
                    if ctx.enough() {
                        break;
                    }
                }
            }
        }
    });
    ctx.case(|| "range 0-65535 size".into(), || check_size(0, 65535));
    ctx.part("all (start, end) pairs: acceptance, bounds, size", pairs.load(Relaxed));
    ctx.add_states(65536 * 65537 / 2);

    // 2. everything about ranges touching every port
    let b = boundary(ctx);
    ctx.par(65536, |p| {
        let p = u16::try_from(p).expect("u16");
        let near: Vec<u16> =
            [0, 1, 2, 3, 10, 99, 1000].iter().map(|d| p.saturating_add(*d)).collect();
        let mut all: Vec<R> = near.iter().map(|e| (p, *e)).collect();
        for &q in &b {
            all.push((p.min(q), p.max(q)));
        }
        all.sort_unstable();
        all.dedup();
        for (s, e) in all {
            let iterate = e - s <= ctx.pick(64, 1000) || (p % 64 == 0 && e - s < 4000);
            ctx.case(|| format!("range {s}-{e} observed"), || check_range(s, e, iterate));
        }
        // reversed text and construction
        for &q in &b {
            if q < p {
                let t = format!("{p}-{q}");
                ctx.case(
                    || format!("range {t}"),
                    || {
                        let bad = t.parse::<Range>().is_ok()
                            || Range::try_from((p, q)).is_ok()
                            || Range::try_from((p, Some(q))).is_ok()
                            || Range::try_from(p..=q).is_ok()
                            || serde_yaml::from_value::<Range>(Y::from(t.as_str())).is_ok();
                        if bad {
                            Err("a reversed range is accepted".into())
                        } else {
                            Ok(())
                        }
                    },
                );
            }
        }
    });
    ctx.case(
        || "iterate 0-65535".into(),
        || check_range(0, 65535, true),
    );

    // 3. texts which are not a range
    let pieces = ["0", "1", "80", "443", "65535", "65536", "99999999999", "-", " ", "", ":", "x", "1.5", "/"];
    let mut n = 0;
    let model = |s: &str| -> Option<R> {
        let (a, b) = match s.split_once('-') {
            Some((a, b)) => (a, Some(b)),
            None => (s, None),
        };
        let num = |t: &str| -> Option<u16> {
            if t.is_empty() || !t.bytes().all(|c| c.is_ascii_digit()) {
                return None;
            }
            t.parse().ok()
        };
        let s = num(a)?;
        let e = match b {
            Some(b) => num(b)?,
            None => s,
        };
        (s <= e).then_some((s, e))
    };
    for a in pieces {
        for b in pieces {
            for c in pieces {
                for d in pieces {
                    let t = format!("{a}{b}{c}{d}");
                    n += 1;
                    ctx.case(
                        || format!("range text {t:?}"),
                        || {
                            let want = model(&t).map(mk);
                            let got = t.parse::<Range>().ok();
                            let y = serde_yaml::from_value::<Range>(Y::from(t.as_str())).ok();
                            let x = Range::try_from(t.as_str()).ok();
                            if got != want || y != want || x != want {
                                return Err(format!("{got:?} {x:?} {y:?}, should be {want:?}"));
                            }
                            // the same with a host part
                            if let Some((h, c)) = t.split_once(':') {
                                let c = model(c);
                                let h = if h.is_empty() { Some(None) } else { model(h).map(Some) };
                                let want = match (h, c) {
                                    (Some(h), Some(c)) if fits(h, c) => Some(M { host: h, cont: c }),
                                    _ => None,
                                };
                                let got = t.parse::<ShortRanges>();
                                match (&got, want) {
                                    (Ok(g), Some(w)) => agree(&w, g)?,
                                    (Err(_), None) => {}
                                    _ => return Err(format!("short ranges {got:?}, should be {want:?}")),
                                }
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }
    for v in [
        Y::from(-1i64), Y::from(65536u64), Y::from(65535u64), Y::from(0u64), Y::from(u64::MAX), Y::from(1.0),
        Y::from(1.5), Y::from(true), Y::Null, Y::from(i64::MIN), Y::Sequence(vec![]), Y::from(1u64 << 32),
        Y::from(65536u64 * 80 + 80),
    ] {
        n += 1;
        let want = v.as_u64().and_then(|v| u16::try_from(v).ok());
        ctx.case(
            || format!("range yaml {v:?}"),
            || {
                let got = serde_yaml::from_value::<Range>(v.clone()).ok();
                let sr = serde_yaml::from_value::<ShortRanges>(v.clone()).ok();
                let sp = serde_yaml::from_value::<ShortPort>(v.clone()).ok();
                let w = want.map(Range::from);
                if got != w || sr.map(|s| s.container()) != w || sp.map(|p| p.ranges.container()) != w {
                    return Err(format!("{got:?} {sr:?}, should be {want:?}"));
                }
                Ok(())
            },
        );
    }
    ctx.part("texts and yaml values", n);

    // 4. the short ranges state machine, from every pair of ranges over the boundary ports
    let ranges: Vec<R> = {
        let mut v = Vec::new();
        for &s in &b {
            for &e in &b {
                if s <= e {
                    v.push((s, e));
                }
            }
        }
        // equal sizes at other places, so that there are many mappings
        for base in [0u16, 7, 80, 1000, 65500] {
            for d in [1u16, 2, 3, 30, 35] {
                v.push((base, base.saturating_add(d)));
            }
        }
        v.sort_unstable();
        v.dedup();
        v
    };
    let hosts: Vec<Option<R>> = std::iter::once(None).chain(ranges.iter().copied().map(Some)).collect();
    // Initial states
    let mut frontier: Vec<M> = Vec::new();
    for &host in &hosts {
        for &cont in &ranges {
            ctx.add_transitions(1);
            ctx.case(
                || format!("ShortRanges::new({host:?}, {cont:?})"),
                || match (ShortRanges::new(host.map(mk), mk(cont)), fits(host, cont)) {
                    (Ok(i), true) => agree(&M { host, cont }, &i),
                    (Err(_), false) => Ok(()),
                    (r, f) => Err(format!("{r:?}, sizes equal: {f}")),
                },
            );
            if fits(host, cont) {
                frontier.push(M { host, cont });
            }
        }
    }
    let mut seen: HashSet<M> = frontier.iter().copied().collect();
    while let Some(m) = frontier.pop() {
        let Ok(Ok(start)) = guard(|| ShortRanges::new(m.host.map(mk), mk(m.cont))) else { continue };
        let mut next = Vec::new();
        ctx.case(|| format!("{m:?}"), || observe(&m, &start));
        for &r in &ranges {
            let ok = fits(Some(r), m.cont);
            let t = if ok { M { host: Some(r), ..m } } else { m };
            next.push(t);
            ctx.case(
                || format!("{m:?} replace_host {r:?}"),
                || {
                    let mut i = start;
                    match (i.replace_host(mk(r)), ok) {
                        (Ok(old), true) if old == m.host.map(mk) => {}
                        (Err(_), false) => {}
                        (g, _) => return Err(format!("returned {g:?}")),
                    }
                    agree(&t, &i)
                },
            );
            let ok = fits(m.host, r);
            let t = if ok { M { cont: r, ..m } } else { m };
            next.push(t);
            ctx.case(
                || format!("{m:?} replace_container {r:?}"),
                || {
                    let mut i = start;
                    match (i.replace_container(mk(r)), ok) {
                        (Ok(old), true) if old == mk(m.cont) => {}
                        (Err(_), false) => {}
                        (g, _) => return Err(format!("returned {g:?}")),
                    }
                    agree(&t, &i)
                },
            );
        }
        let t = M { host: None, ..m };
        next.push(t);
        ctx.case(
            || format!("{m:?} take_host"),
            || {
                let mut i = start;
                if i.take_host() != m.host.map(mk) {
                    return Err("returned another host".into());
                }
                agree(&t, &i)
            },
        );
        ctx.add_transitions(next.len() as u64);
        for t in next {
            if seen.insert(t) {
                frontier.push(t);
            }
        }
    }
    ctx.part("short ranges states", seen.len() as u64);
    ctx.add_states(seen.len() as u64);

    // 5. expansion of short ports and collapsing of long ones
    let ips: Vec<Option<IpAddr>> = ["127.0.0.1", "::1", "0.0.0.0"]
        .iter()
        .map(|s| s.parse().ok())
        .chain([None])
        .collect();
    let protos = [None, Some(Protocol::Tcp), Some(Protocol::Udp), Some(Protocol::Other("sctp".into()))];
    let mut states: Vec<M> = seen.into_iter().filter(|m| m.cont.1 - m.cont.0 <= 3000).collect();
    states.sort_unstable_by_key(|m| (m.cont, m.host));
    ctx.par(states.len(), |k| {
        let m = &states[k];
        let Ok(Ok(ranges)) = guard(|| ShortRanges::new(m.host.map(mk), mk(m.cont))) else { return };
        for ip in &ips {
            for proto in &protos {
                ctx.case(
                    || format!("short port {m:?} {ip:?} {proto:?}"),
                    || {
                        let sp = ShortPort { host_ip: *ip, ranges, protocol: proto.clone() };
                        let long: Vec<Port> = sp.clone().into_long_iter().collect();
                        let n = usize::from(m.cont.1 - m.cont.0) + 1;
                        if long.len() != n {
                            return Err(format!("{} long ports, should be {n}", long.len()));
                        }
                        for (k, p) in long.into_iter().enumerate() {
                            let k = u16::try_from(k).expect("small");
                            let mut want = Port::new(m.cont.0 + k);
                            want.published = m.host.map(|h| Range::from(h.0 + k));
                            want.host_ip = *ip;
                            want.protocol = proto.clone();
                            if p != want {
                                return Err(format!("port {k} is {p:?}, should be {want:?}"));
                            }
                            if n == 1 {
                                match p.into_short() {
                                    Ok(s) if s == sp => {}
                                    s => return Err(format!("converts back to {s:?}")),
                                }
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    });
    ctx.sample(|| "Range 0-65535; ShortRanges 0-2:65533-65535 replace_container 80-81 -> error, unchanged".into());
}
