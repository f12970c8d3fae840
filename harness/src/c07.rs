//! C07: for each type with a string form, the strings over its grammar's tokens are all parsed, and compared with a
//! reference parser written from the documentation; what is accepted is printed and read back.
use std::{
    borrow::Cow,
    collections::BTreeSet,
    fmt::{Debug, Display},
    net::IpAddr,
    path::PathBuf,
    sync::atomic::{AtomicU64, Ordering::Relaxed},
};

use compose_spec::{
    network::Driver,
    service::{
        self,
        build::{Cache, CacheOption, CacheType, Context, Network as BuildNetwork, SshAuth, SshAuthId},
        deploy::{self, resources::{Capability, Count}, EndpointMode},
        develop,
        device::{CgroupRule, Device, Kind, MajorMinorNumber, Permissions},
        network_config::NetworkMode,
        ports::{self, Protocol, Range, ShortPort, ShortRanges},
        user::{IdOrName, Name, User},
        volumes::{mount::BindPropagation, SELinux, ShortOptions, ShortVolume, Source},
        AbsolutePath, CpuSet, Expose, Image, Ipc, Link, MacAddress, VolumesFrom, VolumesFromSource,
    },
    Identifier,
};
use indexmap::IndexMap;
use serde::{de::DeserializeOwned, Serialize};
use serde_yaml::Value;

use crate::{
    engine::{same, Ctx},
    y,
};

pub const ASSUME: &[&str] = &[
    "a leading '+' or leading zeros in integers, repeated permission letters, empty optional parts (protocol, permissions, device host path, trailing comma of a cpuset) and MAC address groups which are not one or two hex digits may be accepted or rejected",
    "repeated cache options may be accepted or rejected",
    "equality of caches ignores the order of the options, and equality of paths ignores redundant separators, as in IndexMap and PathBuf; both are printed as written",
    "the url crate decides which build contexts are URLs; std decides what an IP address is",
];

/// Why a string is not a value.
enum Stop {
    /// It must be rejected.
    No,
    /// It may be accepted or rejected.
    Any,
}
use Stop::{Any, No};

/// The value and its canonical text.
type P<T> = Result<(T, String), Stop>;

fn uint(s: &str, max: u64) -> Result<u64, Stop> {
    let d = s.strip_prefix('+').unwrap_or(s);
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
        return Err(No);
    }
    let z = d.trim_start_matches('0');
    if z.len() > 20 || z.parse::<u128>().map_or(!z.is_empty(), |n| n > u128::from(max)) {
        return Err(No);
    }
    if s.len() != d.len() || (d.len() > 1 && d.starts_with('0')) {
        return Err(Any);
    }
    Ok(d.parse().unwrap())
}

fn port(s: &str) -> Result<u16, Stop> {
    uint(s, 65_535).map(|n| n as u16)
}

fn ident(s: &str) -> Result<Identifier, Stop> {
    let ok = s.bytes().next().is_some_and(|b| b.is_ascii_alphanumeric())
        && s.bytes().all(|b| b.is_ascii_alphanumeric() || matches!(b, b'.' | b'_' | b'-'));
    if ok {
        Ok(Identifier::new(s).unwrap())
    } else {
        Err(No)
    }
}

fn abs(s: &str) -> Result<AbsolutePath, Stop> {
    if s.starts_with('/') {
        Ok(AbsolutePath::new(s).unwrap())
    } else {
        Err(No)
    }
}

/// How a type is read and written.
struct Ops<T> {
    name: &'static str,
    /// All ways of reading a string.
    read: Vec<(&'static str, fn(&str) -> Result<T, String>)>,
    /// All ways of writing as text.
    text: Vec<(&'static str, fn(T) -> String)>,
    /// The serialized form, if there is one.
    ser: Option<fn(&T) -> Result<Value, String>>,
    de: Option<fn(Value) -> Result<T, String>>,
    /// The serialized form is a number if the text is a number.
    num: bool,
    model: fn(&str) -> P<T>,
    /// Further judgement of an accepted string.
    more: Option<fn(&str, &T) -> Result<(), String>>,
    /// Strings which are not explored.
    skip: fn(&str) -> bool,
}

fn e(t: impl Display) -> String {
    t.to_string()
}

fn de_value<T: DeserializeOwned>(s: &str) -> Result<T, String> {
    serde_yaml::from_value(Value::String(s.into())).map_err(e)
}

fn de_text<T: DeserializeOwned>(s: &str) -> Result<T, String> {
    let mut q = String::new();
    y::quote(s, &mut q);
    serde_yaml::from_str(&q).map_err(e)
}

fn de_reader<T: DeserializeOwned>(s: &str) -> Result<T, String> {
    let mut q = String::new();
    y::quote(s, &mut q);
    serde_yaml::from_reader(q.as_bytes()).map_err(e)
}

/// Formatting options must not matter for what is read back; `{:>40}` is not judged, but `to_string` and `format!` are.
fn disp<T: Display>(t: T) -> String {
    format!("{t}")
}

macro_rules! ops {
    ($T:ty, $name:expr, $model:expr; $($what:ident),*) => {{
        #[allow(unused_mut)]
        let mut o: Ops<$T> = Ops {
            name: $name,
            read: vec![("str::parse", |s| s.parse::<$T>().map_err(e))],
            text: vec![("Display", disp::<$T>)],
            ser: None,
            de: None,
            num: false,
            model: $model,
            more: None,
            skip: |_| false,
        };
        $( ops!(@ $what o $T); )*
        o
    }};
    (@ serde $o:ident $T:ty) => {
        $o.read.push(("from a YAML value", de_value::<$T>));
        $o.read.push(("from YAML text", de_text::<$T>));
        $o.read.push(("from a YAML reader", de_reader::<$T>));
        $o.ser = Some(|t| serde_yaml::to_value(t).map_err(e));
        $o.de = Some(|v| serde_yaml::from_value(v).map_err(e));
    };
    (@ str $o:ident $T:ty) => { $o.read.push(("TryFrom<&str>", |s| <$T>::try_from(s).map_err(e))); };
    (@ owned $o:ident $T:ty) => {
        $o.read.push(("TryFrom<String>", |s| <$T>::try_from(s.to_owned()).map_err(e)));
        $o.read.push(("TryFrom<Box<str>>", |s| <$T>::try_from(Box::<str>::from(s)).map_err(e)));
        $o.read.push(("TryFrom<Cow<str>>", |s| <$T>::try_from(Cow::Borrowed(s)).map_err(e)));
        $o.read.push(("TryFrom<Cow<str>>, owned", |s| <$T>::try_from(Cow::<str>::Owned(s.to_owned())).map_err(e)));
    };
    (@ parse $o:ident $T:ty) => {
        $o.read.push(("parse(&str)", |s| <$T>::parse(s).map_err(e)));
        $o.read.push(("parse(String)", |s| <$T>::parse(s.to_owned()).map_err(e)));
    };
    (@ into $o:ident $T:ty) => { $o.text.push(("String::from", |t| String::from(t))); };
    (@ cow $o:ident $T:ty) => { $o.text.push(("Cow::from", |t| Cow::from(t).into_owned())); };
    (@ as_str $o:ident $T:ty) => {
        $o.text.push(("as_str", |t| t.as_str().to_owned()));
        $o.text.push(("AsRef<str>", |t| AsRef::<str>::as_ref(&t).to_owned()));
    };
    (@ num $o:ident $T:ty) => { $o.num = true; };
}

static ACCEPTED: AtomicU64 = AtomicU64::new(0);
static REJECTED: AtomicU64 = AtomicU64::new(0);
static UNJUDGED: AtomicU64 = AtomicU64::new(0);

fn check<T: PartialEq + Debug + Clone>(ctx: &Ctx, o: &Ops<T>, s: &str) {
    if (o.skip)(s) {
        return;
    }
    ctx.add_states(1);
    ctx.case(
        || format!("{} {s:?}", o.name),
        || {
            let want = (o.model)(s);
            match &want {
                Ok(_) => &ACCEPTED,
                Err(No) => &REJECTED,
                Err(Any) => &UNJUDGED,
            }
            .fetch_add(1, Relaxed);
            let first = (o.read[0].1)(s);
            for (how, f) in &o.read[1..] {
                let got = f(s);
                match (&got, &first) {
                    (Ok(a), Ok(b)) if a == b => {}
                    (Err(_), Err(_)) => {}
                    _ => return Err(format!("{how} gives {got:?}, parsing gives {first:?}")),
                }
            }
            let (v, canon) = match (&want, first) {
                (Err(No), Ok(v)) => return Err(format!("accepted as {v:?}")),
                (Ok((v, _)), Err(e)) => return Err(format!("rejected ({e}), expected {v:?}")),
                (Err(_), Err(_)) => return Ok(()),
                (Ok((w, canon)), Ok(v)) => {
                    same("parsed value", &v, w)?;
                    (v, Some(canon))
                }
                (Err(Any), Ok(v)) => (v, None),
            };
            let printed = (o.text[0].1)(v.clone());
            if let Some(c) = canon {
                same("printed text", &printed, c)?;
            }
            for (how, f) in &o.text[1..] {
                same(how, &f(v.clone()), &printed)?;
            }
            let again = (o.read[0].1)(&printed).map_err(|e| format!("{v:?} is printed as {printed:?}, which is rejected: {e}"))?;
            same("value read back from its text", &again, &v)?;
            same("printed text of the value read back", &(o.text[0].1)(again), &printed)?;
            if let (Some(ser), Some(de)) = (o.ser, o.de) {
                let got = ser(&v)?;
                let n = printed.parse::<u64>().ok().filter(|n| o.num && n.to_string() == printed);
                let want = n.map_or_else(|| Value::String(printed.clone()), Value::from);
                same("serialized value", &got, &want)?;
                same("deserialized serialized value", &de(got)?, &v)?;
            }
            if let Some(f) = o.more {
                f(s, &v)?;
            }
            Ok(())
        },
    );
}

/// Check all strings of up to `depth` tokens.
fn explore<T: PartialEq + Debug + Clone>(ctx: &Ctx, o: &Ops<T>, toks: &[&str], depth: (usize, usize)) {
    let k = toks.len();
    let mut depth = ctx.pick(depth.0, depth.1);
    while k.pow(depth as u32) > ctx.pick(2_000_000, 40_000_000) {
        depth -= 1;
    }
    check(ctx, o, "");
    let mut n = 1;
    for len in 1..=depth {
        let total = k.pow(len as u32);
        n += total;
        let chunk = k.pow(len.saturating_sub(2) as u32).max(1);
        ctx.par(total / chunk, |hi| {
            let mut buf = String::new();
            for lo in 0..chunk {
                if ctx.enough() {
                    return;
                }
                let mut i = hi * chunk + lo;
                buf.clear();
                for _ in 0..len {
                    buf.push_str(toks[i % k]);
                    i /= k;
                }
                check(ctx, o, &buf);
            }
        });
    }
    ctx.part(&format!("{}: sequences of up to {depth} of {k} tokens", o.name), n as u64);
}

/// Check all concatenations of one text of each part.
fn product<T: PartialEq + Debug + Clone>(ctx: &Ctx, o: &Ops<T>, parts: &[&[&str]]) {
    let total: usize = parts.iter().map(|p| p.len()).product();
    ctx.part(&format!("{}: products of parts", o.name), total as u64);
    ctx.par(total, |mut i| {
        let mut s = String::new();
        for p in parts {
            s.push_str(p[i % p.len()]);
            i /= p.len();
        }
        check(ctx, o, &s);
    });
}

// ---------------------------------------------------------------- ports

fn m_range(s: &str) -> P<Range> {
    let (a, b) = match s.split_once('-') {
        None => (s, None),
        Some((a, b)) => (a, Some(b)),
    };
    // the end decides too: a rejected end wins over an undecided start
    let start = port(a);
    let end = b.map(port).transpose();
    if matches!(start, Err(No)) || matches!(end, Err(No)) {
        return Err(No);
    }
    let (start, end) = (start?, end?);
    match end {
        None => Ok((Range::from(start), start.to_string())),
        Some(end) if start > end => Err(No),
        Some(end) if start == end => Ok((Range::from(start), start.to_string())),
        Some(end) => Ok((Range::try_from((start, end)).unwrap(), format!("{start}-{end}"))),
    }
}

fn m_ranges(s: &str) -> P<ShortRanges> {
    let (host, container) = match s.split_once(':') {
        None => (None, m_range(s)),
        Some((h, c)) => (Some(h), m_range(c)),
    };
    let host = host.filter(|h| !h.is_empty()).map(m_range);
    if matches!(container, Err(No)) || matches!(host, Some(Err(No))) {
        return Err(No);
    }
    let ((c, ct), host) = (container?, host.transpose()?);
    let len = |r: Range| u32::from(r.end().unwrap_or(r.start())) - u32::from(r.start());
    match host {
        None => Ok((ShortRanges::from(c), ct)),
        Some((h, ht)) => {
            if len(h) != len(c) {
                return Err(No);
            }
            Ok((ShortRanges::new(Some(h), c).map_err(|_| No)?, format!("{ht}:{ct}")))
        }
    }
}

fn protocol(s: &str) -> Protocol {
    match s {
        "tcp" => Protocol::Tcp,
        "udp" => Protocol::Udp,
        o => Protocol::Other(o.into()),
    }
}

fn m_short_port(s: &str) -> P<ShortPort> {
    let (rest, proto) = match s.split_once('/') {
        None => (s, None),
        Some((r, p)) => (r, Some(p)),
    };
    let colons: Vec<usize> = rest.match_indices(':').map(|(i, _)| i).collect();
    let (ip, ranges) = if colons.len() >= 2 {
        let at = colons[colons.len() - 2];
        (Some(&rest[..at]), &rest[at + 1..])
    } else {
        (None, rest)
    };
    let ip: Option<IpAddr> = match ip {
        None => None,
        Some(t) => {
            let inner = if t.starts_with('[') && t.ends_with(']') && t.len() >= 2 { &t[1..t.len() - 1] } else { t };
            let ip: IpAddr = inner.parse().map_err(|_| No)?;
            if inner.len() != t.len() && ip.is_ipv4() {
                m_ranges(ranges).map_err(|e| e).and(Err(Any))?;
            }
            Some(ip)
        }
    };
    let (r, rt) = m_ranges(ranges)?;
    if proto == Some("") {
        return Err(Any);
    }
    let mut text = String::new();
    if let Some(ip) = ip {
        text += &format!("{ip}:");
        if r.host().is_none() {
            text += ":";
        }
    }
    text += &rt;
    if let Some(p) = proto {
        text += &format!("/{p}");
    }
    Ok((ShortPort { host_ip: ip, ranges: r, protocol: proto.map(protocol) }, text))
}

fn m_expose(s: &str) -> P<Expose> {
    let (r, p) = match s.split_once('/') {
        None => (s, None),
        Some((r, p)) => (r, Some(p)),
    };
    let (range, rt) = m_range(r)?;
    match p {
        None => Ok((Expose { range, protocol: None }, rt)),
        Some("") => Err(Any),
        Some(p) => Ok((Expose { range, protocol: Some(protocol(p)) }, format!("{rt}/{p}"))),
    }
}

fn more_ranges(r: &ShortRanges) -> Result<(), String> {
    // what the ranges stand for
    let c = r.container();
    let want: Vec<(Option<u16>, u16)> = {
        let cs: Vec<u32> = (u32::from(c.start())..=u32::from(c.end().unwrap_or(c.start()))).collect();
        if cs.len() > 200 {
            return Ok(());
        }
        cs.iter().enumerate().map(|(i, p)| (r.host().map(|h| h.start() + i as u16), *p as u16)).collect()
    };
    same("ports of the ranges", &r.clone().into_iter().collect::<Vec<_>>(), &want)
}

fn ports(ctx: &Ctx) {
    let range = ops!(Range, "Range", m_range; serde, str, num);
    explore(ctx, &range, &["0", "1", "9", "80", "81", "65535", "65536", "-", " ", "a", ":", "+"], (5, 6));
    let mut ranges = ops!(ShortRanges, "ShortRanges", m_ranges; serde, str, num);
    ranges.more = Some(|_, r| more_ranges(r));
    explore(ctx, &ranges, &["1", "80", "82", "-", ":", "0", "/"], (6, 8));
    let nums: &[&str] = &["0", "1", "80", "65534", "65535", "65536", ""];
    product(ctx, &ranges, &[nums, &["", "-"], nums, &["", ":"], nums, &["", "-"], nums]);
    let mut sp = ops!(ShortPort, "ShortPort", m_short_port; serde, str, num);
    sp.more = Some(|_, p| {
        more_ranges(&p.ranges)?;
        let c = p.ranges.container();
        if c.end().is_some_and(|x| x - c.start() > 200) {
            return Ok(());
        }
        let long: Vec<_> = p.clone().into_long_iter().map(|l| (l.published.map(|p| p.to_string()), l.target, l.host_ip, l.protocol)).collect();
        let want: Vec<_> = p.ranges.clone().into_iter().map(|(h, c)| (h.map(|h| h.to_string()), c, p.host_ip, p.protocol.clone())).collect();
        same("long ports", &long, &want)
    });
    explore(ctx, &sp, &["1", "80", "-", ":", "/", "tcp", "x", "127.0.0.1", "::1", "[", "]", "0", " "], (5, 6));
    product(
        ctx,
        &sp,
        &[
            &["", "127.0.0.1", "::1", "[::1]", "[127.0.0.1]", "[::1", "::1]", "::", "[::]", "::ffff:1.2.3.4", "fe80::1", "2001:db8::8:800:200c:417a", "256.0.0.1", "1.2.3", "localhost", "[]", "1:2:3:4:5:6:7:8", "01.2.3.4", "::1%eth0", "[[::1]]"],
            &["", ":"],
            &["", "80", "80-82", "0", "8080-8081", "82-80", "70000", "80-", "-80"],
            &["", ":", "::"],
            &["", "80", "90-92", "65535", "1-2", "90-90", "x"],
            &["", "/", "/tcp", "/udp", "/TCP", "/sctp", "/tcp/udp", "/tcp:udp", "/ tcp", "/1-2"],
        ],
    );
    let ex = ops!(Expose, "Expose", m_expose; serde, str, num);
    explore(ctx, &ex, &["1", "80", "65535", "65536", "-", "/", "tcp", "udp", "x", ":", " ", "0"], (5, 6));
    // typed
    let pr = ops!(Protocol, "Protocol", |s| if s.is_empty() { Err(Any) } else { Ok((protocol(s), s.to_owned())) }; serde, owned, into, cow, as_str);
    explore(ctx, &pr, &["tcp", "udp", "T", "/", " ", "sctp", "x", ":"], (4, 6));
}

// ---------------------------------------------------------------- devices

fn m_perms(s: &str) -> P<Permissions> {
    if !s.bytes().all(|b| matches!(b, b'r' | b'w' | b'm')) {
        return Err(No);
    }
    let has = |c: char| s.contains(c);
    let p = Permissions { read: has('r'), write: has('w'), mknod: has('m') };
    let text: String = "rwm".chars().filter(|c| has(*c)).collect();
    if s.len() != text.len() {
        return Err(Any);
    }
    Ok((p, text))
}

fn m_device(s: &str) -> P<Device> {
    let parts: Vec<&str> = s.splitn(3, ':').collect();
    if parts.len() < 2 {
        return Err(No);
    }
    let container = abs(parts[1])?;
    let perms = match parts.get(2) {
        None => None,
        Some(p) => Some(m_perms(p)?),
    };
    if parts[0].is_empty() || parts.get(2) == Some(&"") {
        return Err(Any);
    }
    let text = format!("{}:{}{}", parts[0], parts[1], perms.as_ref().map_or(String::new(), |p| format!(":{}", p.1)));
    Ok((Device { host_path: PathBuf::from(parts[0]), container_path: container, permissions: perms.map_or(Permissions::default(), |p| p.0) }, text))
}

fn m_number(s: &str) -> P<MajorMinorNumber> {
    match s {
        "*" => Ok((MajorMinorNumber::All, "*".into())),
        "" => Err(Any),
        s => uint(s, 65_535).map(|n| (MajorMinorNumber::Integer(n as u16), n.to_string())),
    }
}

fn m_kind(s: &str) -> P<Kind> {
    let k = match s {
        "a" => Kind::All,
        "b" => Kind::Block,
        "c" => Kind::Char,
        _ => return Err(No),
    };
    Ok((k, s.into()))
}

fn m_cgroup(s: &str) -> P<CgroupRule> {
    let parts: Vec<&str> = s.splitn(3, ' ').collect();
    let kind = m_kind(parts[0])?;
    let (a, b) = parts.get(1).and_then(|p| p.split_once(':')).ok_or(No)?;
    let (a, b) = (m_number(a), m_number(b));
    let perms = m_perms(parts.get(2).unwrap_or(&""));
    if matches!(a, Err(No)) || matches!(b, Err(No)) || matches!(perms, Err(No)) {
        return Err(No);
    }
    let (a, b, perms) = (a?, b?, perms?);
    if perms.1.is_empty() {
        return Err(Any);
    }
    Ok((
        CgroupRule { kind: kind.0, major: a.0, minor: b.0, permissions: perms.0 },
        format!("{} {}:{} {}", kind.1, a.1, b.1, perms.1),
    ))
}

fn devices(ctx: &Ctx) {
    explore(ctx, &ops!(Permissions, "Permissions", m_perms; str), &["r", "w", "m", "x", " ", "R", ":", "é"], (5, 6));
    explore(ctx, &ops!(Kind, "device Kind", m_kind; str), &["a", "b", "c", "d", "A", " ", "*", "é"], (3, 5));
    for c in (0..=char::MAX as u32).filter_map(char::from_u32) {
        let want = m_kind(&c.to_string()).ok();
        ctx.add_states(1);
        ctx.case(
            || format!("Kind from {c:?}"),
            || {
                let got = Kind::try_from(c).ok();
                same("Kind", &got, &want.as_ref().map(|w| w.0))?;
                if let Some(k) = got {
                    same("as_char", &k.as_char(), &c)?;
                    same("char", &char::from(k), &c)?;
                }
                Ok(())
            },
        );
    }
    let mut num = ops!(MajorMinorNumber, "MajorMinorNumber", m_number; str);
    num.more = Some(|_, v| {
        for n in [0u16, 1, 65_535, 7] {
            same("comparison", &(*v == n), &(*v == MajorMinorNumber::Integer(n)))?;
            same("From<u16>", &MajorMinorNumber::from(n), &MajorMinorNumber::Integer(n))?;
        }
        Ok(())
    });
    explore(ctx, &num, &["*", "0", "1", "7", "65535", "6553", "-", " ", "+", "x"], (4, 6));
    let dev = ops!(Device, "Device", m_device; serde, str);
    explore(ctx, &dev, &["/dev/a", "/", "./b", "a", ":", "r", "w", "m", "rwm", "x"], (5, 6));
    product(
        ctx,
        &dev,
        &[
            &["/dev/a", "a", "", "./x y", ".", "é", "a,b=c"],
            &[":", "", "::"],
            &["/a", "/", "a", "", "/a b", "./a", "//a", "/a/../b"],
            &["", ":"],
            &["", "r", "w", "m", "rw", "wr", "rm", "mr", "wm", "mw", "rwm", "rmw", "wrm", "wmr", "mrw", "mwr", "rr", "x", "rx", "R", " ", "r ", ":"],
        ],
    );
    let rule = ops!(CgroupRule, "CgroupRule", m_cgroup; serde, str);
    explore(ctx, &rule, &["a", "b", "1", "65535", "65536", "*", ":", " ", "r", "w", "m", "x"], (6, 6));
    product(
        ctx,
        &rule,
        &[
            &["a", "b", "c", "d", "", "A", "ab"],
            &[" ", "", "  ", ":", "\t"],
            &["0", "1", "65535", "65536", "*", "", "-1", "**"],
            &[":", "", "::", " "],
            &["0", "3", "65535", "65536", "*", "", "-1", "1*"],
            &["", " ", "  ", "\t"],
            &["", "r", "w", "m", "rw", "wr", "rm", "mr", "wm", "mw", "rwm", "mwr", "rr", "x", "r ", "r w"],
        ],
    );
}

// ---------------------------------------------------------------- volumes

fn m_source(s: &str) -> P<Source> {
    if s.starts_with('/') || s == "." || s == ".." || s.starts_with("./") || s.starts_with("../") {
        return Ok((Source::try_from(PathBuf::from(s)).map_err(|_| No)?, s.into()));
    }
    if s.starts_with('.') {
        return Err(No);
    }
    ident(s).map(|i| (Source::Volume(i), s.into()))
}

fn m_volume(s: &str) -> P<ShortVolume> {
    let parts: Vec<&str> = s.splitn(3, ':').collect();
    if parts.len() == 1 {
        return Ok((ShortVolume { container_path: abs(s)?, options: None }, s.into()));
    }
    let (source, st) = m_source(parts[0])?;
    let container_path = abs(parts[1])?;
    let (mut mode, mut label) = (None, None);
    if let Some(opts) = parts.get(2) {
        for o in opts.split(',') {
            let slot = match o {
                "ro" | "rw" => &mut mode,
                "z" | "Z" => &mut label,
                _ => return Err(No),
            };
            if slot.is_some() {
                return Err(No);
            }
            *slot = Some(o);
        }
    }
    let read_only = mode == Some("ro");
    let selinux = label.map(|l| if l == "z" { SELinux::Shared } else { SELinux::Private });
    let opts: Vec<&str> = mode.filter(|m| *m == "ro").into_iter().chain(label).collect();
    let mut text = format!("{st}:{}", parts[1]);
    if !opts.is_empty() {
        text += &format!(":{}", opts.join(","));
    }
    Ok((ShortVolume { container_path, options: Some(ShortOptions { source, read_only, selinux }) }, text))
}

fn m_vf_source(s: &str) -> P<VolumesFromSource> {
    match s.strip_prefix("container:") {
        Some(c) => ident(c).map(|i| (VolumesFromSource::Container(i), s.into())),
        None => ident(s).map(|i| (VolumesFromSource::Service(i), s.into())),
    }
}

fn m_volumes_from(s: &str) -> P<VolumesFrom> {
    let (src, mode) = match s.rsplit_once(':') {
        Some((src, m @ ("ro" | "rw"))) => (src, m),
        _ => (s, ""),
    };
    let (source, text) = m_vf_source(src)?;
    let read_only = mode == "ro";
    let suffix = if read_only {
        ":ro"
    } else if text == "container:ro" || text == "container:rw" {
        ":rw"
    } else {
        ""
    };
    Ok((VolumesFrom { source, read_only }, text + suffix))
}

fn volumes(ctx: &Ctx) {
    let mut src = ops!(Source, "Source", m_source; str, parse);
    src.read.push(("TryFrom<String>", |s| Source::try_from(s.to_owned()).map_err(e)));
    explore(ctx, &src, &["/", ".", "..", "a", "b_c", "-", ":", " ", "~", "é"], (5, 6));
    let vol = ops!(ShortVolume, "ShortVolume", m_volume; serde);
    explore(ctx, &vol, &["/a", "./b", "vol", ":", "ro", "rw", "z", "Z", ",", "..", ".h", " "], (5, 6));
    let src: &[&str] = &["", "vol", "/a", "./a", "../a", ".", "..", ".h", "~/a", "-v", "a b", "v.1_x-y", "/", "é"];
    product(
        ctx,
        &vol,
        &[
            src,
            &["", ":", "::"],
            &["", "/p", "/", "p", "./p", "/p q", "//p"],
            &["", ":"],
            &["", "ro", "rw", "z", "Z", "nocopy", "ro ", "RO"],
            &["", ",", ",,", ":"],
            &["", "ro", "rw", "z", "Z", "x"],
            &["", ",ro", ",z", ",", ",Z", ",rw"],
        ],
    );
    let vfs = ops!(VolumesFromSource, "VolumesFromSource", m_vf_source; serde, owned, str, parse, into);
    explore(ctx, &vfs, &["container", ":", "a", "ro", "rw", "b-c", "-", " ", "Container", "."], (5, 6));
    let vf = ops!(VolumesFrom, "VolumesFrom", m_volumes_from; serde, owned, str, parse, into);
    explore(ctx, &vf, &["container", ":", "a", "ro", "rw", "b-c", "-", " ", "Container", "."], (6, 7));
}

// ---------------------------------------------------------------- cpusets, users

fn m_cpuset(s: &str) -> P<CpuSet> {
    let mut set = BTreeSet::new();
    let mut any = false;
    if !s.is_empty() {
        let mut parts: Vec<&str> = s.split(',').collect();
        if parts.len() > 1 && parts.last() == Some(&"") {
            parts.pop();
            any = true;
        }
        for p in parts {
            let mut int = |t: &str| match uint(t, u64::MAX) {
                Err(Any) => {
                    any = true;
                    Ok(t.trim_start_matches('+').parse::<u64>().unwrap())
                }
                r => r,
            };
            match p.split_once('-') {
                None => {
                    set.insert(int(p)?);
                }
                Some((a, b)) => {
                    let (a, b) = (int(a)?, int(b)?);
                    if a > b {
                        return Err(No);
                    }
                    set.extend(a..=b);
                }
            }
        }
    }
    if any {
        return Err(Any);
    }
    let text = cpu_text(&set);
    Ok((CpuSet(set), text))
}

fn cpu_text(set: &BTreeSet<u64>) -> String {
    let mut runs: Vec<(u64, u64)> = Vec::new();
    for n in set {
        match runs.last_mut() {
            Some((_, b)) if b.checked_add(1) == Some(*n) => *b = *n,
            _ => runs.push((*n, *n)),
        }
    }
    runs.iter().map(|(a, b)| if a == b { a.to_string() } else { format!("{a}-{b}") }).collect::<Vec<_>>().join(",")
}

fn m_user_name(s: &str) -> Result<Name, Stop> {
    let body = s.strip_suffix('$').unwrap_or(s);
    let ok = !s.is_empty()
        && s.len() <= 32
        && !s.starts_with('-')
        && !s.bytes().all(|b| b.is_ascii_digit())
        && body.bytes().all(|b| b.is_ascii_alphanumeric() || matches!(b, b'_' | b'-'));
    if ok {
        Name::new(s).map_err(|_| Any)
    } else {
        Err(No)
    }
}

fn m_id_or_name(s: &str) -> P<IdOrName> {
    match uint(s, u64::from(u32::MAX)) {
        Ok(n) => Ok((IdOrName::Id(n as u32), n.to_string())),
        Err(Any) => Err(Any),
        Err(No) => m_user_name(s).map(|n| (IdOrName::Name(n), s.into())),
    }
}

fn m_user(s: &str) -> P<User> {
    match s.split_once(':') {
        None => m_id_or_name(s).map(|(u, t)| (User { user: u, group: None }, t)),
        Some((u, g)) => {
            let (u, g) = (m_id_or_name(u), m_id_or_name(g));
            if matches!(u, Err(No)) || matches!(g, Err(No)) {
                return Err(No);
            }
            let (u, g) = (u?, g?);
            Ok((User { user: u.0, group: Some(g.0) }, format!("{}:{}", u.1, g.1)))
        }
    }
}

fn cpus_and_users(ctx: &Ctx) {
    let mut cs = ops!(CpuSet, "CpuSet", m_cpuset; serde, str);
    // a set is kept in memory: long ranges are judged under C13
    cs.skip = |s| {
        s.split(',').filter_map(|p| p.split_once('-')).any(|(a, b)| matches!((a.parse::<u64>(), b.parse::<u64>()), (Ok(a), Ok(b)) if b > a && b - a > 1000))
    };
    cs.more = Some(|_, v| {
        same("is_empty", &v.is_empty(), &v.0.is_empty())?;
        let set: BTreeSet<u64> = v.clone().into();
        same("From<BTreeSet>", &CpuSet::from(set), v)
    });
    explore(ctx, &cs, &["0", "2", "5", "-", ",", "x"], (6, 8));
    product(
        ctx,
        &cs,
        &[
            &["", "0", "3", "10", "18446744073709551615", "18446744073709551614", "18446744073709551616"],
            &["", "-", ","],
            &["3", "5", "18446744073709551615"],
            &["", ",", ", ", ",,"],
            &["0-3", "4", "7-9", "2-5", "18446744073709551614-18446744073709551615", "9-7", "1-1", "-1", "1-", " 1", "1-2-3"],
            &["", ",6", ",", ",0-1"],
        ],
    );
    // every subset of the first processors, and of some at the end of u64
    let bits = ctx.pick(12, 18);
    ctx.part("CpuSet: subsets", 2 << bits);
    ctx.par(1 << bits, |m| {
        for base in [0u64, u64::MAX - bits as u64 + 1] {
            let set: BTreeSet<u64> = (0..bits as u64).filter(|b| m >> b & 1 == 1).map(|b| base + b).collect();
            let text = cpu_text(&set);
            check(ctx, &cs, &text);
            ctx.case(
                || format!("CpuSet {set:?}"),
                || {
                    same("printed", &CpuSet(set.clone()).to_string(), &text)?;
                    same("read back", &text.parse::<CpuSet>().map(|c| c.0).map_err(e), &Ok(set.clone()))
                },
            );
        }
    });
    let mut ion = ops!(IdOrName, "IdOrName", m_id_or_name; serde, owned, str, parse, into, num);
    ion.more = Some(|_, v| {
        same("is_id, as_id", &(v.is_id(), v.as_id()), &match v { IdOrName::Id(n) => (true, Some(*n)), IdOrName::Name(_) => (false, None) })?;
        same("is_name, as_name", &(v.is_name(), v.as_name().is_some()), &match v { IdOrName::Id(_) => (false, false), IdOrName::Name(_) => (true, true) })
    });
    explore(ctx, &ion, &["0", "1000", "a", "Z", "_", "-", "$", "4294967295", "4294967296", " ", "é"], (5, 6));
    for n in 28..36 {
        for (first, last) in [("a", ""), ("1", ""), ("a", "$"), ("1", "a"), ("_", "$"), ("a", "-")] {
            check(ctx, &ion, &format!("{first}{}{last}", "1".repeat(n)));
        }
    }
    let user = ops!(User, "User", m_user; serde, owned, str, parse, into);
    explore(ctx, &user, &["0", "1000", "a", "Z", "_", "-", "$", ":", "4294967295", "4294967296", " "], (5, 6));
}

// ---------------------------------------------------------------- modes, links, builds

fn m_network_mode(s: &str) -> P<NetworkMode> {
    let v = match s {
        "none" => NetworkMode::None,
        "host" => NetworkMode::Host,
        _ => {
            if let Some(t) = s.strip_prefix("service:") {
                NetworkMode::Service(ident(t)?)
            } else if let Some(t) = s.strip_prefix("container:") {
                NetworkMode::Container(ident(t)?)
            } else if s.is_empty() {
                return Err(Any);
            } else {
                NetworkMode::Other(s.into())
            }
        }
    };
    Ok((v, s.into()))
}

fn m_ipc(s: &str) -> P<Ipc> {
    let v = match s {
        "shareable" => Ipc::Shareable,
        _ => match s.strip_prefix("service:") {
            Some(t) => Ipc::Service(ident(t)?),
            None if s.is_empty() => return Err(Any),
            None => Ipc::Other(s.into()),
        },
    };
    Ok((v, s.into()))
}

fn m_link(s: &str) -> P<Link> {
    let v = match s.split_once(':') {
        None => Link { service: ident(s)?, alias: None },
        Some((a, b)) => {
            let service = ident(a)?;
            if b.is_empty() {
                return Err(Any);
            }
            Link { service, alias: Some(b.into()) }
        }
    };
    Ok((v, s.into()))
}

fn m_build_network(s: &str) -> P<BuildNetwork> {
    let v = if s == "none" { BuildNetwork::None } else { BuildNetwork::Identifier(ident(s)?) };
    Ok((v, s.into()))
}

fn m_ssh_id(s: &str) -> P<SshAuthId> {
    let (a, b) = s.split_once('=').ok_or(No)?;
    if a.is_empty() || b.is_empty() {
        return Err(No);
    }
    Ok((SshAuthId::new(a, b).map_err(|_| No)?, s.into()))
}

fn m_ssh(s: &str) -> P<SshAuth> {
    if s == "default" {
        return Ok((SshAuth::Default, s.into()));
    }
    m_ssh_id(s).map(|(v, t)| (SshAuth::Id(v), t))
}

fn m_context(s: &str) -> P<Context> {
    if s.starts_with(|c: char| c <= ' ') || s.ends_with(|c: char| c <= ' ') {
        return Err(Any);
    }
    match url::Url::parse(s) {
        Ok(u) => {
            let t = u.as_str().to_owned();
            Ok((Context::Url(u), t))
        }
        Err(_) => Ok((Context::Path(s.into()), s.into())),
    }
}

fn more_context(_: &str, v: &Context) -> Result<(), String> {
    let text = v.to_string();
    same("into_string", &v.clone().into_string().map_err(|_| ()), &Ok(text.clone()))?;
    same("as_path", &v.as_path().map(|p| p.display().to_string()), &matches!(v, Context::Path(_)).then(|| text.clone()))?;
    same("as_url", &v.as_url().map(|u| u.to_string()), &matches!(v, Context::Url(_)).then(|| text.clone()))?;
    // the parts of the canonical text
    let (base, fragment) = text.split_once('#').map_or((text.as_str(), None), |(a, b)| (a, Some(b)));
    let path = base.split('?').next().unwrap();
    let http = matches!(v, Context::Url(_)) && (text.starts_with("http://") || text.starts_with("https://"));
    let after_host = path.splitn(4, '/').nth(3).unwrap_or("");
    let last = after_host.rsplit('/').next().unwrap();
    let dot_git = last.len() > 4 && last.to_ascii_lowercase().ends_with(".git");
    let git = if !http || (!dot_git && !after_host.to_ascii_lowercase().trim_end_matches('/').ends_with(".git")) {
        false
    } else if dot_git {
        true
    } else {
        return Ok(());
    };
    same("is_git_repo_url", &v.is_git_repo_url(), &git)?;
    let fragment = fragment.filter(|_| git);
    let branch = fragment.map(|f| f.split(':').next().unwrap());
    let sub = fragment.and_then(|f| f.split_once(':')).map(|f| f.1);
    same("branch_or_tag", &v.branch_or_tag(), &branch)?;
    same("subdirectory", &v.subdirectory(), &sub)
}

fn m_image(s: &str) -> Result<Image, Stop> {
    // C06 decides which images are valid
    s.parse().map_err(|_| No)
}

fn opt(s: &str) -> Result<CacheOption, Stop> {
    if s.is_empty() || s.contains(char::is_whitespace) {
        return Err(No);
    }
    CacheOption::new(s).map_err(|_| No)
}

fn m_cache(s: &str) -> P<Cache> {
    if !s.contains(',') && !s.starts_with("type=") {
        let i = m_image(s)?;
        return Ok((Cache::from_image(i), s.into()));
    }
    let mut parts = s.split(',');
    let ty = parts.next().unwrap().strip_prefix("type=").ok_or(No)?;
    let mut options: IndexMap<CacheOption, CacheOption> = IndexMap::new();
    let mut kv: Vec<(&str, &str)> = Vec::new();
    let mut any = false;
    for p in parts {
        let (k, v) = p.split_once('=').ok_or(No)?;
        let (ok, ov) = (opt(k)?, opt(v)?);
        any |= options.insert(ok, ov).is_some() || k == "type";
        kv.push((k, v));
    }
    if ty == "registry" {
        let at = kv.iter().position(|k| k.0 == "ref").ok_or(No)?;
        if any {
            return Err(Any);
        }
        let image = kv.remove(at).1;
        options.shift_remove("ref");
        let cache = Cache { cache_type: CacheType::Registry(m_image(image)?), options };
        let mut t = image.to_owned();
        if !kv.is_empty() {
            t = format!("type=registry,ref={image}");
            for (k, v) in kv {
                t += &format!(",{k}={v}");
            }
        }
        return Ok((cache, t));
    }
    let cache_type = CacheType::Other(opt(ty)?);
    if any {
        return Err(Any);
    }
    Ok((Cache { cache_type, options }, s.into()))
}

fn more_cache(s: &str, v: &Cache) -> Result<(), String> {
    let r = v.cache_type.is_registry();
    same("as_registry", &v.cache_type.as_registry().is_some(), &r)?;
    same("is_other", &v.cache_type.is_other(), &!r)?;
    same("as_other", &v.cache_type.as_other().is_some(), &!r)?;
    if m_cache(s).is_err() {
        return Ok(());
    }
    let text: Vec<(String, String)> = v.clone().into_options().into_iter().map(|(k, v)| (k.as_str().to_owned(), v.as_str().to_owned())).collect();
    let printed = v.to_string();
    let want: Vec<(String, String)> = if printed.starts_with("type=") {
        printed.split(',').map(|p| p.split_once('=').unwrap()).map(|(k, v)| (k.to_owned(), v.to_owned())).collect()
    } else {
        vec![("type".into(), "registry".into()), ("ref".into(), printed)]
    };
    same("into_options", &text, &want)
}

fn other<T>(words: &'static [(&'static str, T)], make: fn(String) -> T, s: &str) -> P<T>
where
    T: Clone,
{
    match words.iter().find(|w| w.0 == s) {
        Some(w) => Ok((w.1.clone(), s.into())),
        None if s.is_empty() => Err(Any),
        None => Ok((make(s.into()), s.into())),
    }
}

fn modes(ctx: &Ctx) {
    let mut nm = ops!(NetworkMode, "NetworkMode", m_network_mode; serde, owned, str, parse, into, cow);
    nm.more = Some(|s, v| {
        same("is_none", &v.is_none(), &(s == "none"))?;
        same("is_host", &v.is_host(), &(s == "host"))?;
        same("as_service", &v.as_service().map(|i| format!("service:{i}")), &s.starts_with("service:").then(|| s.into()))?;
        same("as_container", &v.as_container().map(|i| format!("container:{i}")), &s.starts_with("container:").then(|| s.into()))?;
        same("is_service", &v.is_service(), &v.as_service().is_some())?;
        same("is_container", &v.is_container(), &v.as_container().is_some())?;
        same("is_other", &v.is_other(), &v.as_other().is_some())?;
        let o = !v.is_none() && !v.is_host() && !v.is_service() && !v.is_container();
        same("as_other", &v.as_other().map(String::as_str), &o.then_some(s))
    });
    explore(ctx, &nm, &["none", "host", "service", ":", "container", "a", "-", " ", "Host", "bridge", "b.c"], (5, 6));
    let mut ipc = ops!(Ipc, "Ipc", m_ipc; serde, owned, str, parse, into, cow);
    ipc.more = Some(|s, v| {
        same("is_shareable", &v.is_shareable(), &(s == "shareable"))?;
        same("as_service", &v.as_service().map(|i| format!("service:{i}")), &s.starts_with("service:").then(|| s.into()))?;
        same("is_service", &v.is_service(), &v.as_service().is_some())?;
        same("is_other", &v.is_other(), &v.as_other().is_some())?;
        same("as_other", &v.as_other().map(String::as_str), &(!v.is_shareable() && !v.is_service()).then_some(s))
    });
    explore(ctx, &ipc, &["shareable", "host", "service", ":", "container", "a", "-", " ", "Shareable", "b.c"], (5, 6));
    let link = ops!(Link, "Link", m_link; serde, owned, str, parse, into);
    explore(ctx, &link, &["a", "b.c", ":", "-", " ", "A", "_", "é", "="], (5, 7));
    let mut bn = ops!(BuildNetwork, "build Network", m_build_network; serde, owned, str, parse, into, cow, as_str);
    bn.more = Some(|s, v| {
        same("is_none", &v.is_none(), &(s == "none"))?;
        same("into_option", &v.clone().into_option().map(|i| i.to_string()), &(s != "none").then(|| s.to_owned()))
    });
    explore(ctx, &bn, &["none", "host", "None", "a", "-", ".", " ", "_"], (5, 6));
    let mut ssh = ops!(SshAuth, "SshAuth", m_ssh; serde);
    ssh.more = Some(|s, v| {
        let parts = s.split_once('=').filter(|_| s != "default");
        same("id", &v.id(), &parts.map(|p| p.0))?;
        same("path", &v.path().map(|p| p.display().to_string()), &parts.map(|p| p.1.to_owned()))?;
        same("as_id", &v.as_id().map(|i| (i.id().to_owned(), i.path().to_owned())), &parts.map(|p| (p.0.to_owned(), PathBuf::from(p.1))))
    });
    explore(ctx, &ssh, &["default", "=", "a", "/k", " ", ",", ".", "é", "x=y"], (5, 6));
    explore(ctx, &ops!(SshAuthId, "SshAuthId", m_ssh_id;), &["default", "=", "a", "/k", " ", ",", ".", "é", "x=y"], (5, 6));
    let mut cx = ops!(Context, "Context", m_context; serde);
    cx.read.push(("From<&str>", |s| Ok(Context::from(s))));
    cx.read.push(("From<String>", |s| Ok(Context::from(s.to_owned()))));
    cx.read.push(("From<Box<str>>", |s| Ok(Context::from(Box::<str>::from(s)))));
    cx.read.push(("From<Cow<str>>", |s| Ok(Context::from(Cow::Borrowed(s)))));
    cx.read.push(("parse(String)", |s| Ok(Context::parse(s.to_owned()))));
    cx.more = Some(more_context);
    explore(ctx, &cx, &["http", "git", ":", "/", "//", "g.com", "a", ".git", "#", "b", "?", ".", "..", "@", "%20", "HTTPS"], (5, 5));
    product(
        ctx,
        &cx,
        &[
            &["http://", "https://", "HTTPS://", "git://", "ssh://git@", "git@", "file:///", "", "./", "C:\\", "ftp://"],
            &["", "g.com/", "g.com", "G.com:80/x/", "[::1]/"],
            &["", "a", "a.git", "a.GIT", "a.git/", ".git", "a.git.x", "agit", "a.git/b", "é.git", "a b.git"],
            &["", "?q=x.git", "?q"],
            &["", "#", "#main", "#main:", "#main:sub", "#:sub", "#a:b:c", "##x", "#v1.0/x:y z", "#x?y"],
        ],
    );
    let mut cache = ops!(Cache, "Cache", m_cache; serde, owned, str, parse);
    cache.more = Some(more_cache);
    explore(ctx, &cache, &["type=", "registry", "local", "ref=", "img", ":t", ",", "=", "k", " ", "m=max", "type"], (6, 6));
    product(
        ctx,
        &cache,
        &[
            &["type=", "", "Type=", "type"],
            &["registry", "local", "", "gha", "r.io/a/b:1", "a b", "registry "],
            &["", ",", ",ref=img:1", ",mode=max", ",ref=", ",ref=Bad", ",k"],
            &["", ",ref=r.io:5000/x@sha256:0123456789012345678901234567890123456789012345678901234567890123", ",src=a/b=c", ",k=v", ",=v", ",k=", ",type=x"],
            &["", ",k=v", ",ref=img", ",", ",\u{a0}=1", ",z=9"],
        ],
    );
    explore(
        ctx,
        &ops!(CacheOption, "CacheOption", |s| opt(s).map(|o| (o, s.to_owned())); serde, owned, str, into, as_str),
        &["a", "=", ",", " ", "\t", "\u{a0}", "é", "\u{2003}", "-"],
        (4, 6),
    );
    // caches by value
    let images = ["img", "img:1", "r.io/a/b", "r.io:80/a@sha256:0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"];
    let pairs = [("mode", "max"), ("k", "v"), ("src", "./p"), ("x", "y:z")];
    for ty in images.iter().map(|i| CacheType::Registry(i.parse().unwrap())).chain(["local", "gha", "s3"].map(|o| CacheType::Other(o.parse().unwrap()))) {
        for m in 0..1 << pairs.len() {
            let options: IndexMap<CacheOption, CacheOption> =
                pairs.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, (k, v))| (k.parse().unwrap(), v.parse().unwrap())).collect();
            let c = Cache { cache_type: ty.clone(), options };
            ctx.add_states(1);
            ctx.case(|| format!("Cache {c:?}"), || same("read back", &c.to_string().parse::<Cache>().map_err(e), &Ok(c.clone())));
        }
    }
    let toks: &[&str] = &["host", "none", "vip", "dnsrr", "gpu", "tpu", "H", " ", ":"];
    let mut dr = ops!(Driver, "network Driver", |s| other(const { &[("host", Driver::Host), ("none", Driver::None)] }, Driver::Other, s); serde, owned, into, cow, as_str);
    dr.read.push(("parse", |s| Ok(Driver::parse(s))));
    explore(ctx, &dr, toks, (4, 6));
    let mut em = ops!(EndpointMode, "EndpointMode", |s| other(const { &[("vip", EndpointMode::VIp), ("dnsrr", EndpointMode::DnsRR)] }, EndpointMode::Other, s); serde, owned, into, cow, as_str);
    em.more = Some(|s, v| {
        same("is_vip", &v.is_vip(), &(s == "vip"))?;
        same("is_dnsrr", &v.is_dnsrr(), &(s == "dnsrr"))
    });
    explore(ctx, &em, toks, (4, 6));
    let mut cap = ops!(Capability, "Capability", |s| other(const { &[("gpu", Capability::Gpu), ("tpu", Capability::Tpu)] }, Capability::Other, s); serde, owned, into, cow, as_str);
    cap.more = Some(|s, v| {
        same("is_gpu", &v.is_gpu(), &(s == "gpu"))?;
        same("is_tpu", &v.is_tpu(), &(s == "tpu"))
    });
    explore(ctx, &cap, toks, (4, 6));
    // a count may be a quoted number
    fn count(s: &str) -> P<Count> {
        if s == "all" {
            return Ok((Count::All, s.into()));
        }
        uint(s, u64::MAX).map(|n| (Count::Integer(n), n.to_string()))
    }
    let c: Ops<Count> = Ops {
        name: "Count",
        read: vec![("str::parse", |s| s.parse::<Count>().map_err(e)), ("from a YAML value", de_value), ("from YAML text", de_text)],
        text: vec![("serialized", |c| match serde_yaml::to_value(c) {
            Ok(Value::String(s)) => s,
            Ok(Value::Number(n)) => n.to_string(),
            o => format!("{o:?}"),
        })],
        ser: Some(|t| serde_yaml::to_value(t).map_err(e)),
        de: Some(|v| serde_yaml::from_value(v).map_err(e)),
        num: true,
        model: count,
        more: None,
        skip: |_| false,
    };
    explore(ctx, &c, &["all", "0", "1", "18446744073709551615", "-", "A", " ", "."], (4, 6));
}

// ---------------------------------------------------------------- MAC addresses

fn m_mac(s: &str) -> P<MacAddress> {
    let parts: Vec<&str> = s.split(':').collect();
    if parts.len() != 6 {
        return Err(No);
    }
    let mut out = [0; 6];
    let mut any = false;
    for (o, p) in out.iter_mut().zip(parts) {
        let d = p.strip_prefix('+').unwrap_or(p);
        let z = d.trim_start_matches('0');
        if d.is_empty() || z.len() > 2 || !d.bytes().all(|b| b.is_ascii_hexdigit()) {
            return Err(No);
        }
        any |= d.len() != p.len() || d.len() > 2;
        *o = if z.is_empty() { 0 } else { u8::from_str_radix(z, 16).unwrap() };
    }
    if any {
        return Err(Any);
    }
    Ok((MacAddress(out), out.map(|b| format!("{b:02x}")).join(":")))
}

fn macs(ctx: &Ctx) {
    let mut mac = ops!(MacAddress, "MacAddress", m_mac; serde, str);
    mac.more = Some(|_, v| {
        same("bytes", &<[u8; 6]>::from(*v), &v.0)?;
        same("AsRef", &AsRef::<[u8]>::as_ref(v), &&v.0[..])?;
        same("From", &MacAddress::from(v.0), v)
    });
    let groups: &[&str] = &["00", "0", "ff", "A", "g", "100", "", "1f", " 1"];
    let groups = &groups[..ctx.pick(7, 9)];
    let n = groups.len().pow(6);
    ctx.part("MacAddress: six groups", n as u64);
    ctx.par(groups.len().pow(3), |hi| {
        for lo in 0..groups.len().pow(3) {
            let mut i = hi * groups.len().pow(3) + lo;
            let mut s = String::new();
            for g in 0..6 {
                if g > 0 {
                    s.push(':');
                }
                s.push_str(groups[i % groups.len()]);
                i /= groups.len();
            }
            check(ctx, &mac, &s);
        }
    });
    // every byte in every place
    ctx.par(256, |b| {
        for place in 0..6 {
            let mut v = [0x5a; 6];
            v[place] = b as u8;
            let lower = v.map(|b| format!("{b:02x}"));
            check(ctx, &mac, &lower.join(":"));
            check(ctx, &mac, &lower.join(":").to_uppercase());
            check(ctx, &mac, &lower.join("-"));
            check(ctx, &mac, &v.map(|b| format!("{b:x}")).join(":"));
            check(ctx, &mac, &lower[1..].join(":"));
            check(ctx, &mac, &format!("{}:00", lower.join(":")));
            check(ctx, &mac, &format!("{}:", lower.join(":")));
            check(ctx, &mac, &format!(":{}", lower.join(":")));
        }
    });
    explore(ctx, &mac, &["00", "f", ":", "g", "+1", " ", "001", "0:0:0:", "-"], (5, 6));
}

// ---------------------------------------------------------------- extra hosts

/// `extra_hosts` entries of a list: a host name, the first `=` or `:`, and an address which may be in brackets.
fn extra_hosts(ctx: &Ctx) {
    let toks: &[&str] = &["h", "a.b", "=", ":", "::1", "127.0.0.1", "[", "]", " ", "-", "1"];
    let depth: usize = ctx.pick(5, 6);
    let k = toks.len();
    let read = |s: &str, list: bool| -> Result<IndexMap<String, IpAddr>, String> {
        let doc = if list {
            y::m([("image", y::s("i")), ("extra_hosts", y::l([y::s(s)]))])
        } else {
            let (a, b) = s.split_once('\0').unwrap();
            y::m([("image", y::s("i")), ("extra_hosts", y::m([(a, y::s(b))]))])
        };
        let svc: service::Service = serde_yaml::from_value(doc.value()).map_err(e)?;
        Ok(svc.extra_hosts.iter().map(|(k, v)| (k.to_string(), *v)).collect())
    };
    let model = |host: &str, ip: &str| -> Option<(String, IpAddr)> {
        let ok = !host.is_empty()
            && host.split('.').all(|l| !l.is_empty() && !l.starts_with('-') && !l.ends_with('-') && l.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-'));
        let inner = ip.strip_prefix('[').and_then(|i| i.strip_suffix(']')).unwrap_or(ip);
        Some((host.to_owned(), inner.parse().ok()?)).filter(|_| ok)
    };
    let n = k.pow(depth as u32);
    ctx.part("extra_hosts entries", n as u64);
    ctx.par(n, |mut i| {
        let mut s = String::new();
        for _ in 0..depth {
            s.push_str(toks[i % k]);
            i /= k;
        }
        ctx.add_states(1);
        ctx.case(
            || format!("extra_hosts {s:?}"),
            || {
                let want = s.split_once(['=', ':']).and_then(|(h, ip)| model(h, ip));
                let got = read(&s, true).ok();
                same("entry", &got.map(|g| g.into_iter().collect::<Vec<_>>()), &want.clone().map(|w| vec![w]))?;
                if let Some((h, ip)) = s.split_once(['=', ':']) {
                    let want = model(h, ip);
                    let got = read(&format!("{h}\0{ip}"), false).ok();
                    same("map entry", &got.map(|g| g.into_iter().collect::<Vec<_>>()), &want.map(|w| vec![w]))?;
                }
                Ok(())
            },
        );
    });
}

// ---------------------------------------------------------------- enumerations

fn words<T>(ctx: &Ctx, name: &str, all: &[(&str, T)], aliases: &[(&str, T)], pool: &[String], as_str: &[fn(&T) -> String])
where
    T: Serialize + DeserializeOwned + PartialEq + Debug + Clone,
{
    for w in pool {
        ctx.add_states(1);
        ctx.case(
            || format!("{name} {w:?}"),
            || {
                let want = all.iter().chain(aliases).find(|x| x.0 == w).map(|x| x.1.clone());
                same("value", &de_value::<T>(w).ok(), &want)?;
                same("text", &de_text::<T>(w).ok(), &want)?;
                same("reader", &de_reader::<T>(w).ok(), &want)
            },
        );
    }
    for (w, v) in all {
        ctx.case(
            || format!("{name} {v:?}"),
            || {
                same("serialized", &serde_yaml::to_value(v).map_err(e)?, &Value::String((*w).into()))?;
                for f in as_str {
                    same("text", &f(v), &(*w).to_owned())?;
                }
                Ok(())
            },
        );
    }
    ctx.part(&format!("{name}: words"), pool.len() as u64);
}

fn enums(ctx: &Ctx) {
    use develop::Action;
    use service::{Cgroup, Condition, PullPolicy, Restart, Uts};
    let base = [
        "host", "private", "service_started", "service_healthy", "service_completed_successfully", "always", "never", "missing", "if_not_present", "build",
        "no", "on-failure", "unless-stopped", "ingress", "global", "replicated", "replicated-job", "global-job", "none", "any", "continue", "pause", "rollback", "stop-first",
        "start-first", "shared", "slave", "unbindable", "rprivate", "rshared", "rslave", "runbindable", "rebuild", "sync", "sync+restart", "sync-and-restart",
        "sync_and_restart", "z", "Z", "vip", "dnsrr", "restart", "true", "false", "yes", "off", "",
    ];
    let mut pool: BTreeSet<String> = BTreeSet::new();
    for b in base {
        let title: String = b.chars().take(1).flat_map(char::to_uppercase).chain(b.chars().skip(1)).collect();
        let camel: String = b.split(['-', '_', '+']).map(|p| p.chars().take(1).flat_map(char::to_uppercase).chain(p.chars().skip(1)).collect::<String>()).collect();
        pool.extend([b.to_owned(), b.to_uppercase(), title, camel, b.replace('-', "_"), b.replace('_', "-"), b.replace(['-', '_'], ""), format!("{b} "), format!(" {b}"), format!("{b}s")]);
        for i in 0..b.len() {
            pool.insert(format!("{}{}", &b[..i], &b[i + 1..]));
        }
    }
    let pool: Vec<String> = pool.into_iter().collect();
    macro_rules! en {
        ($T:ty; $($v:ident $w:literal),*; $($av:ident $a:literal),*) => {
            words::<$T>(ctx, stringify!($T), &[$(($w, <$T>::$v)),*], &[$(($a, <$T>::$av)),*], &pool, &[|v| v.as_str().to_owned(), |v| AsRef::<str>::as_ref(v).to_owned(), |v| v.to_string()])
        };
    }
    en!(Cgroup; Host "host", Private "private";);
    en!(Condition; ServiceStarted "service_started", ServiceHealthy "service_healthy", ServiceCompletedSuccessfully "service_completed_successfully";);
    en!(Uts; Host "host";);
    en!(PullPolicy; Always "always", Never "never", Missing "missing", Build "build"; Missing "if_not_present");
    en!(Restart; No "no", Always "always", OnFailure "on-failure", UnlessStopped "unless-stopped";);
    en!(ports::Mode; Host "host", Ingress "ingress";);
    en!(deploy::Mode; Global "global", Replicated "replicated";);
    en!(deploy::RestartCondition; None "none", OnFailure "on-failure", Any "any";);
    en!(deploy::FailureAction; Continue "continue", Pause "pause";);
    en!(deploy::Order; StopFirst "stop-first", StartFirst "start-first";);
    en!(BindPropagation; Private "private", Shared "shared", Slave "slave", Unbindable "unbindable", RPrivate "rprivate", RShared "rshared", RSlave "rslave", RUnbindable "runbindable";);
    en!(Action; Rebuild "rebuild", Sync "sync", SyncAndRestart "sync+restart";);
    en!(SELinux; Shared "z", Private "Z";);
    ctx.case(
        || "SELinux as char".into(),
        || {
            for s in [SELinux::Shared, SELinux::Private] {
                same("as_char", &s.as_char().to_string(), &s.as_str().to_owned())?;
                same("char", &char::from(s), &s.as_char())?;
            }
            Ok(())
        },
    );
    ctx.case(
        || "defaults".into(),
        || {
            same("Condition", &Condition::default(), &Condition::ServiceStarted)?;
            same("Uts", &Uts::default(), &Uts::Host)?;
            same("PullPolicy", &PullPolicy::default(), &PullPolicy::Missing)?;
            same("Restart", &Restart::default(), &Restart::No)?;
            same("ports::Mode", &ports::Mode::default(), &ports::Mode::Ingress)?;
            same("deploy::Mode", &deploy::Mode::default(), &deploy::Mode::Replicated)?;
            same("RestartCondition", &deploy::RestartCondition::default(), &deploy::RestartCondition::Any)?;
            same("FailureAction", &deploy::FailureAction::default(), &deploy::FailureAction::Pause)?;
            same("Order", &deploy::Order::default(), &deploy::Order::StopFirst)?;
            same("BindPropagation", &BindPropagation::default(), &BindPropagation::RPrivate)?;
            same("SshAuth", &SshAuth::default(), &SshAuth::Default)?;
            same("Context", &Context::default(), &Context::Path(".".into()))
        },
    );
}

pub fn run(ctx: &Ctx) {
    ports(ctx);
    devices(ctx);
    volumes(ctx);
    cpus_and_users(ctx);
    modes(ctx);
    macs(ctx);
    extra_hosts(ctx);
    enums(ctx);
    ctx.outcome("must be accepted", ACCEPTED.load(Relaxed));
    ctx.outcome("must be rejected", REJECTED.load(Relaxed));
    ctx.outcome("not judged, but must read back as printed if accepted", UNJUDGED.load(Relaxed));
}
