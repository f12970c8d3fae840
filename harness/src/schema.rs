//! The Compose schema as a table: for each type, each attribute, each way of writing a value of
//! it, the typed value it means, and how that value is written back.
use std::{net::IpAddr, path::PathBuf, sync::Arc, time::Duration};

use compose_spec::{
    config, network, secret,
    service::{
        self,
        blkio_config::{BlkioConfig, BpsLimit, IopsLimit, Weight, WeightDevice},
        build::{self, Build, Context, Dockerfile},
        deploy::{self, resources, Deploy},
        develop::{self, Develop, WatchRule},
        device, env_file, healthcheck,
        network_config::{self, MacAddress, NetworkConfig, NetworkMode},
        ports::{self, Port},
        volumes::{self, mount, AbsolutePath, HostPath, Mount, SELinux},
        ByteValue, ConfigOrSecret, CpuSet, Cpus, CredentialSpec, CredentialSpecKind, Device, EnvFile, Expose,
        Healthcheck, Hostname, IdOrName, Image, Limit, Ulimit, User,
    },
    Compose, Config, ExtensionKey, Extensions, Identifier, Include, ItemOrList, ListOrMap, MapKey, Name, Network,
    Number, Resource, Secret, Service, ShortOrLong, StringOrNumber, Value, Volume, YamlValue,
};
use indexmap::{IndexMap, IndexSet};

use crate::y::{i, l, ls, m, o, raw, s, Y};

pub type Setter<T> = Arc<dyn Fn(&mut T) + Send + Sync>;

pub struct Item<T> {
    pub name: String,
    /// Two items are in conflict when they choose different variants of one group.
    pub groups: Vec<(String, String)>,
    /// Documents which mean the same.
    pub forms: Vec<Y>,
    /// What is written for it.
    pub out: Y,
    pub set: Setter<T>,
    /// Is anything set?
    pub nonempty: bool,
}

impl<T> Clone for Item<T> {
    fn clone(&self) -> Self {
        Self {
            name: self.name.clone(),
            groups: self.groups.clone(),
            forms: self.forms.clone(),
            out: self.out.clone(),
            set: self.set.clone(),
            nonempty: self.nonempty,
        }
    }
}

impl<T> Item<T> {
    pub fn conflicts<U>(&self, other: &Item<U>) -> bool {
        groups_conflict(&self.groups, &other.groups)
    }
}

pub fn groups_conflict(a: &[(String, String)], b: &[(String, String)]) -> bool {
    a.iter().any(|(g, v)| b.iter().any(|(h, w)| g == h && v != w))
}

/// A document fragment which must be rejected wherever it stands.
#[derive(Clone)]
pub struct Reject {
    pub name: String,
    pub groups: Vec<(String, String)>,
    pub doc: Y,
}

pub struct Schema<T> {
    pub name: &'static str,
    pub base: Arc<dyn Fn() -> T + Send + Sync>,
    pub base_doc: Y,
    pub base_out: Y,
    pub items: Vec<Item<T>>,
    pub rejects: Vec<Reject>,
    pub is_empty: Option<fn(&T) -> bool>,
    /// Keys without which the document must be rejected.
    pub required: Vec<&'static str>,
    /// Mappings of this type take `x-` keys.
    pub extensible: bool,
}

fn put<T>(
    v: &mut Vec<Item<T>>,
    key: &str,
    label: &str,
    forms: Vec<Y>,
    out: Option<Y>,
    nonempty: bool,
    set: impl Fn(&mut T) + Send + Sync + 'static,
) {
    v.push(Item {
        name: format!("{key}={label}"),
        groups: vec![(key.to_owned(), label.to_owned())],
        forms: forms.into_iter().map(|y| m([(key, y)])).collect(),
        out: m(out.map(|y| (key, y))),
        set: Arc::new(set),
        nonempty,
    });
}

/// An attribute written in some forms, the first being canonical.
macro_rules! it {
    ($v:ident, $t:ident, $key:expr, $lab:expr, [$($f:expr),+ $(,)?], $set:expr) => {{
        let forms = vec![$($f),+];
        let out = forms[0].clone();
        put(&mut $v, $key, $lab, forms, Some(out), true, move |$t| { $set; });
    }};
    ($v:ident, $t:ident, $key:expr, $lab:expr, [$($f:expr),+ $(,)?] => $out:expr, $set:expr) => {
        put(&mut $v, $key, $lab, vec![$($f),+], Some($out), true, move |$t| { $set; })
    };
}
/// Forms which say nothing.
macro_rules! nothing {
    ($v:ident, $key:expr, $lab:expr, [$($f:expr),+ $(,)?]) => {
        put(&mut $v, $key, $lab, vec![$($f),+], None, false, |_| {})
    };
}

fn rej(v: &mut Vec<Reject>, key: &str, bad: impl IntoIterator<Item = Y>) {
    for (n, y) in bad.into_iter().enumerate() {
        v.push(Reject {
            name: format!("{key}!{n}:{}", y.flow()),
            groups: vec![(key.to_owned(), format!("!{n}"))],
            doc: m([(key, y)]),
        });
    }
}

pub fn id(t: &str) -> Identifier {
    Identifier::new(t).expect("identifier")
}
pub fn mk(t: &str) -> MapKey {
    MapKey::new(t).expect("map key")
}
pub fn ek(t: &str) -> ExtensionKey {
    ExtensionKey::new(t).expect("extension key")
}
pub fn hn(t: &str) -> Hostname {
    Hostname::new(t).expect("hostname")
}
pub fn ap(t: &str) -> AbsolutePath {
    AbsolutePath::new(t).expect("absolute path")
}
pub fn hp(t: &str) -> HostPath {
    HostPath::new(t).expect("host path")
}
pub fn ip(t: &str) -> IpAddr {
    t.parse().expect("ip")
}
pub fn us(n: u64) -> Option<Duration> {
    Some(Duration::from_micros(n))
}
pub fn pb(t: &str) -> PathBuf {
    PathBuf::from(t)
}
fn im(t: &str) -> Image {
    Image::parse(t).expect("image")
}
fn strs(v: &[&str]) -> IndexSet<String> {
    v.iter().map(|t| (*t).to_owned()).collect()
}

fn bad_bool() -> Vec<Y> {
    vec![s("maybe"), i(1), i(0), l([]), l([Y::B(true)]), m([("a", i(1))])]
}
fn bad_str() -> Vec<Y> {
    vec![l([]), l([s("a")]), m([("a", s("b"))]), m::<&str>([])]
}
fn bad_u64() -> Vec<Y> {
    vec![
        i(-1),
        Y::F(1.5),
        s("a"),
        s(""),
        l([]),
        l([i(1)]),
        m::<&str>([]),
        Y::B(true),
        raw("18446744073709551616"),
        raw("1e3"),
    ]
}
fn bad_u32() -> Vec<Y> {
    let mut v = bad_u64();
    v.push(i(4_294_967_296u64));
    v
}
fn bad_dur() -> Vec<Y> {
    vec![
        i(-1),
        Y::F(1.5),
        s(""),
        s("1"),
        s("1x"),
        s("s"),
        s("1 s"),
        l([]),
        l([s("1s")]),
        m::<&str>([]),
        Y::B(false),
    ]
}
fn bad_bytes() -> Vec<Y> {
    vec![
        i(-1),
        Y::F(1.5),
        s(""),
        s("b"),
        s("1tb"),
        s("1 b"),
        s("-1b"),
        s("1.5gb"),
        l([]),
        l([i(1)]),
        m::<&str>([]),
        Y::B(false),
    ]
}
fn bad_id() -> Vec<Y> {
    let mut v = bad_str();
    v.extend([s(""), s("-a"), s("a b"), s("a/b"), s("é")]);
    v
}
fn bad_host() -> Vec<Y> {
    let mut v = bad_str();
    v.extend([s(""), s("-a"), s("a b"), s("a_b"), s("a-")]);
    v
}
fn bad_abs() -> Vec<Y> {
    let mut v = bad_str();
    v.extend([s(""), s("a/b"), s("./a"), s("../a")]);
    v
}
fn bad_scalar_for_list() -> Vec<Y> {
    vec![s("a"), i(1), Y::B(true), m([("a", s("b"))])]
}
fn bad_image() -> Vec<Y> {
    let mut v = bad_str();
    v.extend([s(""), s(":tag"), s("A"), s("a:"), s("a b")]);
    v
}
fn bad_lom() -> Vec<Y> {
    vec![
        s("a"),
        i(1),
        Y::B(true),
        l([l([])]),
        l([m([("a", s("b"))])]),
        o([("", s("b"))]),
        o([("a\nb", s("b"))]),
        o([("a", l([]))]),
        o([("a", m::<&str>([]))]),
    ]
}

fn exts<T: 'static>(v: &mut Vec<Item<T>>, get: fn(&mut T) -> &mut Extensions) {
    let nested = || o([("z", l([i(1), Y::Null, s("t")])), ("a", o([("x-b", Y::B(false))]))]);
    for (key, val) in [
        ("x-a", s("v")),
        ("x-", Y::Null),
        ("x-map", nested()),
        ("x-list", l([Y::F(0.5), s(""), o([("k", i(-3))])])),
        ("x-b.c d", Y::B(true)),
        ("x-é", i(18_446_744_073_709_551_615u64)),
    ] {
        let (k, w) = (ek(key), val.value());
        put(v, key, "ext", vec![val.clone()], Some(val), true, move |t| {
            get(t).insert(k.clone(), w.clone());
        });
    }
}

fn opts_map<T: 'static>(v: &mut Vec<Item<T>>, key: &str, get: fn(&mut T) -> &mut IndexMap<MapKey, StringOrNumber>) {
    let y = o([("z", s("v")), ("a.b", i(1)), ("n", i(-2)), ("f", Y::F(1.5)), ("y", s("1"))]);
    put(v, key, "map", vec![y.clone()], Some(y), true, move |t| {
        *get(t) = [
            (mk("z"), StringOrNumber::String("v".into())),
            (mk("a.b"), StringOrNumber::Number(Number::UnsignedInt(1))),
            (mk("n"), StringOrNumber::Number(Number::SignedInt(-2))),
            (mk("f"), StringOrNumber::Number(Number::Float(1.5))),
            (mk("y"), StringOrNumber::String("1".into())),
        ]
        .into_iter()
        .collect();
    });
    put(v, key, "empty", vec![m::<&str>([])], None, false, |_| {});
}
fn rej_opts(v: &mut Vec<Reject>, key: &str) {
    rej(
        v,
        key,
        [
            s("a"),
            i(1),
            l([s("a=b")]),
            o([("a", Y::B(true))]),
            o([("a", l([]))]),
            o([("a", m::<&str>([]))]),
            o([("", s("b"))]),
        ],
    );
}

fn lom<T: 'static>(v: &mut Vec<Item<T>>, key: &str, get: fn(&mut T) -> &mut ListOrMap) {
    let list = ls(["Z=1", "A", "B=", "C=x=y", "B=2"]);
    put(
        v,
        key,
        "list",
        vec![list.clone(), ls(["Z=1", "A", "B=", "Z=1", "C=x=y", "A", "B=2"])],
        Some(list),
        true,
        move |t| *get(t) = ListOrMap::List(strs(&["Z=1", "A", "B=", "C=x=y", "B=2"])),
    );
    let map = o([
        ("Z", s("1")),
        ("A", Y::Null),
        ("b.c", i(1)),
        ("N", i(-5)),
        ("F", Y::F(2.5)),
        ("T", Y::B(true)),
        ("E", s("")),
        ("Q", s("true")),
    ]);
    put(v, key, "map", vec![map.clone()], Some(map), true, move |t| {
        *get(t) = ListOrMap::Map(
            [
                ("Z", Some(Value::String("1".into()))),
                ("A", None),
                ("b.c", Some(Value::Number(Number::UnsignedInt(1)))),
                ("N", Some(Value::Number(Number::SignedInt(-5)))),
                ("F", Some(Value::Number(Number::Float(2.5)))),
                ("T", Some(Value::Bool(true))),
                ("E", Some(Value::String(String::new()))),
                ("Q", Some(Value::String("true".into()))),
            ]
            .into_iter()
            .map(|(k, w)| (mk(k), w))
            .collect(),
        );
    });
    put(v, key, "no list", vec![l([])], None, false, |_| {});
    put(v, key, "no map", vec![m::<&str>([])], None, false, move |t| {
        *get(t) = ListOrMap::Map(IndexMap::new());
    });
}

fn boolean<T: 'static>(v: &mut Vec<Item<T>>, key: &str, default: bool, get: fn(&mut T) -> &mut bool) {
    put(
        v,
        key,
        "set",
        vec![Y::B(!default)],
        Some(Y::B(!default)),
        true,
        move |t| *get(t) = !default,
    );
    put(v, key, "unset", vec![Y::B(default)], None, false, |_| {});
}

fn string<T: 'static>(v: &mut Vec<Item<T>>, key: &str, get: fn(&mut T) -> &mut Option<String>) {
    for (label, t) in [("plain", "some-text"), ("odd", " é: #\n\t'\"x\" "), ("empty", ""), ("num", "12"), ("null", "null")] {
        let t = t.to_owned();
        put(v, key, label, vec![s(&t)], Some(s(&t)), true, move |x| *get(x) = Some(t.clone()));
    }
}

fn number<T: 'static>(v: &mut Vec<Item<T>>, key: &str, get: fn(&mut T) -> &mut Option<u64>) {
    for n in [0, 1, 255, 65_536, u64::MAX] {
        put(v, key, &n.to_string(), vec![i(n)], Some(i(n)), true, move |x| *get(x) = Some(n));
    }
}

fn bytes<T: 'static>(v: &mut Vec<Item<T>>, key: &str, get: fn(&mut T) -> &mut Option<ByteValue>) {
    let cases: [(&str, Vec<Y>, ByteValue); 5] = [
        ("0", vec![s("0b"), i(0), s("0"), s("0B")], ByteValue::Bytes(0)),
        ("1b", vec![s("1b"), i(1), s("1"), s("1B")], ByteValue::Bytes(1)),
        ("2kb", vec![s("2kb"), s("2k"), s("2K")], ByteValue::Kilobytes(2)),
        ("3mb", vec![s("3mb"), s("3m"), s("3M")], ByteValue::Megabytes(3)),
        ("4gb", vec![s("4gb"), s("4g"), s("4G")], ByteValue::Gigabytes(4)),
    ];
    for (label, forms, b) in cases {
        let out = forms[0].clone();
        put(v, key, label, forms, Some(out), true, move |x| *get(x) = Some(b));
    }
}

fn dur<T: 'static>(v: &mut Vec<Item<T>>, key: &str, get: fn(&mut T) -> &mut Option<Duration>) {
    for (label, forms, n) in [
        (
            "1m30s",
            vec![s("1m30s"), s("90s"), i(90_000_000), s("90000ms"), s("1m30000000us")],
            90_000_000,
        ),
        ("2h3ms", vec![s("2h3ms"), s("120m3ms"), i(7_200_003_000u64)], 7_200_003_000),
        ("5us", vec![s("5us"), i(5)], 5),
        ("1s", vec![s("1s"), s("1000ms"), i(1_000_000)], 1_000_000),
        ("0s", vec![s("0s"), i(0), s("0ms"), s("0h"), s("0m0s")], 0),
    ] {
        let out = forms[0].clone();
        put(v, key, label, forms, Some(out), true, move |x| *get(x) = us(n));
    }
}

fn micros<T: 'static>(v: &mut Vec<Item<T>>, key: &str, get: fn(&mut T) -> &mut Option<Duration>) {
    for n in [0, 1, 50_000, 1_000_001, u64::MAX] {
        put(v, key, &n.to_string(), vec![i(n)], Some(i(n)), true, move |x| *get(x) = us(n));
    }
}

fn str_set<T: 'static>(v: &mut Vec<Item<T>>, key: &str, get: fn(&mut T) -> &mut IndexSet<String>) {
    put(
        v,
        key,
        "two",
        vec![ls(["z", "a b"]), ls(["z", "a b", "z"])],
        Some(ls(["z", "a b"])),
        true,
        move |t| *get(t) = strs(&["z", "a b"]),
    );
    put(v, key, "none", vec![l([])], None, false, |_| {});
}
fn str_vec<T: 'static>(v: &mut Vec<Item<T>>, key: &str, get: fn(&mut T) -> &mut Vec<String>) {
    let y = ls(["z", "a", "z"]);
    put(v, key, "three", vec![y.clone()], Some(y), true, move |t| {
        *get(t) = vec!["z".into(), "a".into(), "z".into()];
    });
    put(v, key, "none", vec![l([])], None, false, |_| {});
}

fn extra_hosts<T: 'static>(v: &mut Vec<Item<T>>, key: &str, get: fn(&mut T) -> &mut IndexMap<Hostname, IpAddr>) {
    put(
        v,
        key,
        "two",
        vec![
            o([("zhost", s("10.0.0.1")), ("ahost.local", s("::1"))]),
            ls(["zhost=10.0.0.1", "ahost.local=::1"]),
            ls(["zhost:10.0.0.1", "ahost.local:::1"]),
            ls(["zhost=10.0.0.1", "ahost.local=[::1]"]),
            ls(["zhost:10.0.0.1", "ahost.local:[::1]"]),
            o([("zhost", s("10.0.0.1")), ("ahost.local", s("[::1]"))]),
        ],
        Some(o([("zhost", s("10.0.0.1")), ("ahost.local", s("::1"))])),
        true,
        move |t| *get(t) = [(hn("zhost"), ip("10.0.0.1")), (hn("ahost.local"), ip("::1"))].into_iter().collect(),
    );
    put(v, key, "none", vec![l([]), m::<&str>([])], None, false, |_| {});
}
fn rej_extra_hosts(v: &mut Vec<Reject>, key: &str) {
    rej(
        v,
        key,
        [
            s("a=1.1.1.1"),
            ls(["a"]),
            ls(["a="]),
            ls(["a=1.1.1"]),
            ls(["=1.1.1.1"]),
            ls(["-a=1.1.1.1"]),
            ls(["a=[1.1.1.1"]),
            o([("a", Y::Null)]),
            o([("a", i(1))]),
            o([("a", s("b"))]),
            o([("a b", s("1.1.1.1"))]),
        ],
    );
}

/// Lift the items of a nested type. `docs` makes the outer document of an inner one, `lens`
/// reaches (and makes when missing) the inner value.
fn lift<T: 'static, U: 'static>(
    v: &mut Vec<Item<T>>,
    rejects: &mut Vec<Reject>,
    inner: &Schema<U>,
    group: &str,
    variant: &str,
    base_nonempty: bool,
    doc: impl Fn(Y) -> Y,
    lens: impl Fn(&mut T, &dyn Fn(&mut U)) + Send + Sync + 'static,
) {
    let lens = Arc::new(lens);
    let prefix = |g: &[(String, String)]| {
        let mut out = vec![(group.to_owned(), variant.to_owned())];
        out.extend(g.iter().map(|(k, w)| (format!("{group}<{variant}>.{k}"), w.clone())));
        out
    };
    {
        let lens = lens.clone();
        v.push(Item {
            name: format!("{group}<{variant}>"),
            groups: prefix(&[]),
            forms: vec![doc(inner.base_doc.clone())],
            out: doc(inner.base_out.clone()),
            set: Arc::new(move |t| lens(t, &|_| {})),
            nonempty: base_nonempty,
        });
    }
    for item in &inner.items {
        let (lens, set) = (lens.clone(), item.set.clone());
        let wrap = |base: &Y, y: &Y| {
            let mut b = base.clone();
            b.merge(y);
            doc(b)
        };
        v.push(Item {
            name: format!("{group}<{variant}>.{}", item.name),
            groups: prefix(&item.groups),
            forms: item.forms.iter().map(|y| wrap(&inner.base_doc, y)).collect(),
            out: wrap(&inner.base_out, &item.out),
            set: Arc::new(move |t| lens(t, &*set)),
            nonempty: base_nonempty || item.nonempty,
        });
    }
    for r in &inner.rejects {
        let mut b = inner.base_doc.clone();
        // A bad value of a required key replaces the good one.
        for (k, y) in r.doc.entries() {
            if let Y::M(v) = &mut b {
                v.retain(|(j, _)| j != k);
                v.push((k.clone(), y.clone()));
            }
        }
        rejects.push(Reject {
            name: format!("{group}<{variant}>.{}", r.name),
            groups: vec![(group.to_owned(), format!("!{}", r.name))],
            doc: doc(b),
        });
    }
    for key in &inner.required {
        let mut b = inner.base_doc.clone();
        if let Y::M(v) = &mut b {
            v.retain(|(j, _)| j != key);
        }
        rejects.push(Reject {
            name: format!("{group}<{variant}> without {key}"),
            groups: vec![(group.to_owned(), format!("!no {key}"))],
            doc: doc(b),
        });
    }
}

fn under(key: &'static str) -> impl Fn(Y) -> Y {
    move |y| m([(key, y)])
}
fn under_list(key: &'static str) -> impl Fn(Y) -> Y {
    move |y| m([(key, l([y]))])
}
fn under_map(key: &'static str, name: &'static str) -> impl Fn(Y) -> Y {
    move |y| m([(key, o([(name, y)]))])
}

fn schema<T: Default + 'static>(
    name: &'static str,
    items: Vec<Item<T>>,
    rejects: Vec<Reject>,
    is_empty: Option<fn(&T) -> bool>,
    extensible: bool,
) -> Schema<T> {
    Schema {
        name,
        base: Arc::new(T::default),
        base_doc: m::<&str>([]),
        base_out: m::<&str>([]),
        items,
        rejects,
        is_empty,
        required: vec![],
        extensible,
    }
}
fn based<T: 'static>(
    name: &'static str,
    base: impl Fn() -> T + Send + Sync + 'static,
    base_doc: Y,
    required: &[&'static str],
    items: Vec<Item<T>>,
    rejects: Vec<Reject>,
    extensible: bool,
) -> Schema<T> {
    Schema {
        name,
        base: Arc::new(base),
        base_out: base_doc.clone(),
        base_doc,
        items,
        rejects,
        is_empty: None,
        required: required.to_vec(),
        extensible,
    }
}

// ---------------------------------------------------------------------------------------------

pub fn blkio() -> Schema<BlkioConfig> {
    let mut v = Vec::new();
    let mut r = Vec::new();
    fn bps(v: &mut Vec<Item<BlkioConfig>>, r: &mut Vec<Reject>, key: &'static str, get: fn(&mut BlkioConfig) -> &mut Vec<BpsLimit>) {
        let e = |p: &str, y: Y| m([("path", s(p)), ("rate", y)]);
        put(
            v,
            key,
            "two",
            vec![
                l([e("/dev/z", s("5mb")), e("/dev/a", s("7b"))]),
                l([e("/dev/z", s("5M")), e("/dev/a", i(7))]),
            ],
            Some(l([e("/dev/z", s("5mb")), e("/dev/a", s("7b"))])),
            true,
            move |t| {
                *get(t) = vec![
                    BpsLimit { path: ap("/dev/z"), rate: ByteValue::Megabytes(5) },
                    BpsLimit { path: ap("/dev/a"), rate: ByteValue::Bytes(7) },
                ];
            },
        );
        put(v, key, "none", vec![l([])], None, false, |_| {});
        let mut bad = vec![
            s("a"),
            m::<&str>([]),
            l([s("/a")]),
            l([m([("path", s("/a"))])]),
            l([m([("rate", i(1))])]),
            l([e("a", i(1))]),
        ];
        bad.extend(bad_bytes().into_iter().map(|y| l([e("/a", y)])));
        rej(r, key, bad);
    }
    fn iops(v: &mut Vec<Item<BlkioConfig>>, r: &mut Vec<Reject>, key: &'static str, get: fn(&mut BlkioConfig) -> &mut Vec<IopsLimit>) {
        let e = |p: &str, y: Y| m([("path", s(p)), ("rate", y)]);
        let y = l([e("/dev/z", i(u64::MAX)), e("/dev/a", i(0))]);
        put(v, key, "two", vec![y.clone()], Some(y), true, move |t| {
            *get(t) = vec![
                IopsLimit { path: ap("/dev/z"), rate: u64::MAX },
                IopsLimit { path: ap("/dev/a"), rate: 0 },
            ];
        });
        put(v, key, "none", vec![l([])], None, false, |_| {});
        let mut bad = vec![
            s("a"),
            m::<&str>([]),
            l([s("/a")]),
            l([m([("path", s("/a"))])]),
            l([m([("rate", i(1))])]),
            l([e("a", i(1))]),
        ];
        bad.extend(bad_u64().into_iter().map(|y| l([e("/a", y)])));
        rej(r, key, bad);
    }
    bps(&mut v, &mut r, "device_read_bps", |t| &mut t.device_read_bps);
    bps(&mut v, &mut r, "device_write_bps", |t| &mut t.device_write_bps);
    iops(&mut v, &mut r, "device_read_iops", |t| &mut t.device_read_iops);
    iops(&mut v, &mut r, "device_write_iops", |t| &mut t.device_write_iops);
    for n in [10u16, 500, 1000] {
        put(&mut v, "weight", &n.to_string(), vec![i(n)], Some(i(n)), true, move |t: &mut BlkioConfig| {
            t.weight = Some(Weight::new(n).expect("weight"));
        });
    }
    let e = |p: &str, y: Y| m([("path", s(p)), ("weight", y)]);
    it!(v, t, "weight_device", "two", [l([e("/z", i(11)), e("/a", i(999))])], {
        t.weight_device = vec![
            WeightDevice { path: ap("/z"), weight: Weight::new(11u16).expect("weight") },
            WeightDevice { path: ap("/a"), weight: Weight::new(999u16).expect("weight") },
        ];
    });
    nothing!(v, "weight_device", "none", [l([])]);
    let bad = [i(0), i(9), i(1001), i(-10), i(65_546), i(66_036), Y::F(50.0), s("a"), l([]), m::<&str>([]), Y::B(true)];
    rej(&mut r, "weight", bad.clone());
    rej(
        &mut r,
        "weight_device",
        bad.into_iter()
            .map(|y| l([e("/a", y)]))
            .chain([l([m([("path", s("/a"))])]), l([m([("weight", i(10))])]), s("a")]),
    );
    schema("BlkioConfig", v, r, Some(BlkioConfig::is_empty), false)
}

pub fn config_or_secret() -> Schema<ConfigOrSecret> {
    type T = ConfigOrSecret;
    let mut v: Vec<Item<T>> = Vec::new();
    let mut r = Vec::new();
    it!(v, t, "target", "abs", [s("/run/x")], t.target = Some(pb("/run/x")));
    it!(v, t, "target", "rel", [s("x y")], t.target = Some(pb("x y")));
    fn uid(v: &mut Vec<Item<T>>, r: &mut Vec<Reject>, key: &'static str, get: fn(&mut T) -> &mut Option<u32>) {
        for n in [0, 103, u32::MAX] {
            put(v, key, &n.to_string(), vec![s(n.to_string())], Some(s(n.to_string())), true, move |t| *get(t) = Some(n));
        }
        rej(r, key, [s("a"), s(""), s("-1"), s("1.5"), s("4294967296"), l([]), m::<&str>([])]);
    }
    uid(&mut v, &mut r, "uid", |t| &mut t.uid);
    uid(&mut v, &mut r, "gid", |t| &mut t.gid);
    it!(v, t, "mode", "0440", [i(0o440), raw("0o440"), raw("0x120")], t.mode = Some(0o440));
    it!(v, t, "mode", "0", [i(0)], t.mode = Some(0));
    it!(v, t, "mode", "max", [i(u32::MAX)], t.mode = Some(u32::MAX));
    rej(&mut r, "mode", bad_u32());
    rej(&mut r, "target", bad_str());
    rej(&mut r, "source", bad_id());
    exts(&mut v, |t| &mut t.extensions);
    based(
        "ConfigOrSecret",
        || ConfigOrSecret {
            source: id("src.1"),
            target: None,
            uid: None,
            gid: None,
            mode: None,
            extensions: Extensions::new(),
        },
        m([("source", s("src.1"))]),
        &["source"],
        v,
        r,
        true,
    )
}

fn configs_or_secrets<T: 'static>(
    v: &mut Vec<Item<T>>,
    r: &mut Vec<Reject>,
    key: &'static str,
    get: fn(&mut T) -> &mut Vec<ShortOrLong<Identifier, ConfigOrSecret>>,
) {
    let y = ls(["z", "a_b", "z"]);
    put(v, key, "short", vec![y.clone()], Some(y), true, move |t| {
        *get(t) = ["z", "a_b", "z"].into_iter().map(|t| ShortOrLong::Short(id(t))).collect();
    });
    put(v, key, "none", vec![l([])], None, false, |_| {});
    let y = l([s("z"), m([("source", s("a")), ("uid", s("1"))]), s("b")]);
    put(v, key, "mixed", vec![y.clone()], Some(y), true, move |t| {
        *get(t) = vec![
            ShortOrLong::Short(id("z")),
            ShortOrLong::Long(ConfigOrSecret {
                source: id("a"),
                target: None,
                uid: Some(1),
                gid: None,
                mode: None,
                extensions: Extensions::new(),
            }),
            ShortOrLong::Short(id("b")),
        ];
    });
    let inner = config_or_secret();
    let base = inner.base.clone();
    lift(v, r, &inner, key, "long", true, under_list(key), move |t, f| {
        let v = get(t);
        if v.is_empty() {
            v.push(ShortOrLong::Long(base()));
        }
        if let ShortOrLong::Long(x) = &mut v[0] {
            f(x);
        }
    });
    let mut bad = bad_scalar_for_list();
    bad.extend([l([s("")]), l([s("a b")]), l([i(1)]), l([l([])]), l([m::<&str>([])])]);
    rej(r, key, bad);
}

pub fn ulimit() -> Schema<Ulimit> {
    ulimit_of("Ulimit", 20_000, 40_000)
}
pub fn ulimit_all() -> Vec<Schema<Ulimit>> {
    let n = [0i128, 3, u64::MAX.into(), -1];
    let mut v = vec![ulimit()];
    for soft in n {
        for hard in n {
            v.push(ulimit_of("Ulimit", soft, hard));
        }
    }
    v
}
fn ulimit_of(name: &'static str, soft: i128, hard: i128) -> Schema<Ulimit> {
    let mut v: Vec<Item<Ulimit>> = Vec::new();
    let mut r = Vec::new();
    exts(&mut v, |t| &mut t.extensions);
    for key in ["soft", "hard"] {
        rej(
            &mut r,
            key,
            [i(-2), i(-9), s("a"), s(""), Y::F(1.5), l([]), m::<&str>([]), Y::B(true), raw("18446744073709551616")],
        );
    }
    let lim = |n: i128| u64::try_from(n).map_or(Limit::Unlimited, Limit::Value);
    based(
        name,
        move || Ulimit { soft: lim(soft), hard: lim(hard), extensions: Extensions::new() },
        m([("soft", i(soft)), ("hard", i(hard))]),
        &["soft", "hard"],
        v,
        r,
        true,
    )
}

fn ulimits<T: 'static>(v: &mut Vec<Item<T>>, r: &mut Vec<Reject>, key: &'static str, get: fn(&mut T) -> &mut service::Ulimits) {
    fn res(t: &str) -> service::Resource {
        service::Resource::new(t).expect("ulimit")
    }
    let y = o([("nproc", i(65_535)), ("as", i(-1)), ("core", i(0))]);
    put(v, key, "short", vec![y.clone()], Some(y), true, move |t| {
        *get(t) = [
            (res("nproc"), ShortOrLong::Short(Limit::Value(65_535))),
            (res("as"), ShortOrLong::Short(Limit::Unlimited)),
            (res("core"), ShortOrLong::Short(Limit::Value(0))),
        ]
        .into_iter()
        .collect();
    });
    let long = |a: Y, b: Y| m([("soft", a), ("hard", b)]);
    let y = o([
        ("nofile", long(i(20_000), i(40_000))),
        ("cpu", long(i(3), i(3))),
        ("as", long(i(7), i(-1))),
        ("memlock", m([("soft", i(-1)), ("hard", i(1)), ("x-u", s("e"))])),
    ]);
    put(v, key, "long", vec![y.clone()], Some(y), true, move |t| {
        let l = |soft, hard| {
            ShortOrLong::Long(Ulimit { soft, hard, extensions: Extensions::new() })
        };
        *get(t) = [
            (res("nofile"), l(Limit::Value(20_000), Limit::Value(40_000))),
            (res("cpu"), l(Limit::Value(3), Limit::Value(3))),
            (res("as"), l(Limit::Value(7), Limit::Unlimited)),
            (
                res("memlock"),
                ShortOrLong::Long(Ulimit {
                    soft: Limit::Unlimited,
                    hard: Limit::Value(1),
                    extensions: [(ek("x-u"), YamlValue::from("e"))].into_iter().collect(),
                }),
            ),
        ]
        .into_iter()
        .collect();
    });
    put(v, key, "none", vec![m::<&str>([])], None, false, |_| {});
    rej(
        r,
        key,
        [
            s("a"),
            l([]),
            o([("A", i(1))]),
            o([("a_b", i(1))]),
            o([("", i(1))]),
            o([("as", i(-2))]),
            o([("as", s("a"))]),
            o([("as", l([]))]),
            o([("as", m::<&str>([]))]),
            o([("as", m([("soft", i(1))]))]),
            o([("as", m([("hard", i(1))]))]),
            o([("as", m([("soft", i(1)), ("hard", i(-2))]))]),
            o([("as", m([("soft", i(1)), ("hard", i(2)), ("other", i(2))]))]),
        ],
    );
}

pub fn build() -> Schema<Build> {
    type T = Build;
    let mut v: Vec<Item<T>> = Vec::new();
    let mut r = Vec::new();
    it!(v, t, "context", "path", [s("./dir")], t.context = Some(Context::Path(pb("./dir"))));
    it!(v, t, "context", "url", [s("https://github.com/a/b.git#c:d")], {
        t.context = Some(Context::Url("https://github.com/a/b.git#c:d".parse().expect("url")));
    });
    put(&mut v, "dockerfile", "file", vec![s("my.Dockerfile")], Some(s("my.Dockerfile")), true, |t: &mut T| {
        t.dockerfile = Some(Dockerfile::File(pb("my.Dockerfile")));
    });
    put(&mut v, "dockerfile_inline", "inline", vec![s("FROM a\nRUN b\n")], Some(s("FROM a\nRUN b\n")), true, |t: &mut T| {
        t.dockerfile = Some(Dockerfile::Inline("FROM a\nRUN b\n".into()));
    });
    for x in &mut v[2..4] {
        let label = x.name.clone();
        x.groups.push(("dockerfile*".into(), label));
    }
    lom(&mut v, "args", |t| &mut t.args);
    it!(v, t, "ssh", "two", [ls(["z=/p/q", "default"]), ls(["z=/p/q", "default", "z=/p/q"])] => ls(["z=/p/q", "default"]), {
        t.ssh = [
            build::SshAuth::Id(build::SshAuthId::new("z", "/p/q").expect("ssh")),
            build::SshAuth::Default,
        ].into_iter().collect();
    });
    nothing!(v, "ssh", "none", [l([])]);
    fn cache(v: &mut Vec<Item<T>>, r: &mut Vec<Reject>, key: &'static str, get: fn(&mut T) -> &mut Vec<build::Cache>) {
        let co = |t: &str| build::CacheOption::new(t).expect("cache option");
        put(
            v,
            key,
            "three",
            vec![
                ls(["repo/app:v1", "type=local,src=/p,dest=/q", "type=registry,ref=a/b,mode=max"]),
                ls(["type=registry,ref=repo/app:v1", "type=local,src=/p,dest=/q", "type=registry,mode=max,ref=a/b"]),
            ],
            Some(ls(["repo/app:v1", "type=local,src=/p,dest=/q", "type=registry,ref=a/b,mode=max"])),
            true,
            move |t| {
                *get(t) = vec![
                    build::Cache::from(build::CacheType::Registry(im("repo/app:v1"))),
                    build::Cache {
                        cache_type: build::CacheType::Other(co("local")),
                        options: [(co("src"), co("/p")), (co("dest"), co("/q"))].into_iter().collect(),
                    },
                    build::Cache {
                        cache_type: build::CacheType::Registry(im("a/b")),
                        options: [(co("mode"), co("max"))].into_iter().collect(),
                    },
                ];
            },
        );
        put(v, key, "none", vec![l([])], None, false, |_| {});
        rej(
            r,
            key,
            [s("a"), m::<&str>([]), ls([""]), ls(["type="]), ls(["type=registry"]), ls(["src=a,type=local"])],
        );
    }
    cache(&mut v, &mut r, "cache_from", |t| &mut t.cache_from);
    cache(&mut v, &mut r, "cache_to", |t| &mut t.cache_to);
    it!(v, t, "additional_contexts", "three", [
        o([("z", s("/path")), ("a.b", s("https://example.com/x.git")), ("d", s("docker-image://c"))]),
        ls(["z=/path", "a.b=https://example.com/x.git", "d=docker-image://c"]),
    ], {
        t.additional_contexts = [
            (mk("z"), Context::Path(pb("/path"))),
            (mk("a.b"), Context::Url("https://example.com/x.git".parse().expect("url"))),
            (mk("d"), Context::Url("docker-image://c".parse().expect("url"))),
        ].into_iter().collect();
    });
    it!(v, t, "additional_contexts", "default", [
        o([("z", s("."))]),
        ls(["z"]),
        ls(["z="]),
        o([("z", Y::Null)]),
    ], t.additional_contexts = [(mk("z"), Context::Path(pb(".")))].into_iter().collect());
    nothing!(v, "additional_contexts", "none", [l([]), m::<&str>([])]);
    str_vec(&mut v, "entitlements", |t| &mut t.entitlements);
    extra_hosts(&mut v, "extra_hosts", |t| &mut t.extra_hosts);
    string(&mut v, "isolation", |t| &mut t.isolation);
    boolean(&mut v, "privileged", false, |t| &mut t.privileged);
    lom(&mut v, "labels", |t| &mut t.labels);
    boolean(&mut v, "no_cache", false, |t| &mut t.no_cache);
    boolean(&mut v, "pull", false, |t| &mut t.pull);
    it!(v, t, "network", "id", [s("host")], t.network = Some(build::Network::Identifier(id("host"))));
    it!(v, t, "network", "none", [s("none")], t.network = Some(build::Network::None));
    bytes(&mut v, "shm_size", |t| &mut t.shm_size);
    string(&mut v, "target", |t| &mut t.target);
    configs_or_secrets(&mut v, &mut r, "secrets", |t| &mut t.secrets);
    it!(v, t, "tags", "two", [ls(["z:1", "r.io/a/b"])], t.tags = vec![im("z:1"), im("r.io/a/b")]);
    nothing!(v, "tags", "none", [l([])]);
    ulimits(&mut v, &mut r, "ulimits", |t| &mut t.ulimits);
    it!(v, t, "platforms", "two", [ls(["windows/amd64", "linux/arm/v7"])], {
        t.platforms = vec![
            "windows/amd64".parse().expect("platform"),
            "linux/arm/v7".parse().expect("platform"),
        ];
    });
    nothing!(v, "platforms", "none", [l([])]);
    exts(&mut v, |t| &mut t.extensions);

    rej(&mut r, "context", bad_str());
    rej(&mut r, "dockerfile", bad_str());
    rej(&mut r, "dockerfile_inline", bad_str());
    rej(&mut r, "args", bad_lom());
    rej(&mut r, "ssh", [s("default"), ls(["a"]), ls(["=/p"]), ls(["a="]), m::<&str>([]), ls([""])]);
    rej(&mut r, "additional_contexts", bad_lom());
    rej(&mut r, "entitlements", bad_scalar_for_list());
    rej_extra_hosts(&mut r, "extra_hosts");
    rej(&mut r, "isolation", bad_str());
    for key in ["privileged", "no_cache", "pull"] {
        rej(&mut r, key, bad_bool());
    }
    rej(&mut r, "labels", bad_lom());
    rej(&mut r, "network", bad_id());
    rej(&mut r, "shm_size", bad_bytes());
    rej(&mut r, "target", bad_str());
    rej(&mut r, "tags", bad_image().into_iter().map(|y| l([y])).chain(bad_scalar_for_list()));
    rej(
        &mut r,
        "platforms",
        [s("linux"), ls(["linux/x"]), ls([""]), ls(["linux/amd64/v9"]), m::<&str>([])],
    );
    schema("Build", v, r, Some(Build::is_empty), true)
}

pub fn resources_limits() -> Schema<resources::Limits> {
    type T = resources::Limits;
    let mut v: Vec<Item<T>> = Vec::new();
    let mut r = Vec::new();
    cpus(&mut v, "cpus", |t| &mut t.cpus);
    bytes(&mut v, "memory", |t| &mut t.memory);
    pids(&mut v, "pids", |t| &mut t.pids);
    exts(&mut v, |t| &mut t.extensions);
    rej(&mut r, "cpus", bad_cpus());
    rej(&mut r, "memory", bad_bytes());
    rej(&mut r, "pids", bad_pids());
    schema("Limits", v, r, Some(T::is_empty), true)
}
fn cpus<T: 'static>(v: &mut Vec<Item<T>>, key: &str, get: fn(&mut T) -> &mut Option<Cpus>) {
    for (label, forms, c) in [
        ("0.5", vec![Y::F(0.5), s("0.5"), s("0.50"), raw("5e-1")], 0.5),
        ("2", vec![Y::F(2.0), i(2), s("2"), s("2.0"), raw("0x2")], 2.0),
        ("0", vec![Y::F(0.0), i(0), s("0")], 0.0),
    ] {
        let out = forms[0].clone();
        put(v, key, label, forms, Some(out), true, move |x| *get(x) = Some(Cpus::new(c).expect("cpus")));
    }
}
fn bad_cpus() -> Vec<Y> {
    vec![
        i(-1),
        Y::F(-0.5),
        s("-1"),
        s("a"),
        s(""),
        raw(".inf"),
        raw("-.inf"),
        raw(".nan"),
        s("inf"),
        s("nan"),
        l([]),
        l([i(1)]),
        m::<&str>([]),
        Y::B(true),
    ]
}
fn pids<T: 'static>(v: &mut Vec<Item<T>>, key: &str, get: fn(&mut T) -> &mut Option<Limit<u32>>) {
    for (label, forms, n) in [
        ("0", vec![i(0)], Limit::Value(0)),
        ("10", vec![i(10)], Limit::Value(10)),
        ("max", vec![i(u32::MAX)], Limit::Value(u32::MAX)),
        ("unlimited", vec![i(-1), s("-1")], Limit::Unlimited),
    ] {
        let out = forms[0].clone();
        put(v, key, label, forms, Some(out), true, move |x| *get(x) = Some(n));
    }
}
fn bad_pids() -> Vec<Y> {
    vec![
        i(-2),
        i(4_294_967_296u64),
        raw("18446744073709551616"),
        Y::F(1.5),
        s("a"),
        s(""),
        s("-2"),
        l([]),
        m::<&str>([]),
        Y::B(true),
    ]
}

pub fn resources_device() -> Schema<resources::Device> {
    type T = resources::Device;
    let mut v: Vec<Item<T>> = Vec::new();
    let mut r = Vec::new();
    it!(v, t, "capabilities", "three", [ls(["tpu", "gpu", "nvidia-compute"]), ls(["tpu", "gpu", "tpu", "nvidia-compute"])] => ls(["tpu", "gpu", "nvidia-compute"]), {
        t.capabilities = [
            resources::Capability::Tpu,
            resources::Capability::Gpu,
            resources::Capability::Other("nvidia-compute".into()),
        ].into_iter().collect();
    });
    put(&mut v, "capabilities", "none", vec![l([])], Some(l([])), false, |_| {});
    string(&mut v, "driver", |t| &mut t.driver);
    it!(v, t, "count", "all", [s("all")], t.count = Some(resources::Count::All));
    it!(v, t, "count", "2", [i(2), s("2")], t.count = Some(resources::Count::Integer(2)));
    it!(v, t, "count", "max", [i(u64::MAX), s("18446744073709551615")], t.count = Some(resources::Count::Integer(u64::MAX)));
    str_set(&mut v, "device_ids", |t| &mut t.device_ids);
    lom(&mut v, "options", |t| &mut t.options);
    exts(&mut v, |t| &mut t.extensions);
    rej(&mut r, "capabilities", bad_scalar_for_list());
    rej(&mut r, "driver", bad_str());
    rej(&mut r, "count", [i(-1), s("-1"), Y::F(1.5), s("ALL"), s(""), s("18446744073709551616"), raw("18446744073709551616"), l([]), m::<&str>([]), Y::B(true)]);
    rej(&mut r, "device_ids", bad_scalar_for_list());
    rej(&mut r, "options", bad_lom());
    Schema {
        name: "resources::Device",
        base: Arc::new(T::default),
        base_doc: m([("capabilities", l([]))]),
        base_out: m([("capabilities", l([]))]),
        items: v,
        rejects: r,
        is_empty: Some(T::is_empty),
        required: vec!["capabilities"],
        extensible: true,
    }
}

pub fn generic_resource() -> Schema<resources::GenericResource> {
    type T = resources::GenericResource;
    let mut v: Vec<Item<T>> = Vec::new();
    let mut r = Vec::new();
    let inner = discrete_resource();
    lift(&mut v, &mut r, &inner, "discrete_resource_spec", "", false, under("discrete_resource_spec"), |t, f| {
        f(t.discrete_resource_spec.get_or_insert_with(Default::default));
    });
    exts(&mut v, |t| &mut t.extensions);
    rej(&mut r, "discrete_resource_spec", [s("a"), i(1), l([])]);
    schema("GenericResource", v, r, Some(T::is_empty), true)
}

pub fn reservations() -> Schema<resources::Reservations> {
    type T = resources::Reservations;
    let mut v: Vec<Item<T>> = Vec::new();
    let mut r = Vec::new();
    cpus(&mut v, "cpus", |t| &mut t.cpus);
    bytes(&mut v, "memory", |t| &mut t.memory);
    let dev = resources_device();
    lift(&mut v, &mut r, &dev, "devices", "one", false, under_list("devices"), |t: &mut T, f| {
        if t.devices.is_empty() {
            t.devices.push(resources::Device::default());
        }
        f(&mut t.devices[0]);
    });
    it!(v, t, "devices", "two", [l([
        m([("capabilities", ls(["tpu"]))]),
        m([("capabilities", ls(["gpu"])), ("count", i(1))]),
    ])], {
        t.devices = vec![
            resources::Device::new([resources::Capability::Tpu]),
            resources::Device { count: Some(resources::Count::Integer(1)), ..resources::Device::new([resources::Capability::Gpu]) },
        ];
    });
    nothing!(v, "devices", "none", [l([])]);
    lift(&mut v, &mut r, &generic_resource(), "generic_resources", "one", false, under_list("generic_resources"), |t: &mut T, f| {
        if t.generic_resources.is_empty() {
            t.generic_resources.push(Default::default());
        }
        f(&mut t.generic_resources[0]);
    });
    nothing!(v, "generic_resources", "none", [l([])]);
    exts(&mut v, |t| &mut t.extensions);
    rej(&mut r, "cpus", bad_cpus());
    rej(&mut r, "memory", bad_bytes());
    rej(&mut r, "devices", [s("a"), m::<&str>([]), l([s("a")]), l([m::<&str>([])]), l([m([("driver", s("a"))])])]);
    rej(&mut r, "generic_resources", [s("a"), m::<&str>([]), l([s("a")])]);
    schema("Reservations", v, r, Some(T::is_empty), true)
}

pub fn resources_() -> Schema<resources::Resources> {
    type T = resources::Resources;
    let mut v: Vec<Item<T>> = Vec::new();
    let mut r = Vec::new();
    lift(&mut v, &mut r, &resources_limits(), "limits", "", false, under("limits"), |t: &mut T, f| {
        f(t.limits.get_or_insert_with(Default::default));
    });
    lift(&mut v, &mut r, &reservations(), "reservations", "", false, under("reservations"), |t: &mut T, f| {
        f(t.reservations.get_or_insert_with(Default::default));
    });
    exts(&mut v, |t| &mut t.extensions);
    for key in ["limits", "reservations"] {
        rej(&mut r, key, [s("a"), i(1), l([])]);
    }
    schema("Resources", v, r, Some(T::is_empty), true)
}

pub fn update_config() -> Schema<deploy::UpdateOrRollbackConfig> {
    type T = deploy::UpdateOrRollbackConfig;
    let mut v: Vec<Item<T>> = Vec::new();
    let mut r = Vec::new();
    number(&mut v, "parallelism", |t| &mut t.parallelism);
    dur(&mut v, "delay", |t| &mut t.delay);
    it!(v, t, "failure_action", "continue", [s("continue")], t.failure_action = Some(deploy::FailureAction::Continue));
    it!(v, t, "failure_action", "pause", [s("pause")], t.failure_action = Some(deploy::FailureAction::Pause));
    dur(&mut v, "monitor", |t| &mut t.monitor);
    number(&mut v, "max_failure_ratio", |t| &mut t.max_failure_ratio);
    it!(v, t, "order", "stop-first", [s("stop-first")], t.order = Some(deploy::Order::StopFirst));
    it!(v, t, "order", "start-first", [s("start-first")], t.order = Some(deploy::Order::StartFirst));
    exts(&mut v, |t| &mut t.extensions);
    for key in ["parallelism", "max_failure_ratio"] {
        rej(&mut r, key, bad_u64());
    }
    for key in ["delay", "monitor"] {
        rej(&mut r, key, bad_dur());
    }
    rej(&mut r, "failure_action", [s(""), s("Continue"), s("stop"), i(1), l([]), Y::B(true)]);
    rej(&mut r, "order", [s(""), s("stop_first"), s("first"), i(1), l([])]);
    schema("UpdateOrRollbackConfig", v, r, Some(T::is_empty), true)
}

pub fn restart_policy() -> Schema<deploy::RestartPolicy> {
    type T = deploy::RestartPolicy;
    let mut v: Vec<Item<T>> = Vec::new();
    let mut r = Vec::new();
    it!(v, t, "condition", "none", [s("none")], t.condition = Some(deploy::RestartCondition::None));
    it!(v, t, "condition", "on-failure", [s("on-failure")], t.condition = Some(deploy::RestartCondition::OnFailure));
    it!(v, t, "condition", "any", [s("any")], t.condition = Some(deploy::RestartCondition::Any));
    dur(&mut v, "delay", |t| &mut t.delay);
    number(&mut v, "max_attempts", |t| &mut t.max_attempts);
    dur(&mut v, "window", |t| &mut t.window);
    exts(&mut v, |t| &mut t.extensions);
    rej(&mut r, "condition", [s(""), s("on_failure"), s("always"), i(1), l([])]);
    rej(&mut r, "delay", bad_dur());
    rej(&mut r, "window", bad_dur());
    rej(&mut r, "max_attempts", bad_u64());
    schema("RestartPolicy", v, r, Some(T::is_empty), true)
}

pub fn placement() -> Schema<deploy::Placement> {
    type T = deploy::Placement;
    let mut v: Vec<Item<T>> = Vec::new();
    let mut r = Vec::new();
    str_vec(&mut v, "constraints", |t| &mut t.constraints);
    let pref = preference();
    lift(&mut v, &mut r, &pref, "preferences", "one", false, under_list("preferences"), |t: &mut T, f| {
        if t.preferences.is_empty() {
            t.preferences.push(Default::default());
        }
        f(&mut t.preferences[0]);
    });
    it!(v, t, "preferences", "two", [l([m([("spread", s("z"))]), m([("spread", s("a"))])])], {
        t.preferences = ["z", "a"].into_iter().map(|x| deploy::Preference {
            spread: Some(x.into()),
            extensions: Extensions::new(),
        }).collect();
    });
    nothing!(v, "preferences", "none", [l([])]);
    number(&mut v, "max_replicas_per_node", |t| &mut t.max_replicas_per_node);
    exts(&mut v, |t| &mut t.extensions);
    rej(&mut r, "constraints", bad_scalar_for_list());
    rej(&mut r, "preferences", [s("a"), m::<&str>([]), l([s("a")]), l([i(1)])]);
    rej(&mut r, "max_replicas_per_node", bad_u64());
    schema("Placement", v, r, Some(T::is_empty), true)
}

pub fn deploy_() -> Schema<Deploy> {
    type T = Deploy;
    let mut v: Vec<Item<T>> = Vec::new();
    let mut r = Vec::new();
    it!(v, t, "endpoint_mode", "vip", [s("vip")], t.endpoint_mode = Some(deploy::EndpointMode::VIp));
    it!(v, t, "endpoint_mode", "dnsrr", [s("dnsrr")], t.endpoint_mode = Some(deploy::EndpointMode::DnsRR));
    it!(v, t, "endpoint_mode", "other", [s("VIP")], t.endpoint_mode = Some(deploy::EndpointMode::Other("VIP".into())));
    lom(&mut v, "labels", |t| &mut t.labels);
    it!(v, t, "mode", "global", [s("global")], t.mode = Some(deploy::Mode::Global));
    it!(v, t, "mode", "replicated", [s("replicated")], t.mode = Some(deploy::Mode::Replicated));
    lift(&mut v, &mut r, &placement(), "placement", "", false, under("placement"), |t: &mut T, f| {
        f(t.placement.get_or_insert_with(Default::default));
    });
    number(&mut v, "replicas", |t| &mut t.replicas);
    lift(&mut v, &mut r, &resources_(), "resources", "", false, under("resources"), |t: &mut T, f| {
        f(t.resources.get_or_insert_with(Default::default));
    });
    lift(&mut v, &mut r, &restart_policy(), "restart_policy", "", false, under("restart_policy"), |t: &mut T, f| {
        f(t.restart_policy.get_or_insert_with(Default::default));
    });
    lift(&mut v, &mut r, &update_config(), "rollback_config", "", false, under("rollback_config"), |t: &mut T, f| {
        f(t.rollback_config.get_or_insert_with(Default::default));
    });
    lift(&mut v, &mut r, &update_config(), "update_config", "", false, under("update_config"), |t: &mut T, f| {
        f(t.update_config.get_or_insert_with(Default::default));
    });
    exts(&mut v, |t| &mut t.extensions);
    rej(&mut r, "endpoint_mode", bad_str());
    rej(&mut r, "labels", bad_lom());
    rej(&mut r, "mode", [s(""), s("Global"), s("replica"), i(1), l([])]);
    rej(&mut r, "replicas", bad_u64());
    for key in ["placement", "resources", "restart_policy", "rollback_config", "update_config"] {
        rej(&mut r, key, [s("a"), i(1), l([]), l([m::<&str>([])])]);
    }
    schema("Deploy", v, r, Some(T::is_empty), true)
}

pub fn watch_rule() -> Schema<WatchRule> {
    type T = WatchRule;
    let mut v: Vec<Item<T>> = Vec::new();
    let mut r = Vec::new();
    it!(v, t, "ignore", "two", [ls(["z/", "a"])], t.ignore = vec![pb("z/"), pb("a")]);
    nothing!(v, "ignore", "none", [l([])]);
    it!(v, t, "target", "abs", [s("/t")], t.target = Some(ap("/t")));
    exts(&mut v, |t| &mut t.extensions);
    rej(&mut r, "action", [s(""), s("Rebuild"), s("sync_restart"), s("restart"), i(1), l([])]);
    rej(&mut r, "ignore", bad_scalar_for_list());
    rej(&mut r, "path", bad_str());
    rej(&mut r, "target", bad_abs());
    based(
        "WatchRule",
        || WatchRule {
            action: develop::Action::Sync,
            ignore: vec![],
            path: pb("./p"),
            target: None,
            extensions: Extensions::new(),
        },
        m([("action", s("sync")), ("path", s("./p"))]),
        &["action", "path"],
        v,
        r,
        true,
    )
}

pub fn develop_() -> Schema<Develop> {
    type T = Develop;
    let mut v: Vec<Item<T>> = Vec::new();
    let mut r = Vec::new();
    let inner = watch_rule();
    let base = inner.base.clone();
    lift(&mut v, &mut r, &inner, "watch", "one", true, under_list("watch"), move |t: &mut T, f| {
        if t.watch.is_empty() {
            t.watch.push(base());
        }
        f(&mut t.watch[0]);
    });
    let w = |a: &str, p: &str| m([("action", s(a)), ("path", s(p))]);
    it!(v, t, "watch", "three", [l([w("sync+restart", "z"), w("rebuild", "a"), w("sync", "b")])], {
        t.watch = [
            (develop::Action::SyncAndRestart, "z"),
            (develop::Action::Rebuild, "a"),
            (develop::Action::Sync, "b"),
        ].into_iter().map(|(action, p)| WatchRule {
            action,
            ignore: vec![],
            path: pb(p),
            target: None,
            extensions: Extensions::new(),
        }).collect();
    });
    nothing!(v, "watch", "none", [l([])]);
    rej(&mut r, "watch", bad_scalar_for_list());
    schema("Develop", v, r, None, false)
}

pub fn healthcheck_command() -> Schema<Healthcheck> {
    type T = Healthcheck;
    type C = healthcheck::Command;
    let mut v: Vec<Item<C>> = Vec::new();
    let mut r = Vec::new();
    it!(v, t, "test", "shell", [s("curl -f x"), ls(["CMD-SHELL", "curl -f x"])], {
        t.test = Some(healthcheck::Test::ShellCommand("curl -f x".into()));
    });
    it!(v, t, "test", "cmd", [ls(["CMD", "curl", "-f"])], {
        t.test = Some(healthcheck::Test::Command(vec!["curl".into(), "-f".into()]));
    });
    it!(v, t, "test", "cmd none", [ls(["CMD"])], t.test = Some(healthcheck::Test::Command(vec![])));
    it!(v, t, "test", "shell NONE", [s("NONE")], t.test = Some(healthcheck::Test::ShellCommand("NONE".into())));
    dur(&mut v, "interval", |t| &mut t.interval);
    dur(&mut v, "timeout", |t| &mut t.timeout);
    number(&mut v, "retries", |t| &mut t.retries);
    dur(&mut v, "start_period", |t| &mut t.start_period);
    dur(&mut v, "start_interval", |t| &mut t.start_interval);
    nothing!(v, "disable", "false", [Y::B(false)]);
    exts(&mut v, |t| &mut t.extensions);
    rej(
        &mut r,
        "test",
        [
            l([]),
            ls(["curl"]),
            ls(["cmd", "curl"]),
            ls(["CMD_SHELL", "a"]),
            ls(["CMD-SHELL"]),
            ls(["CMD-SHELL", "a", "b"]),
            ls(["NONE", "a"]),
            ls([""]),
            l([s("CMD"), l([])]),
            m::<&str>([]),
        ],
    );
    for key in ["interval", "timeout", "start_period", "start_interval"] {
        rej(&mut r, key, bad_dur());
    }
    rej(&mut r, "retries", bad_u64());
    rej(&mut r, "disable", bad_bool());
    // a disabled one has no other options, whatever they are set to
    for x in &v {
        for (first, off) in [("disable", Y::B(true)), ("test", ls(["NONE"]))] {
            if x.name.starts_with(&format!("{first}=")) || x.name.starts_with("disable=") {
                continue;
            }
            for form in &x.forms {
                let mut doc = form.clone();
                doc.merge(&m([(first, off.clone())]));
                r.push(Reject {
                    name: format!("disabled by {first} with {}", x.name),
                    groups: x.groups.iter().cloned().chain([("disable".into(), "!".into()), ("test".into(), "!".into())]).collect(),
                    doc,
                });
            }
        }
    }
    fn empty(t: &T) -> bool {
        match t {
            Healthcheck::Command(c) => c.is_empty(),
            Healthcheck::Disable => false,
        }
    }
    let items = v
        .into_iter()
        .map(|x| {
            let set = x.set.clone();
            Item {
                name: x.name,
                groups: x.groups,
                forms: x.forms,
                out: x.out,
                nonempty: x.nonempty,
                set: Arc::new(move |t: &mut T| {
                    if let Healthcheck::Command(c) = t {
                        set(c);
                    }
                }) as Setter<T>,
            }
        })
        .collect();
    schema("Healthcheck", items, r, Some(empty), true)
}

pub fn logging() -> Schema<service::Logging> {
    type T = service::Logging;
    let mut v: Vec<Item<T>> = Vec::new();
    let mut r = Vec::new();
    string(&mut v, "driver", |t| &mut t.driver);
    it!(v, t, "options", "five", [o([("z", s("v")), ("a.b", i(1)), ("n", i(-2)), ("e", Y::Null), ("f", Y::F(1.5))])], {
        t.options = [
            (mk("z"), Some(StringOrNumber::String("v".into()))),
            (mk("a.b"), Some(StringOrNumber::Number(Number::UnsignedInt(1)))),
            (mk("n"), Some(StringOrNumber::Number(Number::SignedInt(-2)))),
            (mk("e"), None),
            (mk("f"), Some(StringOrNumber::Number(Number::Float(1.5)))),
        ].into_iter().collect();
    });
    nothing!(v, "options", "none", [m::<&str>([])]);
    exts(&mut v, |t| &mut t.extensions);
    rej(&mut r, "driver", bad_str());
    rej_opts(&mut r, "options");
    schema("Logging", v, r, Some(T::is_empty), true)
}

pub fn service_network() -> Schema<network_config::Network> {
    type T = network_config::Network;
    let mut v: Vec<Item<T>> = Vec::new();
    let mut r = Vec::new();
    it!(v, t, "aliases", "two", [ls(["z1", "a.b"]), ls(["z1", "a.b", "z1"])] => ls(["z1", "a.b"]), {
        t.aliases = [hn("z1"), hn("a.b")].into_iter().collect();
    });
    nothing!(v, "aliases", "none", [l([])]);
    it!(v, t, "ipv4_address", "a", [s("172.16.238.10")], t.ipv4_address = Some("172.16.238.10".parse().expect("ip")));
    it!(v, t, "ipv6_address", "a", [s("2001:db8::10"), s("2001:0db8:0:0::10")], t.ipv6_address = Some("2001:db8::10".parse().expect("ip")));
    it!(v, t, "link_local_ips", "two", [ls(["57.123.22.13", "57.123.22.11"]), ls(["57.123.22.13", "57.123.22.11", "57.123.22.13"])] => ls(["57.123.22.13", "57.123.22.11"]), {
        t.link_local_ips = [ip("57.123.22.13"), ip("57.123.22.11")].into_iter().collect();
    });
    nothing!(v, "link_local_ips", "none", [l([])]);
    it!(v, t, "mac_address", "a", [s("02:42:ac:11:00:0b"), s("02:42:AC:11:00:0B"), s("2:42:ac:11:0:b")], {
        t.mac_address = Some(MacAddress([0x02, 0x42, 0xac, 0x11, 0, 0x0b]));
    });
    opts_map(&mut v, "driver_opts", |t| &mut t.driver_opts);
    number(&mut v, "priority", |t| &mut t.priority);
    exts(&mut v, |t| &mut t.extensions);
    rej(&mut r, "aliases", bad_scalar_for_list().into_iter().chain(bad_host().into_iter().map(|y| l([y]))));
    rej(&mut r, "ipv4_address", [s(""), s("1.2.3"), s("::1"), s("1.2.3.256"), i(1), l([])]);
    rej(&mut r, "ipv6_address", [s(""), s("1.2.3.4"), s("::g"), i(1), l([])]);
    rej(&mut r, "link_local_ips", [s("1.1.1.1"), ls(["a"]), ls([""]), m::<&str>([])]);
    rej(&mut r, "mac_address", [s(""), s("1:2:3:4:5"), s("1:2:3:4:5:6:7"), s("1:2:3:4:5:g"), s("1:2:3:4:5:100"), l([])]);
    rej_opts(&mut r, "driver_opts");
    rej(&mut r, "priority", bad_u64());
    schema("service::network_config::Network", v, r, Some(T::is_empty), true)
}

pub fn port() -> Schema<Port> {
    type T = Port;
    let mut v: Vec<Item<T>> = Vec::new();
    let mut r = Vec::new();
    string(&mut v, "name", |t| &mut t.name);
    it!(v, t, "published", "8080", [i(8080), s("8080")], t.published = Some(8080.into()));
    it!(v, t, "published", "range", [s("8000-9000")], t.published = Some(ports::Range::new(8000, Some(9000)).expect("range")));
    it!(v, t, "host_ip", "4", [s("127.0.0.1")], t.host_ip = Some(ip("127.0.0.1")));
    it!(v, t, "host_ip", "6", [s("::1"), s("0:0::1")], t.host_ip = Some(ip("::1")));
    it!(v, t, "protocol", "tcp", [s("tcp")], t.protocol = Some(ports::Protocol::Tcp));
    it!(v, t, "protocol", "udp", [s("udp")], t.protocol = Some(ports::Protocol::Udp));
    it!(v, t, "protocol", "other", [s("sctp")], t.protocol = Some(ports::Protocol::Other("sctp".into())));
    string(&mut v, "app_protocol", |t| &mut t.app_protocol);
    it!(v, t, "mode", "host", [s("host")], t.mode = Some(ports::Mode::Host));
    it!(v, t, "mode", "ingress", [s("ingress")], t.mode = Some(ports::Mode::Ingress));
    exts(&mut v, |t| &mut t.extensions);
    rej(&mut r, "name", bad_str());
    rej(&mut r, "target", [i(-1), i(65_536), Y::F(1.5), s("a"), s(""), s("1-2"), l([]), m::<&str>([]), Y::B(true)]);
    rej(&mut r, "published", [i(-1), i(65_536), Y::F(1.5), s("a"), s(""), s("2-1"), s("1-"), s("1-2-3"), l([]), m::<&str>([]), Y::B(true)]);
    rej(&mut r, "host_ip", [s(""), s("a"), s("[::1]"), i(1), l([])]);
    rej(&mut r, "protocol", bad_str());
    rej(&mut r, "app_protocol", bad_str());
    rej(&mut r, "mode", [s(""), s("Host"), s("bridge"), i(1), l([])]);
    based("Port", || Port::new(81), m([("target", i(81))]), &["target"], v, r, true)
}

fn common_items<T: 'static>(v: &mut Vec<Item<T>>, r: &mut Vec<Reject>, get: fn(&mut T) -> &mut mount::Common) {
    let mut w: Vec<Item<mount::Common>> = Vec::new();
    boolean(&mut w, "read_only", false, |t| &mut t.read_only);
    string(&mut w, "consistency", |t| &mut t.consistency);
    exts(&mut w, |t| &mut t.extensions);
    for x in w {
        let set = x.set.clone();
        v.push(Item {
            name: x.name,
            groups: x.groups,
            forms: x.forms,
            out: x.out,
            nonempty: x.nonempty,
            set: Arc::new(move |t: &mut T| set(get(t))),
        });
    }
    rej(r, "target", bad_abs());
    rej(r, "read_only", bad_bool());
    rej(r, "consistency", bad_str());
}
fn common() -> mount::Common {
    mount::Common::new(ap("/t"))
}

pub fn mount_volume() -> Schema<mount::Volume> {
    type T = mount::Volume;
    let mut v: Vec<Item<T>> = Vec::new();
    let mut r = Vec::new();
    it!(v, t, "source", "a", [s("vol.1")], t.source = Some(id("vol.1")));
    let inner = volume_options();
    lift(&mut v, &mut r, &inner, "volume", "", false, under("volume"), |t: &mut T, f| {
        f(t.volume.get_or_insert_with(Default::default));
    });
    common_items(&mut v, &mut r, |t| &mut t.common);
    rej(&mut r, "source", bad_id());
    rej(&mut r, "volume", [s("a"), i(1), l([])]);
    based("mount::Volume", || T::new(common()), m([("target", s("/t"))]), &["target"], v, r, true)
}
pub fn mount_bind() -> Schema<mount::Bind> {
    type T = mount::Bind;
    let mut v: Vec<Item<T>> = Vec::new();
    let mut r = Vec::new();
    let inner = bind_options();
    lift(&mut v, &mut r, &inner, "bind", "", false, under("bind"), |t: &mut T, f| {
        f(t.bind.get_or_insert_with(Default::default));
    });
    common_items(&mut v, &mut r, |t| &mut t.common);
    rej(&mut r, "source", [s(""), s("a"), s("a/b"), s("~/a"), s(".a"), l([])]);
    rej(&mut r, "bind", [s("a"), i(1), l([])]);
    based(
        "mount::Bind",
        || T::new(hp("./src"), common()),
        m([("source", s("./src")), ("target", s("/t"))]),
        &["source", "target"],
        v,
        r,
        true,
    )
}
pub fn mount_tmpfs() -> Schema<mount::Tmpfs> {
    type T = mount::Tmpfs;
    let mut v: Vec<Item<T>> = Vec::new();
    let mut r = Vec::new();
    let inner = tmpfs_options();
    lift(&mut v, &mut r, &inner, "tmpfs", "", false, under("tmpfs"), |t: &mut T, f| {
        f(t.tmpfs.get_or_insert_with(Default::default));
    });
    common_items(&mut v, &mut r, |t| &mut t.common);
    rej(&mut r, "tmpfs", [s("a"), i(1), l([])]);
    based("mount::Tmpfs", || T::new(common()), m([("target", s("/t"))]), &["target"], v, r, true)
}
pub fn mount_npipe() -> Schema<mount::NamedPipe> {
    type T = mount::NamedPipe;
    let mut v: Vec<Item<T>> = Vec::new();
    let mut r = Vec::new();
    common_items(&mut v, &mut r, |t| &mut t.common);
    rej(&mut r, "source", [s(""), s("a"), s("a/b"), l([])]);
    based(
        "mount::NamedPipe",
        || T { source: hp("/pipe"), common: common() },
        m([("source", s("/pipe")), ("target", s("/t"))]),
        &["source", "target"],
        v,
        r,
        true,
    )
}
pub fn mount_cluster() -> Schema<mount::Cluster> {
    type T = mount::Cluster;
    let mut v: Vec<Item<T>> = Vec::new();
    let mut r = Vec::new();
    common_items(&mut v, &mut r, |t| &mut t.common);
    rej(&mut r, "source", bad_str());
    based(
        "mount::Cluster",
        || T { source: "grp a".into(), common: common() },
        m([("source", s("grp a")), ("target", s("/t"))]),
        &["source", "target"],
        v,
        r,
        true,
    )
}

pub fn mount_() -> Vec<Schema<Mount>> {
    fn tag<U: 'static>(
        name: &'static str,
        kind: &'static str,
        inner: Schema<U>,
        make: fn(U) -> Mount,
        get: fn(&mut Mount) -> Option<&mut U>,
    ) -> Schema<Mount> {
        let with = |y: Y| {
            let mut t = m([("type", s(kind))]);
            t.merge(&y);
            t
        };
        let base = inner.base.clone();
        let mut required = vec!["type"];
        required.extend(&inner.required);
        let mut rejects = inner.rejects.clone();
        rej(&mut rejects, "type", [s(""), s("Volume"), s("named_pipe"), i(1), l([])]);
        Schema {
            name,
            base: Arc::new(move || make(base())),
            base_doc: with(inner.base_doc.clone()),
            base_out: with(inner.base_out.clone()),
            items: inner
                .items
                .iter()
                .map(|x| {
                    let set = x.set.clone();
                    Item {
                        name: x.name.clone(),
                        groups: x.groups.clone(),
                        forms: x.forms.clone(),
                        out: x.out.clone(),
                        nonempty: x.nonempty,
                        set: Arc::new(move |t: &mut Mount| {
                            if let Some(u) = get(t) {
                                set(u);
                            }
                        }) as Setter<Mount>,
                    }
                })
                .collect(),
            rejects,
            is_empty: None,
            required,
            extensible: true,
        }
    }
    macro_rules! get {
        ($v:ident) => {
            |t| if let Mount::$v(x) = t { Some(x) } else { None }
        };
    }
    vec![
        tag("Mount (volume)", "volume", mount_volume(), Mount::Volume, get!(Volume)),
        tag("Mount (bind)", "bind", mount_bind(), Mount::Bind, get!(Bind)),
        tag("Mount (tmpfs)", "tmpfs", mount_tmpfs(), Mount::Tmpfs, get!(Tmpfs)),
        tag("Mount (npipe)", "npipe", mount_npipe(), Mount::NamedPipe, get!(NamedPipe)),
        tag("Mount (cluster)", "cluster", mount_cluster(), Mount::Cluster, get!(Cluster)),
    ]
}

pub fn env_file_config() -> Schema<env_file::Config> {
    type T = env_file::Config;
    let mut v: Vec<Item<T>> = Vec::new();
    let mut r = Vec::new();
    boolean(&mut v, "required", true, |t| &mut t.required);
    rej(&mut r, "required", bad_bool());
    rej(&mut r, "path", bad_str());
    based(
        "env_file::Config",
        || T { path: pb("./a.env"), required: true },
        m([("path", s("./a.env"))]),
        &["path"],
        v,
        r,
        false,
    )
}

pub fn credential_spec() -> Vec<Schema<CredentialSpec>> {
    type T = CredentialSpec;
    let mut v: Vec<Item<T>> = Vec::new();
    let mut r = Vec::new();
    exts(&mut v, |t| &mut t.extensions);
    rej(&mut r, "other", [s("a")]);
    let spec = |kind: CredentialSpecKind| -> Arc<dyn Fn() -> T + Send + Sync> {
        Arc::new(move || T { kind: kind.clone(), extensions: Extensions::new() })
    };
    use CredentialSpecKind as K;
    let mut all = sources(
        v,
        r,
        vec![
            ("CredentialSpec (config)", "config", s("my.cfg"), spec(K::Config(id("my.cfg")))),
            ("CredentialSpec (file)", "file", s("c.json"), spec(K::File(pb("c.json")))),
            ("CredentialSpec (registry)", "registry", s("my key"), spec(K::Registry("my key".into()))),
        ],
    );
    rej(&mut all[0].rejects, "config", [s("a b"), s("-a"), s("")]);
    all
}

pub fn extends() -> Schema<service::Extends> {
    type T = service::Extends;
    let mut v: Vec<Item<T>> = Vec::new();
    let mut r = Vec::new();
    it!(v, t, "file", "a", [s("./c.yaml")], t.file = Some(pb("./c.yaml")));
    rej(&mut r, "file", bad_str());
    rej(&mut r, "service", bad_id());
    based(
        "Extends",
        || T { service: id("web"), file: None },
        m([("service", s("web"))]),
        &["service"],
        v,
        r,
        false,
    )
}

pub fn dependency() -> Schema<service::Dependency> {
    type T = service::Dependency;
    let mut v: Vec<Item<T>> = Vec::new();
    let mut r = Vec::new();
    boolean(&mut v, "restart", false, |t| &mut t.restart);
    boolean(&mut v, "required", true, |t| &mut t.required);
    rej(&mut r, "restart", bad_bool());
    rej(&mut r, "required", bad_bool());
    rej(&mut r, "condition", [s(""), s("healthy"), s("service-healthy"), i(1), l([])]);
    based(
        "Dependency",
        || T { condition: service::Condition::ServiceHealthy, restart: false, required: true },
        m([("condition", s("service_healthy"))]),
        &["condition"],
        v,
        r,
        false,
    )
}

fn command<T: 'static>(v: &mut Vec<Item<T>>, key: &str, get: fn(&mut T) -> &mut Option<service::Command>) {
    put(v, key, "string", vec![s("run --it")], Some(s("run --it")), true, move |t| {
        *get(t) = Some(service::Command::String("run --it".into()));
    });
    let y = ls(["run", "", "--it x"]);
    put(v, key, "list", vec![y.clone()], Some(y), true, move |t| {
        *get(t) = Some(service::Command::List(vec!["run".into(), String::new(), "--it x".into()]));
    });
    put(v, key, "one", vec![ls(["run"])], Some(ls(["run"])), true, move |t| {
        *get(t) = Some(service::Command::List(vec!["run".into()]));
    });
    put(v, key, "none", vec![l([])], Some(l([])), true, move |t| {
        *get(t) = Some(service::Command::List(vec![]));
    });
}

pub fn service_() -> Schema<Service> {
    type T = Service;
    let mut v: Vec<Item<T>> = Vec::new();
    let mut r = Vec::new();

    boolean(&mut v, "attach", true, |t| &mut t.attach);
    for (key, get) in [
        ("init", (|t: &mut T| &mut t.init) as fn(&mut T) -> &mut bool),
        ("oom_kill_disable", |t| &mut t.oom_kill_disable),
        ("privileged", |t| &mut t.privileged),
        ("read_only", |t| &mut t.read_only),
        ("stdin_open", |t| &mut t.stdin_open),
        ("tty", |t| &mut t.tty),
    ] {
        boolean(&mut v, key, false, get);
        rej(&mut r, key, bad_bool());
    }
    rej(&mut r, "attach", bad_bool());

    // build
    it!(v, t, "build", "path", [s("./dir")], t.build = Some(ShortOrLong::Short(Context::Path(pb("./dir")))));
    it!(v, t, "build", "url", [s("https://github.com/a/b.git")], {
        t.build = Some(ShortOrLong::Short(Context::Url("https://github.com/a/b.git".parse().expect("url"))));
    });
    lift(&mut v, &mut r, &build(), "build", "long", true, under("build"), |t: &mut T, f| {
        if let ShortOrLong::Long(b) = t.build.get_or_insert_with(|| ShortOrLong::Long(Build::default())) {
            f(b);
        }
    });
    rej(&mut r, "build", [l([]), l([s("a")])]);

    lift(&mut v, &mut r, &blkio(), "blkio_config", "", true, under("blkio_config"), |t: &mut T, f| {
        f(t.blkio_config.get_or_insert_with(Default::default));
    });
    rej(&mut r, "blkio_config", [s("a"), i(1), l([])]);

    for (key, get) in [
        ("cpu_count", (|t: &mut T| &mut t.cpu_count) as fn(&mut T) -> &mut Option<u64>),
        ("cpu_shares", |t| &mut t.cpu_shares),
        ("scale", |t| &mut t.scale),
    ] {
        number(&mut v, key, get);
        rej(&mut r, key, bad_u64());
    }
    for (key, get) in [
        ("cpu_percent", (|t: &mut T| &mut t.cpu_percent) as fn(&mut T) -> &mut Option<service::Percent>),
        ("mem_swappiness", |t| &mut t.mem_swappiness),
    ] {
        for n in [0u8, 50, 100] {
            put(&mut v, key, &n.to_string(), vec![i(n)], Some(i(n)), true, move |t| {
                *get(t) = Some(service::Percent::new(n).expect("percent"));
            });
        }
        rej(&mut r, key, [i(-1), i(101), i(256), i(306), Y::F(1.5), s("a"), l([]), m::<&str>([]), Y::B(true)]);
    }
    for (key, get) in [
        ("cpu_period", (|t: &mut T| &mut t.cpu_period) as fn(&mut T) -> &mut Option<Duration>),
        ("cpu_quota", |t| &mut t.cpu_quota),
    ] {
        micros(&mut v, key, get);
        rej(&mut r, key, [i(-1), Y::F(1.5), s("a"), l([]), m::<&str>([]), Y::B(true), raw("18446744073709551616")]);
    }
    for (key, get) in [
        ("cpu_rt_runtime", (|t: &mut T| &mut t.cpu_rt_runtime) as fn(&mut T) -> &mut Option<Duration>),
        ("cpu_rt_period", |t| &mut t.cpu_rt_period),
        ("stop_grace_period", |t| &mut t.stop_grace_period),
    ] {
        dur(&mut v, key, get);
        rej(&mut r, key, bad_dur());
    }
    cpus(&mut v, "cpus", |t| &mut t.cpus);
    rej(&mut r, "cpus", bad_cpus());
    it!(v, t, "cpuset", "mix", [s("0-3,7,9-10"), s("0,1,2,3,7,9,10"), s("7,0-2,3,9-10,10"), s("0-3,2-3,7,9,10")] => s("0-3,7,9-10"), {
        t.cpuset = CpuSet([0, 1, 2, 3, 7, 9, 10].into_iter().collect());
    });
    it!(v, t, "cpuset", "one", [s("5"), s("5-5"), s("5,5")] => s("5"), {
        t.cpuset = CpuSet([5].into_iter().collect());
    });
    nothing!(v, "cpuset", "none", [s("")]);
    rej(&mut r, "cpuset", [s("a"), s("3-1"), s("0,5-4"), s("-"), s("1-"), s("-1"), s("1,,2"), s("1 ,2"), s("1.5"), s("1-2-3"), l([]), l([i(1)]), m::<&str>([])]);

    for (key, get) in [
        ("cap_add", (|t: &mut T| &mut t.cap_add) as fn(&mut T) -> &mut IndexSet<String>),
        ("cap_drop", |t| &mut t.cap_drop),
        ("dns_opt", |t| &mut t.dns_opt),
        ("security_opt", |t| &mut t.security_opt),
    ] {
        str_set(&mut v, key, get);
        rej(&mut r, key, bad_scalar_for_list());
        rej(&mut r, key, [l([l([])]), l([m::<&str>([])])]);
    }
    for (key, get) in [
        ("cgroup_parent", (|t: &mut T| &mut t.cgroup_parent) as fn(&mut T) -> &mut Option<String>),
        ("isolation", |t| &mut t.isolation),
        ("pid", |t| &mut t.pid),
        ("runtime", |t| &mut t.runtime),
        ("stop_signal", |t| &mut t.stop_signal),
        ("userns_mode", |t| &mut t.userns_mode),
    ] {
        string(&mut v, key, get);
        rej(&mut r, key, bad_str());
    }
    it!(v, t, "cgroup", "host", [s("host")], t.cgroup = Some(service::Cgroup::Host));
    it!(v, t, "cgroup", "private", [s("private")], t.cgroup = Some(service::Cgroup::Private));
    rej(&mut r, "cgroup", [s(""), s("Host"), s("shared"), i(1), l([])]);
    for (key, get) in [
        ("command", (|t: &mut T| &mut t.command) as fn(&mut T) -> &mut Option<service::Command>),
        ("entrypoint", |t| &mut t.entrypoint),
    ] {
        command(&mut v, key, get);
        rej(&mut r, key, [m::<&str>([]), m([("a", s("b"))]), l([l([])]), l([m::<&str>([])])]);
    }
    configs_or_secrets(&mut v, &mut r, "configs", |t| &mut t.configs);
    configs_or_secrets(&mut v, &mut r, "secrets", |t| &mut t.secrets);
    it!(v, t, "container_name", "a", [s("My_c.1-x")], t.container_name = Some(id("My_c.1-x")));
    rej(&mut r, "container_name", bad_id());

    for inner in credential_spec() {
        let base = inner.base.clone();
        lift(&mut v, &mut r, &inner, "credential_spec", inner.name, true, under("credential_spec"), move |t: &mut T, f| {
            f(t.credential_spec.get_or_insert_with(|| base()));
        });
    }
    rej(
        &mut r,
        "credential_spec",
        [
            m::<&str>([]),
            s("a"),
            l([]),
            m([("x-a", i(1))]),
            m([("other", s("a"))]),
            m([("file", s("a")), ("other", s("b"))]),
            m([("file", s("a")), ("config", s("b"))]),
            m([("registry", s("a")), ("config", s("b"))]),
            m([("registry", s("a")), ("file", s("b"))]),
            m([("registry", s("a")), ("file", s("b")), ("config", s("c"))]),
            m([("file", l([]))]),
            m([("config", s("a b"))]),
            m([("registry", m::<&str>([]))]),
        ],
    );

    it!(v, t, "depends_on", "short", [ls(["zdb", "a.b"]), ls(["zdb", "a.b", "zdb"])], {
        t.depends_on = ShortOrLong::Short([id("zdb"), id("a.b")].into_iter().collect());
    });
    nothing!(v, "depends_on", "no list", [l([])]);
    {
        use service::{Condition, Dependency};
        let d = |c: &str| m([("condition", s(c))]);
        it!(v, t, "depends_on", "three", [o([
            ("z", d("service_started")),
            ("a", d("service_healthy")),
            ("m", d("service_completed_successfully")),
        ])], {
            t.depends_on = ShortOrLong::Long([
                ("z", Condition::ServiceStarted),
                ("a", Condition::ServiceHealthy),
                ("m", Condition::ServiceCompletedSuccessfully),
            ].into_iter().map(|(k, condition)| (id(k), Dependency { condition, restart: false, required: true })).collect());
        });
        let dep = dependency();
        let base = dep.base.clone();
        lift(&mut v, &mut r, &dep, "depends_on", "long", true, under_map("depends_on", "db"), move |t: &mut T, f| {
            if let ShortOrLong::Short(_) = t.depends_on {
                t.depends_on = ShortOrLong::Long([(id("db"), base())].into_iter().collect());
            }
            if let ShortOrLong::Long(map) = &mut t.depends_on {
                f(&mut map[0]);
            }
        });
    }
    rej(
        &mut r,
        "depends_on",
        [
            s("a"),
            i(1),
            ls([""]),
            ls(["a b"]),
            l([m([("a", s("b"))])]),
            o([("a b", m([("condition", s("service_started"))]))]),
            o([("a", s("service_started"))]),
            o([("a", m::<&str>([]))]),
        ],
    );

    lift(&mut v, &mut r, &deploy_(), "deploy", "", true, under("deploy"), |t: &mut T, f| {
        f(t.deploy.get_or_insert_with(Default::default));
    });
    rej(&mut r, "deploy", [s("a"), i(1), l([])]);
    lift(&mut v, &mut r, &develop_(), "develop", "", true, under("develop"), |t: &mut T, f| {
        f(t.develop.get_or_insert_with(Default::default));
    });
    rej(&mut r, "develop", [s("a"), i(1), l([])]);

    {
        use device::{CgroupRule, Kind, MajorMinorNumber as N, Permissions};
        let p = |read, write, mknod| Permissions { read, write, mknod };
        it!(v, t, "device_cgroup_rules", "three", [
            ls(["c 1:3 rm", "a 7:*", "b *:9 w"]),
            ls(["c 1:3 mr", "a 7:*", "c 1:3 rm", "b *:9 w"]),
            ls(["c 1:3 rm", "a 7: ", "b :9 w"]),
        ], {
            t.device_cgroup_rules = [
                CgroupRule { kind: Kind::Char, major: N::Integer(1), minor: N::Integer(3), permissions: p(true, false, true) },
                CgroupRule { kind: Kind::All, major: N::Integer(7), minor: N::All, permissions: p(false, false, false) },
                CgroupRule { kind: Kind::Block, major: N::All, minor: N::Integer(9), permissions: p(false, true, false) },
            ].into_iter().collect();
        });
        nothing!(v, "device_cgroup_rules", "none", [l([])]);
        it!(v, t, "devices", "two", [
            ls(["/dev/z:/dev/y:rwm", "rel:/b"]),
            ls(["/dev/z:/dev/y:mwr", "rel:/b", "/dev/z:/dev/y:rwm"]),
            ls(["/dev/z:/dev/y:rwm", "rel:/b:"]),
        ], {
            t.devices = [
                Device { host_path: pb("/dev/z"), container_path: ap("/dev/y"), permissions: p(true, true, true) },
                Device { host_path: pb("rel"), container_path: ap("/b"), permissions: p(false, false, false) },
            ].into_iter().collect();
        });
        nothing!(v, "devices", "none", [l([])]);
    }
    rej(&mut r, "device_cgroup_rules", [s("c 1:3 r"), ls([""]), ls(["d 1:3 r"]), ls(["c 1 r"]), ls(["c 1:x r"]), ls(["c 1:3 x"]), ls(["c"]), m::<&str>([])]);
    rej(&mut r, "devices", [s("/a:/b"), ls([""]), ls(["/a"]), ls(["/a:b"]), ls(["/a:/b:x"]), ls(["/a:"]), m::<&str>([])]);

    it!(v, t, "dns", "one", [s("8.8.8.8")], t.dns = Some(ItemOrList::Item(ip("8.8.8.8"))));
    it!(v, t, "dns", "two", [ls(["9.9.9.9", "::1"]), ls(["9.9.9.9", "::1", "9.9.9.9"])], {
        t.dns = Some(ItemOrList::List([ip("9.9.9.9"), ip("::1")].into_iter().collect()));
    });
    it!(v, t, "dns", "list of one", [ls(["9.9.9.9"])], {
        t.dns = Some(ItemOrList::List([ip("9.9.9.9")].into_iter().collect()));
    });
    rej(&mut r, "dns", [s(""), s("a"), s("1.1.1"), ls([""]), ls(["a"]), m::<&str>([]), i(8)]);
    it!(v, t, "dns_search", "one", [s("example.com")], t.dns_search = Some(ItemOrList::Item(hn("example.com"))));
    it!(v, t, "dns_search", "two", [ls(["z1.com", "a"]), ls(["z1.com", "a", "a"])], {
        t.dns_search = Some(ItemOrList::List([hn("z1.com"), hn("a")].into_iter().collect()));
    });
    rej(&mut r, "dns_search", [s(""), s("a b"), s("-a"), ls([""]), ls(["a_b"]), m::<&str>([])]);
    it!(v, t, "domainname", "a", [s("d1.example.com")], t.domain_name = Some(hn("d1.example.com")));
    it!(v, t, "hostname", "a", [s("h1.example.com")], t.hostname = Some(hn("h1.example.com")));
    rej(&mut r, "domainname", bad_host());
    rej(&mut r, "hostname", bad_host());
    v.push(Item {
        name: "domain_name is no key".into(),
        groups: vec![],
        forms: vec![m::<&str>([])],
        out: m::<&str>([]),
        set: Arc::new(|_| {}),
        nonempty: false,
    });
    rej(&mut r, "domain_name", [s("d1.example.com")]);

    it!(v, t, "env_file", "single", [s("./a.env")], t.env_file = Some(EnvFile::Single(pb("./a.env"))));
    it!(v, t, "env_file", "list", [l([
        s("z.env"),
        m([("path", s("a.env")), ("required", Y::B(false))]),
        s("b.env"),
    ])], {
        t.env_file = Some(EnvFile::List([
            ShortOrLong::Short(pb("z.env")),
            ShortOrLong::Long(env_file::Config { path: pb("a.env"), required: false }),
            ShortOrLong::Short(pb("b.env")),
        ].into_iter().collect()));
    });
    it!(v, t, "env_file", "no list", [l([])], t.env_file = Some(EnvFile::List(Default::default())));
    {
        let c = env_file_config();
        let base = c.base.clone();
        lift(&mut v, &mut r, &c, "env_file", "long", true, under_list("env_file"), move |t: &mut T, f| {
            let e = t.env_file.get_or_insert_with(|| EnvFile::List([ShortOrLong::Long(base())].into_iter().collect()));
            if let EnvFile::List(list) = e {
                let mut x = list.remove(0);
                if let ShortOrLong::Long(c) = &mut x {
                    f(c);
                }
                list.insert(0, x);
            }
        });
    }
    rej(&mut r, "env_file", [m::<&str>([]), m([("path", s("a"))]), l([l([])]), l([m::<&str>([])]), l([m([("required", Y::B(true))])])]);

    for (key, get) in [
        ("environment", (|t: &mut T| &mut t.environment) as fn(&mut T) -> &mut ListOrMap),
        ("annotations", |t| &mut t.annotations),
        ("labels", |t| &mut t.labels),
        ("sysctls", |t| &mut t.sysctls),
    ] {
        lom(&mut v, key, get);
        rej(&mut r, key, bad_lom());
    }
    {
        use ports::{Protocol, Range};
        let e = |a, b, protocol| Expose { range: Range::new(a, b).expect("range"), protocol };
        it!(v, t, "expose", "four", [
            l([i(3000), s("8080-8085/tcp"), s("1/udp"), s("65535/x")]),
            l([s("3000"), s("8080-8085/tcp"), i(3000), s("1/udp"), s("65535/x")]),
        ], {
            t.expose = [
                e(3000, None, None),
                e(8080, Some(8085), Some(Protocol::Tcp)),
                e(1, None, Some(Protocol::Udp)),
                e(65535, None, Some(Protocol::Other("x".into()))),
            ].into_iter().collect();
        });
    }
    nothing!(v, "expose", "none", [l([])]);
    rej(&mut r, "expose", [i(1), s("1"), m::<&str>([]), l([i(-1)]), l([i(65_536)]), l([s("")]), l([s("a")]), l([s("2-1")]), l([s("1:2")]), l([Y::F(1.5)]), l([Y::B(true)]), l([l([])])]);

    {
        let e = extends();
        let base = e.base.clone();
        lift(&mut v, &mut r, &e, "extends", "", true, under("extends"), move |t: &mut T, f| {
            f(t.extends.get_or_insert_with(|| base()));
        });
    }
    rej(&mut r, "extends", [l([]), m::<&str>([])]);

    fn links<T: 'static>(v: &mut Vec<Item<T>>, r: &mut Vec<Reject>, key: &str, get: fn(&mut T) -> &mut IndexSet<service::Link>) {
        put(
            v,
            key,
            "three",
            vec![ls(["z:al", "a.b", "c:x:y z"]), ls(["z:al", "a.b", "z:al", "c:x:y z"])],
            Some(ls(["z:al", "a.b", "c:x:y z"])),
            true,
            move |t| {
                let k = |a: &str, b: Option<&str>| service::Link { service: id(a), alias: b.map(Into::into) };
                *get(t) = [k("z", Some("al")), k("a.b", None), k("c", Some("x:y z"))].into_iter().collect();
            },
        );
        put(v, key, "none", vec![l([])], None, false, |_| {});
        rej(r, key, [s("a"), ls([""]), ls([":a"]), ls(["a b"]), m::<&str>([])]);
    }
    links(&mut v, &mut r, "links", |t: &mut T| &mut t.links);
    links(&mut v, &mut r, "external_links", |t: &mut T| &mut t.external_links);
    extra_hosts(&mut v, "extra_hosts", |t| &mut t.extra_hosts);
    rej_extra_hosts(&mut r, "extra_hosts");
    it!(v, t, "group_add", "three", [
        l([s("mail"), i(1001), s("z_y-0$")]),
        l([s("mail"), s("1001"), i(1001), s("z_y-0$")]),
    ], {
        t.group_add = [
            IdOrName::Name("mail".parse().expect("name")),
            IdOrName::Id(1001),
            IdOrName::Name("z_y-0$".parse().expect("name")),
        ].into_iter().collect();
    });
    nothing!(v, "group_add", "none", [l([])]);
    rej(&mut r, "group_add", [s("a"), i(1), ls([""]), ls(["a b"]), ls(["-a"]), l([i(-1)]), l([i(4_294_967_296u64)]), l([Y::F(1.5)]), l([l([])]), m::<&str>([])]);

    lift(&mut v, &mut r, &healthcheck_command(), "healthcheck", "", true, under("healthcheck"), |t: &mut T, f| {
        f(t.healthcheck.get_or_insert_with(Default::default));
    });
    it!(v, t, "healthcheck", "disabled", [
        m([("disable", Y::B(true))]),
        m([("test", ls(["NONE"]))]),
        m([("test", ls(["NONE"])), ("disable", Y::B(false))]),
    ], t.healthcheck = Some(Healthcheck::Disable));
    rej(
        &mut r,
        "healthcheck",
        [
            s("a"),
            l([]),
            m([("disable", Y::B(true)), ("test", s("a"))]),
            m([("disable", Y::B(true)), ("test", ls(["CMD", "a"]))]),
            m([("disable", Y::B(true)), ("test", ls(["NONE"]))]),
            m([("disable", Y::B(true)), ("interval", s("1s"))]),
            m([("disable", Y::B(true)), ("x-a", s("1s"))]),
            m([("test", ls(["NONE"])), ("retries", i(1))]),
            m([("test", ls(["NONE"])), ("x-a", i(1))]),
        ],
    );

    it!(v, t, "image", "a", [s("r.io:5000/a/b@sha256:0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef")], {
        t.image = Some(im("r.io:5000/a/b@sha256:0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"));
    });
    it!(v, t, "image", "b", [s("redis")], t.image = Some(im("redis")));
    rej(&mut r, "image", bad_image());
    it!(v, t, "ipc", "shareable", [s("shareable")], t.ipc = Some(service::Ipc::Shareable));
    it!(v, t, "ipc", "service", [s("service:a.b")], t.ipc = Some(service::Ipc::Service(id("a.b"))));
    it!(v, t, "ipc", "other", [s("container: x")], t.ipc = Some(service::Ipc::Other("container: x".into())));
    rej(&mut r, "ipc", bad_str());
    rej(&mut r, "ipc", [s("service:"), s("service:a b"), s("service:-")]);
    it!(v, t, "uts", "host", [s("host")], t.uts = Some(service::Uts::Host));
    rej(&mut r, "uts", [s(""), s("Host"), s("private"), i(1), l([])]);
    lift(&mut v, &mut r, &logging(), "logging", "", true, under("logging"), |t: &mut T, f| {
        f(t.logging.get_or_insert_with(Default::default));
    });
    rej(&mut r, "logging", [s("a"), i(1), l([])]);

    // network_mode xor networks
    let n = v.len();
    for (t, mode) in [
        ("none", NetworkMode::None),
        ("host", NetworkMode::Host),
        ("service:a.b", NetworkMode::Service(id("a.b"))),
        ("container:c-1", NetworkMode::Container(id("c-1"))),
        ("bridge x", NetworkMode::Other("bridge x".into())),
    ] {
        put(&mut v, "network_mode", t, vec![s(t)], Some(s(t)), true, move |x: &mut T| {
            x.network_config = Some(NetworkConfig::NetworkMode(mode.clone()));
        });
    }
    it!(v, t, "networks", "short", [ls(["znet", "a.b"]), ls(["znet", "a.b", "znet"])], {
        t.network_config = Some(NetworkConfig::Networks(ShortOrLong::Short([id("znet"), id("a.b")].into_iter().collect())));
    });
    it!(v, t, "networks", "no list", [l([])], {
        t.network_config = Some(NetworkConfig::Networks(ShortOrLong::Short(IndexSet::new())));
    });
    it!(v, t, "networks", "no map", [m::<&str>([])], {
        t.network_config = Some(NetworkConfig::Networks(ShortOrLong::Long(IndexMap::new())));
    });
    it!(v, t, "networks", "nulls", [o([("z", Y::Null), ("a", m([("priority", i(1))])), ("m", Y::Null)])], {
        t.network_config = Some(NetworkConfig::Networks(ShortOrLong::Long([
            (id("z"), None),
            (id("a"), Some(network_config::Network { priority: Some(1), ..Default::default() })),
            (id("m"), None),
        ].into_iter().collect())));
    });
    lift(&mut v, &mut r, &service_network(), "networks", "long", true, under_map("networks", "net"), |t: &mut T, f| {
        if t.network_config.is_none() {
            t.network_config = Some(NetworkConfig::Networks(ShortOrLong::Long(
                [(id("net"), Some(network_config::Network::default()))].into_iter().collect(),
            )));
        }
        if let Some(NetworkConfig::Networks(ShortOrLong::Long(map))) = &mut t.network_config {
            if let Some(Some(net)) = map.get_mut("net") {
                f(net);
            }
        }
    });
    for x in &mut v[n..] {
        let kind = if x.name.starts_with("network_mode") { "network_mode" } else { "networks" };
        x.groups.push(("network_config".into(), kind.into()));
    }
    rej(&mut r, "network_mode", bad_str());
    rej(&mut r, "network_mode", [s("service:"), s("service:a b"), s("container:"), s("container:-")]);
    rej(&mut r, "networks", [s("a"), i(1), ls([""]), ls(["a b"]), l([i(1)]), o([("a b", Y::Null)]), o([("a", s("b"))]), o([("a", l([]))])]);

    it!(v, t, "mac_address", "a", [s("02:42:ac:11:65:43"), s("02:42:AC:11:65:43")], {
        t.mac_address = Some(MacAddress([0x02, 0x42, 0xac, 0x11, 0x65, 0x43]));
    });
    rej(&mut r, "mac_address", [s(""), s("1:2:3:4:5"), s("1:2:3:4:5:6:7"), s("1:2:3:4:5:g"), s("1:2:3:4:5:100"), l([])]);
    for (key, get) in [
        ("mem_limit", (|t: &mut T| &mut t.mem_limit) as fn(&mut T) -> &mut Option<ByteValue>),
        ("mem_reservation", |t| &mut t.mem_reservation),
        ("shm_size", |t| &mut t.shm_size),
    ] {
        bytes(&mut v, key, get);
        rej(&mut r, key, bad_bytes());
    }
    for (label, forms, n) in [
        ("unlimited", vec![i(-1), s("-1")], Limit::Unlimited),
        ("0", vec![s("0b"), i(0), s("0")], Limit::Value(ByteValue::Bytes(0))),
        ("1gb", vec![s("1gb"), s("1G")], Limit::Value(ByteValue::Gigabytes(1))),
    ] {
        let out = forms[0].clone();
        put(&mut v, "memswap_limit", label, forms, Some(out), true, move |t: &mut T| t.memswap_limit = Some(n));
    }
    rej(&mut r, "memswap_limit", [i(-2), s("-2"), s("-1b"), s(""), s("a"), Y::F(1.5), l([]), m::<&str>([]), Y::B(true)]);
    for n in [-1000i16, -1, 0, 1000] {
        put(&mut v, "oom_score_adj", &n.to_string(), vec![i(n)], Some(i(n)), true, move |t: &mut T| {
            t.oom_score_adj = Some(service::OomScoreAdj::new(n).expect("oom"));
        });
    }
    rej(&mut r, "oom_score_adj", [i(-1001), i(1001), i(65_536), i(-65_536), i(66_000), Y::F(1.5), s("a"), l([]), m::<&str>([]), Y::B(true)]);
    pids(&mut v, "pids_limit", |t| &mut t.pids_limit);
    rej(&mut r, "pids_limit", bad_pids());
    it!(v, t, "platform", "a", [s("linux/arm64/v8")], t.platform = Some("linux/arm64/v8".parse().expect("platform")));
    it!(v, t, "platform", "b", [s("darwin")], t.platform = Some("darwin".parse().expect("platform")));
    rej(&mut r, "platform", bad_str());
    rej(&mut r, "platform", [s(""), s("Linux"), s("linux/"), s("linux/x"), s("darwin/386"), s("linux/amd64/v8"), s("linux/arm/v5")]);

    {
        use ports::{Protocol, Range, ShortPort, ShortRanges};
        let sp = |host_ip: Option<&str>, h: Option<(u16, Option<u16>)>, c: (u16, Option<u16>), protocol| {
            let rg = |(a, b)| Range::new(a, b).expect("range");
            ShortOrLong::Short(ShortPort {
                host_ip: host_ip.map(ip),
                ranges: ShortRanges::new(h.map(rg), rg(c)).expect("ranges"),
                protocol,
            })
        };
        it!(v, t, "ports", "short", [
            l([i(3000), s("8000-8001:80-81"), s("127.0.0.1:1:2/udp"), s("6060:6060"), s("127.0.0.1::53/x"), s("9-10")]),
            l([s("3000"), s("8000-8001:80-81"), i(3000), s("127.0.0.1:1:2/udp"), s("6060:6060"), s("127.0.0.1::53/x"), s("9-10"), s("9-10")]),
        ], {
            t.ports = [
                sp(None, None, (3000, None), None),
                sp(None, Some((8000, Some(8001))), (80, Some(81)), None),
                sp(Some("127.0.0.1"), Some((1, None)), (2, None), Some(Protocol::Udp)),
                sp(None, Some((6060, None)), (6060, None), None),
                sp(Some("127.0.0.1"), None, (53, None), Some(Protocol::Other("x".into()))),
                sp(None, None, (9, Some(10)), None),
            ].into_iter().collect();
        });
        it!(v, t, "ports", "mixed", [
            l([i(1), m([("target", i(2)), ("mode", s("host"))]), s("3:4")]),
        ], {
            t.ports = [
                sp(None, None, (1, None), None),
                ShortOrLong::Long(Port { mode: Some(ports::Mode::Host), ..Port::new(2) }),
                sp(None, Some((3, None)), (4, None), None),
            ].into_iter().collect();
        });
        nothing!(v, "ports", "none", [l([])]);
        let inner = port();
        let base = inner.base.clone();
        lift(&mut v, &mut r, &inner, "ports", "long", true, under_list("ports"), move |t: &mut T, f| {
            let mut p = t.ports.shift_remove_index(0).unwrap_or_else(|| ShortOrLong::Long(base()));
            if let ShortOrLong::Long(p) = &mut p {
                f(p);
            }
            t.ports.insert(p);
        });
    }
    rej(&mut r, "ports", [i(1), s("1"), m::<&str>([]), l([i(-1)]), l([i(65_536)]), l([s("")]), l([s("a")]), l([s("2-1")]), l([s("1-2:3")]), l([s("1:2:3")]), l([Y::F(1.5)]), l([Y::B(true)]), l([l([])])]);

    it!(v, t, "profiles", "two", [ls(["z", "a.b"]), ls(["z", "a.b", "z"])], {
        t.profiles = [id("z"), id("a.b")].into_iter().collect();
    });
    nothing!(v, "profiles", "none", [l([])]);
    rej(&mut r, "profiles", bad_scalar_for_list().into_iter().chain(bad_id().into_iter().map(|y| l([y]))));
    it!(v, t, "pull_policy", "always", [s("always")], t.pull_policy = Some(service::PullPolicy::Always));
    it!(v, t, "pull_policy", "never", [s("never")], t.pull_policy = Some(service::PullPolicy::Never));
    it!(v, t, "pull_policy", "missing", [s("missing"), s("if_not_present")], t.pull_policy = Some(service::PullPolicy::Missing));
    it!(v, t, "pull_policy", "build", [s("build")], t.pull_policy = Some(service::PullPolicy::Build));
    rej(&mut r, "pull_policy", [s(""), s("Always"), s("if-not-present"), i(1), l([])]);
    it!(v, t, "restart", "no", [s("no")], t.restart = Some(service::Restart::No));
    it!(v, t, "restart", "always", [s("always")], t.restart = Some(service::Restart::Always));
    it!(v, t, "restart", "on-failure", [s("on-failure")], t.restart = Some(service::Restart::OnFailure));
    it!(v, t, "restart", "unless-stopped", [s("unless-stopped")], t.restart = Some(service::Restart::UnlessStopped));
    rej(&mut r, "restart", [s(""), s("No"), s("on_failure"), s("unless_stopped"), i(1), l([])]);
    let y = o([
        ("z", s("1G")),
        ("a.b", i(1)),
        ("e", Y::Null),
        ("t", Y::B(false)),
        ("f", Y::F(0.25)),
        ("n", i(-7)),
    ]);
    it!(v, t, "storage_opt", "six", [y], {
        t.storage_opt = [
            (mk("z"), Some(Value::String("1G".into()))),
            (mk("a.b"), Some(Value::Number(Number::UnsignedInt(1)))),
            (mk("e"), None),
            (mk("t"), Some(Value::Bool(false))),
            (mk("f"), Some(Value::Number(Number::Float(0.25)))),
            (mk("n"), Some(Value::Number(Number::SignedInt(-7)))),
        ].into_iter().collect();
    });
    nothing!(v, "storage_opt", "none", [m::<&str>([])]);
    rej(&mut r, "storage_opt", [s("a"), i(1), l([]), ls(["a=b"]), o([("a", l([]))]), o([("", s("a"))])]);
    it!(v, t, "tmpfs", "one", [s("/run")], t.tmpfs = Some(ItemOrList::Item(ap("/run"))));
    it!(v, t, "tmpfs", "two", [ls(["/z", "/a"]), ls(["/z", "/a", "/z"])], {
        t.tmpfs = Some(ItemOrList::List([ap("/z"), ap("/a")].into_iter().collect()));
    });
    rej(&mut r, "tmpfs", [s(""), s("a"), ls([""]), ls(["a"]), m::<&str>([])]);
    ulimits(&mut v, &mut r, "ulimits", |t| &mut t.ulimits);
    {
        let u = ulimit();
        let base = u.base.clone();
        lift(&mut v, &mut r, &u, "ulimits", "entry", true, under_map("ulimits", "nofile"), move |t: &mut T, f| {
            let e = t
                .ulimits
                .entry(service::Resource::new("nofile").expect("ulimit"))
                .or_insert_with(|| ShortOrLong::Long(base()));
            if let ShortOrLong::Long(u) = e {
                f(u);
            }
        });
    }
    it!(v, t, "user", "id", [s("1000")], {
        t.user = Some(User { user: IdOrName::Id(1000), group: None });
    });
    it!(v, t, "user", "both", [s("u_1:2000")], {
        t.user = Some(User { user: IdOrName::Name("u_1".parse().expect("name")), group: Some(IdOrName::Id(2000)) });
    });
    it!(v, t, "user", "names", [s("www-data:g$")], {
        t.user = Some(User {
            user: IdOrName::Name("www-data".parse().expect("name")),
            group: Some(IdOrName::Name("g$".parse().expect("name"))),
        });
    });
    rej(&mut r, "user", [s(""), s(":"), s("a:"), s(":a"), s("a:b:c"), s("a b"), s("-a"), i(-1), Y::F(1.5), l([]), m::<&str>([])]);

    {
        use volumes::{ShortOptions, ShortVolume, Source};
        let sv = |container: &str, source: Option<Source>, read_only, selinux| {
            ShortOrLong::Short(ShortVolume {
                container_path: ap(container),
                options: source.map(|source| ShortOptions { source, read_only, selinux }),
            })
        };
        let host = |t: &str| Some(Source::HostPath(hp(t)));
        let vol = |t: &str| Some(Source::Volume(id(t)));
        it!(v, t, "volumes", "short", [
            ls(["/anon", "zvol:/z", "./h:/a:ro,Z", "/abs/p:/b:z", "../x y:/c", "v.1:/d:ro", "./~:/e"]),
            ls(["/anon", "zvol:/z:rw", "./h:/a:Z,ro", "/anon", "/abs/p:/b:rw,z", "../x y:/c", "v.1:/d:ro", "./~:/e"]),
        ], {
            t.volumes = [
                sv("/anon", None, false, None),
                sv("/z", vol("zvol"), false, None),
                sv("/a", host("./h"), true, Some(SELinux::Private)),
                sv("/b", host("/abs/p"), false, Some(SELinux::Shared)),
                sv("/c", host("../x y"), false, None),
                sv("/d", vol("v.1"), true, None),
                sv("/e", host("./~"), false, None),
            ].into_iter().collect();
        });
        it!(v, t, "volumes", "mixed", [
            l([
                s("/anon"),
                m([("type", s("tmpfs")), ("target", s("/t"))]),
                s("zvol:/z"),
                m([("type", s("volume")), ("source", s("v2")), ("target", s("/t2"))]),
            ]),
        ], {
            t.volumes = [
                sv("/anon", None, false, None),
                ShortOrLong::Long(Mount::Tmpfs(mount::Tmpfs::new(mount::Common::new(ap("/t"))))),
                sv("/z", vol("zvol"), false, None),
                ShortOrLong::Long(Mount::Volume(mount::Volume {
                    source: Some(id("v2")),
                    ..mount::Volume::new(mount::Common::new(ap("/t2")))
                })),
            ].into_iter().collect();
        });
        nothing!(v, "volumes", "none", [l([])]);
        for inner in mount_() {
            let base = inner.base.clone();
            lift(&mut v, &mut r, &inner, "volumes", inner.name, true, under_list("volumes"), move |t: &mut T, f| {
                let mut x = t.volumes.shift_remove_index(0).unwrap_or_else(|| ShortOrLong::Long(base()));
                if let ShortOrLong::Long(x) = &mut x {
                    f(x);
                }
                t.volumes.insert(x);
            });
        }
    }
    rej(&mut r, "volumes", [s("/a"), i(1), m::<&str>([]), ls([""]), ls(["a"]), ls(["a:b"]), ls(["a b:/c"]), ls(["~/a:/c"]), ls(["a:/b:x"]), ls(["a:/b:ro,rw"]), ls(["a:/b:z,Z"]), ls(["a:/b:ro,ro"]), ls(["a:/b:"]), l([i(1)]), l([l([])])]);
    {
        use service::{VolumesFrom, VolumesFromSource as S};
        it!(v, t, "volumes_from", "four", [
            ls(["z", "a.b:ro", "container:c", "container:d:ro"]),
            ls(["z:rw", "a.b:ro", "z", "container:c:rw", "container:d:ro"]),
        ], {
            t.volumes_from = [
                VolumesFrom { source: S::Service(id("z")), read_only: false },
                VolumesFrom { source: S::Service(id("a.b")), read_only: true },
                VolumesFrom { source: S::Container(id("c")), read_only: false },
                VolumesFrom { source: S::Container(id("d")), read_only: true },
            ].into_iter().collect();
        });
    }
    nothing!(v, "volumes_from", "none", [l([])]);
    rej(&mut r, "volumes_from", [s("a"), ls([""]), ls(["a:b"]), ls(["container:"]), ls([":ro"]), ls(["a:ro:ro"]), m::<&str>([])]);
    it!(v, t, "working_dir", "a", [s("/w d")], t.working_dir = Some(ap("/w d")));
    rej(&mut r, "working_dir", bad_abs());
    exts(&mut v, |t| &mut t.extensions);
    schema("Service", v, r, None, true)
}

pub fn include() -> Schema<Include> {
    type T = Include;
    let mut v: Vec<Item<T>> = Vec::new();
    let mut r = Vec::new();
    string(&mut v, "project_directory", |t| &mut t.project_directory);
    it!(v, t, "env_file", "one", [s("./a.env")], t.env_file = Some(ItemOrList::Item(pb("./a.env"))));
    it!(v, t, "env_file", "two", [ls(["z.env", "a.env"]), ls(["z.env", "a.env", "z.env"])], {
        t.env_file = Some(ItemOrList::List([pb("z.env"), pb("a.env")].into_iter().collect()));
    });
    rej(&mut r, "path", [m::<&str>([]), l([l([])])]);
    rej(&mut r, "project_directory", bad_str());
    rej(&mut r, "env_file", [m::<&str>([]), l([l([])])]);
    based(
        "Include",
        || T {
            path: ItemOrList::List([pb("z.yaml"), pb("a.yaml")].into_iter().collect()),
            project_directory: None,
            env_file: None,
        },
        m([("path", ls(["z.yaml", "a.yaml"]))]),
        &["path"],
        v,
        r,
        false,
    )
}

pub fn ipam_config() -> Schema<network::IpamConfig> {
    type T = network::IpamConfig;
    let mut v: Vec<Item<T>> = Vec::new();
    let mut r = Vec::new();
    let net = |t: &str| -> ipnet::IpNet { t.parse().expect("net") };
    it!(v, t, "subnet", "4", [s("172.28.0.0/16")], t.subnet = Some(net("172.28.0.0/16")));
    it!(v, t, "subnet", "6", [s("2001:db8::/64")], t.subnet = Some(net("2001:db8::/64")));
    it!(v, t, "ip_range", "4", [s("172.28.5.0/24")], t.ip_range = Some(net("172.28.5.0/24")));
    it!(v, t, "gateway", "4", [s("172.28.5.254")], t.gateway = Some(ip("172.28.5.254")));
    it!(v, t, "aux_addresses", "two", [o([("zhost1", s("172.28.1.5")), ("ahost2", s("::1"))])], {
        t.aux_addresses = [(hn("zhost1"), ip("172.28.1.5")), (hn("ahost2"), ip("::1"))].into_iter().collect();
    });
    nothing!(v, "aux_addresses", "none", [m::<&str>([])]);
    exts(&mut v, |t| &mut t.extensions);
    for key in ["subnet", "ip_range"] {
        rej(&mut r, key, [s(""), s("1.2.3.4/33"), s("1.2.3/8"), s("::/129"), s("1.2.3.4/"), i(1), l([])]);
    }
    rej(&mut r, "gateway", [s(""), s("a"), s("1.2.3.4/8"), i(1), l([])]);
    rej(&mut r, "aux_addresses", [s("a"), l([]), o([("a b", s("1.1.1.1"))]), o([("a", s("x"))]), o([("a", Y::Null)])]);
    schema("IpamConfig", v, r, Some(T::is_empty), true)
}

pub fn ipam() -> Schema<network::Ipam> {
    type T = network::Ipam;
    let mut v: Vec<Item<T>> = Vec::new();
    let mut r = Vec::new();
    string(&mut v, "driver", |t| &mut t.driver);
    lift(&mut v, &mut r, &ipam_config(), "config", "one", false, under_list("config"), |t: &mut T, f| {
        if t.config.is_empty() {
            t.config.push(Default::default());
        }
        f(&mut t.config[0]);
    });
    it!(v, t, "config", "two", [l([m([("gateway", s("1.2.3.4"))]), m([("gateway", s("1.2.3.3"))])])], {
        t.config = ["1.2.3.4", "1.2.3.3"].into_iter().map(|g| network::IpamConfig { gateway: Some(ip(g)), ..Default::default() }).collect();
    });
    nothing!(v, "config", "none", [l([])]);
    it!(v, t, "options", "two", [o([("z", s("v")), ("a.b", s("1"))])], {
        t.options = [(mk("z"), "v".to_owned()), (mk("a.b"), "1".to_owned())].into_iter().collect();
    });
    nothing!(v, "options", "none", [m::<&str>([])]);
    exts(&mut v, |t| &mut t.extensions);
    rej(&mut r, "driver", bad_str());
    rej(&mut r, "config", [s("a"), m::<&str>([]), l([s("a")])]);
    rej(&mut r, "options", [s("a"), l([]), o([("", s("a"))]), o([("a", l([]))])]);
    schema("Ipam", v, r, Some(T::is_empty), true)
}

pub fn network_() -> Schema<Network> {
    type T = Network;
    let mut v: Vec<Item<T>> = Vec::new();
    let mut r = Vec::new();
    it!(v, t, "driver", "host", [s("host")], t.driver = Some(network::Driver::Host));
    it!(v, t, "driver", "none", [s("none")], t.driver = Some(network::Driver::None));
    it!(v, t, "driver", "other", [s("over lay")], t.driver = Some(network::Driver::Other("over lay".into())));
    opts_map(&mut v, "driver_opts", |t| &mut t.driver_opts);
    boolean(&mut v, "attachable", false, |t| &mut t.attachable);
    boolean(&mut v, "enable_ipv6", false, |t| &mut t.enable_ipv6);
    lift(&mut v, &mut r, &ipam(), "ipam", "", false, under("ipam"), |t: &mut T, f| {
        f(t.ipam.get_or_insert_with(Default::default));
    });
    boolean(&mut v, "internal", false, |t| &mut t.internal);
    lom(&mut v, "labels", |t| &mut t.labels);
    string(&mut v, "name", |t| &mut t.name);
    exts(&mut v, |t| &mut t.extensions);
    rej(&mut r, "driver", bad_str());
    rej_opts(&mut r, "driver_opts");
    for key in ["attachable", "enable_ipv6", "internal"] {
        rej(&mut r, key, bad_bool());
    }
    rej(&mut r, "ipam", [s("a"), i(1), l([])]);
    rej(&mut r, "labels", bad_lom());
    rej(&mut r, "name", bad_str());
    schema("Network", v, r, Some(T::is_empty), true)
}

pub fn volume() -> Schema<Volume> {
    type T = Volume;
    let mut v: Vec<Item<T>> = Vec::new();
    let mut r = Vec::new();
    string(&mut v, "driver", |t| &mut t.driver);
    opts_map(&mut v, "driver_opts", |t| &mut t.driver_opts);
    lom(&mut v, "labels", |t| &mut t.labels);
    string(&mut v, "name", |t| &mut t.name);
    exts(&mut v, |t| &mut t.extensions);
    rej(&mut r, "driver", bad_str());
    rej_opts(&mut r, "driver_opts");
    rej(&mut r, "labels", bad_lom());
    rej(&mut r, "name", bad_str());
    schema("Volume", v, r, Some(T::is_empty), true)
}

/// One schema per kind of source: one source is required.
fn sources<T: 'static>(v: Vec<Item<T>>, r: Vec<Reject>, kinds: Vec<(&'static str, &'static str, Y, Arc<dyn Fn() -> T + Send + Sync>)>) -> Vec<Schema<T>> {
    kinds
        .into_iter()
        .map(|(name, key, y, base)| Schema {
            name,
            base,
            base_doc: m([(key, y.clone())]),
            base_out: m([(key, y)]),
            items: v.clone(),
            rejects: {
                let mut r = r.clone();
                rej(&mut r, key, bad_str());
                r
            },
            is_empty: None,
            required: vec![key],
            extensible: true,
        })
        .collect()
}

pub fn config_() -> Vec<Schema<Config>> {
    type T = Config;
    let mut v: Vec<Item<T>> = Vec::new();
    let mut r = Vec::new();
    lom(&mut v, "labels", |t| &mut t.labels);
    exts(&mut v, |t| &mut t.extensions);
    rej(&mut r, "labels", bad_lom());
    use config::Source as S;
    sources(
        v,
        r,
        vec![
            ("Config (file)", "file", s("./f.txt"), Arc::new(|| S::File(pb("./f.txt")).into())),
            ("Config (environment)", "environment", s("VAR"), Arc::new(|| S::Environment("VAR".into()).into())),
            ("Config (content)", "content", s("a: b\n # c\n"), Arc::new(|| S::Content("a: b\n # c\n".into()).into())),
        ],
    )
}

pub fn secret_() -> Vec<Schema<Secret>> {
    type T = Secret;
    let mut v: Vec<Item<T>> = Vec::new();
    let mut r = Vec::new();
    lom(&mut v, "labels", |t| &mut t.labels);
    string(&mut v, "driver", |t| &mut t.driver);
    opts_map(&mut v, "driver_opts", |t| &mut t.driver_opts);
    exts(&mut v, |t| &mut t.extensions);
    rej(&mut r, "labels", bad_lom());
    rej(&mut r, "driver", bad_str());
    rej_opts(&mut r, "driver_opts");
    use secret::Source as S;
    sources(
        v,
        r,
        vec![
            ("Secret (file)", "file", s("./f.txt"), Arc::new(|| S::File(pb("./f.txt")).into())),
            ("Secret (environment)", "environment", s("VAR"), Arc::new(|| S::Environment("VAR".into()).into())),
        ],
    )
}

/// `Resource<U>` of a schema: the local form (`external: false` changes nothing).
fn local<U: 'static>(name: &'static str, inner: &Schema<U>) -> Schema<Resource<U>> {
    let base = inner.base.clone();
    let mut items: Vec<Item<Resource<U>>> = inner
        .items
        .iter()
        .map(|x| {
            let set = x.set.clone();
            Item {
                name: x.name.clone(),
                groups: x.groups.clone(),
                forms: x.forms.clone(),
                out: x.out.clone(),
                nonempty: x.nonempty,
                set: Arc::new(move |t: &mut Resource<U>| {
                    if let Resource::Compose(u) = t {
                        set(u);
                    }
                }) as Setter<Resource<U>>,
            }
        })
        .collect();
    put(&mut items, "external", "false", vec![Y::B(false)], None, false, |_| {});
    let mut rejects = inner.rejects.clone();
    rej(&mut rejects, "external", bad_bool());
    for x in inner.items.iter().filter(|x| !x.name.starts_with("name=")) {
        for form in &x.forms {
            let mut doc = form.clone();
            doc.merge(&m([("external", Y::B(true))]));
            rejects.push(Reject {
                name: format!("external with {}", x.name),
                groups: x.groups.iter().cloned().chain([("external".into(), "true".into()), ("name".into(), "!".into())]).collect(),
                doc,
            });
        }
    }
    Schema {
        name,
        base: Arc::new(move || Resource::Compose(base())),
        base_doc: inner.base_doc.clone(),
        base_out: inner.base_out.clone(),
        items,
        rejects,
        is_empty: None,
        required: inner.required.clone(),
        extensible: inner.extensible,
    }
}
fn external<U: 'static>(name: &'static str) -> Schema<Resource<U>> {
    let mut v: Vec<Item<Resource<U>>> = Vec::new();
    let mut r = Vec::new();
    it!(v, t, "name", "a", [s("my net")], *t = Resource::External { name: Some("my net".into()) });
    it!(v, t, "name", "num", [s("12")], *t = Resource::External { name: Some("12".into()) });
    rej(&mut r, "name", bad_str());
    rej(&mut r, "x-a", [i(1)]);
    rej(&mut r, "labels", [l([]), m::<&str>([])]);
    rej(&mut r, "other", [i(1), Y::Null]);
    rej(&mut r, "driver", [s("a")]);
    rej(&mut r, "file", [s("a")]);
    based(
        name,
        || Resource::External { name: None },
        m([("external", Y::B(true))]),
        &[],
        v,
        r,
        false,
    )
}
pub fn network_resource() -> Vec<Schema<Resource<Network>>> {
    vec![local("Resource<Network>", &network_()), external("Resource<Network> (external)")]
}
pub fn volume_resource() -> Vec<Schema<Resource<Volume>>> {
    vec![local("Resource<Volume>", &volume()), external("Resource<Volume> (external)")]
}
pub fn config_resource() -> Vec<Schema<Resource<Config>>> {
    let mut v: Vec<_> = ["Resource<Config> (file)", "Resource<Config> (environment)", "Resource<Config> (content)"]
        .into_iter()
        .zip(config_())
        .map(|(n, c)| local(n, &c))
        .collect();
    v.push(external("Resource<Config> (external)"));
    v
}
pub fn secret_resource() -> Vec<Schema<Resource<Secret>>> {
    let mut v: Vec<_> = ["Resource<Secret> (file)", "Resource<Secret> (environment)"]
        .into_iter()
        .zip(secret_())
        .map(|(n, c)| local(n, &c))
        .collect();
    v.push(external("Resource<Secret> (external)"));
    v
}

pub fn compose() -> Schema<Compose> {
    type T = Compose;
    let mut v: Vec<Item<T>> = Vec::new();
    let mut r = Vec::new();
    it!(v, t, "version", "a", [s("3.8")], t.version = Some("3.8".into()));
    it!(v, t, "version", "odd", [s("")], t.version = Some(String::new()));
    it!(v, t, "name", "a", [s("my_app-1")], t.name = Some(Name::new("my_app-1").expect("name")));
    it!(v, t, "include", "three", [l([
        s("z.yaml"),
        m([("path", s("a.yaml")), ("project_directory", s(".."))]),
        s("z.yaml"),
    ])], {
        t.include = vec![
            ShortOrLong::Short(pb("z.yaml")),
            ShortOrLong::Long(Include { path: ItemOrList::Item(pb("a.yaml")), project_directory: Some("..".into()), env_file: None }),
            ShortOrLong::Short(pb("z.yaml")),
        ];
    });
    nothing!(v, "include", "none", [l([])]);
    {
        let inner = include();
        let base = inner.base.clone();
        lift(&mut v, &mut r, &inner, "include", "long", true, under_list("include"), move |t: &mut T, f| {
            if t.include.is_empty() {
                t.include.push(ShortOrLong::Long(base()));
            }
            if let ShortOrLong::Long(x) = &mut t.include[0] {
                f(x);
            }
        });
    }
    // One nested value of each kind; their attributes are explored on their own types.
    it!(v, t, "services", "three", [o([
        ("z", m([("image", s("a"))])),
        ("a.b", m::<&str>([])),
        ("m-1_x", m([("scale", i(2)), ("x-s", s("t"))])),
    ])], {
        t.services = [
            (id("z"), Service { image: Some(im("a")), ..Service::default() }),
            (id("a.b"), Service::default()),
            (id("m-1_x"), Service {
                scale: Some(2),
                extensions: [(ek("x-s"), YamlValue::from("t"))].into_iter().collect(),
                ..Service::default()
            }),
        ].into_iter().collect();
    });
    it!(v, t, "networks", "four", [o([
        ("z", Y::Null),
        ("a.b", m::<&str>([])),
        ("e", m([("external", Y::B(true)), ("name", s("n"))])),
        ("d", m([("driver", s("host")), ("x-n", i(1))])),
    ])], {
        t.networks = [
            (id("z"), None),
            (id("a.b"), Some(Resource::Compose(Network::default()))),
            (id("e"), Some(Resource::External { name: Some("n".into()) })),
            (id("d"), Some(Resource::Compose(Network {
                driver: Some(network::Driver::Host),
                extensions: [(ek("x-n"), YamlValue::from(1))].into_iter().collect(),
                ..Network::default()
            }))),
        ].into_iter().collect();
    });
    nothing!(v, "networks", "none", [m::<&str>([])]);
    it!(v, t, "volumes", "four", [o([
        ("z", Y::Null),
        ("a.b", m::<&str>([])),
        ("e", m([("external", Y::B(true))])),
        ("d", m([("driver", s("host")), ("x-n", i(1))])),
    ])], {
        t.volumes = [
            (id("z"), None),
            (id("a.b"), Some(Resource::Compose(Volume::default()))),
            (id("e"), Some(Resource::External { name: None })),
            (id("d"), Some(Resource::Compose(Volume {
                driver: Some("host".into()),
                extensions: [(ek("x-n"), YamlValue::from(1))].into_iter().collect(),
                ..Volume::default()
            }))),
        ].into_iter().collect();
    });
    nothing!(v, "volumes", "none", [m::<&str>([])]);
    it!(v, t, "configs", "three", [o([
        ("z", m([("file", s("f"))])),
        ("e", m([("external", Y::B(true))])),
        ("a.b", m([("content", s("c")), ("x-n", i(1))])),
    ])], {
        t.configs = [
            (id("z"), Resource::Compose(config::Source::File(pb("f")).into())),
            (id("e"), Resource::External { name: None }),
            (id("a.b"), Resource::Compose(Config {
                extensions: [(ek("x-n"), YamlValue::from(1))].into_iter().collect(),
                ..config::Source::Content("c".into()).into()
            })),
        ].into_iter().collect();
    });
    nothing!(v, "configs", "none", [m::<&str>([])]);
    it!(v, t, "secrets", "three", [o([
        ("z", m([("file", s("f"))])),
        ("e", m([("external", Y::B(true)), ("name", s("q"))])),
        ("a.b", m([("environment", s("c")), ("driver", s("d"))])),
    ])], {
        t.secrets = [
            (id("z"), Resource::Compose(secret::Source::File(pb("f")).into())),
            (id("e"), Resource::External { name: Some("q".into()) }),
            (id("a.b"), Resource::Compose(Secret {
                driver: Some("d".into()),
                ..secret::Source::Environment("c".into()).into()
            })),
        ].into_iter().collect();
    });
    nothing!(v, "secrets", "none", [m::<&str>([])]);
    exts(&mut v, |t| &mut t.extensions);
    rej(&mut r, "version", bad_str());
    rej(&mut r, "name", bad_str());
    rej(&mut r, "name", [s(""), s("A"), s("-a"), s("_a"), s("a.b"), s("a b"), s("é")]);
    rej(&mut r, "include", [s("a"), i(1), m::<&str>([]), l([l([])]), l([m::<&str>([])])]);
    let bad_ids = ["", "-a", "a b", "a/b", "é", ".a"];
    let kinds = ["services", "networks", "volumes", "configs", "secrets"];
    for key in kinds {
        rej(&mut r, key, [s("a"), i(1), l([]), l([m::<&str>([])]), o([("a", s("b"))]), o([("a", l([]))]), o([("a", i(1))])]);
        let good = if key == "configs" || key == "secrets" { m([("file", s("f"))]) } else { m::<&str>([]) };
        rej(&mut r, key, bad_ids.iter().map(|k| o([(*k, good.clone())])));
        rej(&mut r, key, [o([("a", m([("unknown_key", i(1))]))]), o([("ok", good.clone()), ("a", m([("unknown_key", i(1))]))])]);
        if key == "configs" || key == "secrets" {
            rej(&mut r, key, [o([("a", Y::Null)]), o([("a", m::<&str>([]))]), o([("a", m([("file", s("a")), ("environment", s("b"))]))])]);
        }
    }
    Schema {
        name: "Compose",
        base: Arc::new(T::default),
        base_doc: m([("services", o::<&str>([]))]),
        base_out: m([("services", o::<&str>([]))]),
        items: v,
        rejects: r,
        is_empty: None,
        required: vec!["services"],
        extensible: true,
    }
}

pub fn discrete_resource() -> Schema<resources::DiscreteResourceSpec> {
    let mut v: Vec<Item<resources::DiscreteResourceSpec>> = Vec::new();
    let mut r = Vec::new();
    string(&mut v, "kind", |t| &mut t.kind);
    number(&mut v, "value", |t| &mut t.value);
    exts(&mut v, |t| &mut t.extensions);
    rej(&mut r, "kind", bad_str());
    rej(&mut r, "value", bad_u64());
    schema("DiscreteResourceSpec", v, r, Some(resources::DiscreteResourceSpec::is_empty), true)
}

pub fn preference() -> Schema<deploy::Preference> {
    let mut v: Vec<Item<deploy::Preference>> = Vec::new();
    let mut r = Vec::new();
    string(&mut v, "spread", |t| &mut t.spread);
    exts(&mut v, |t| &mut t.extensions);
    rej(&mut r, "spread", bad_str());
    schema("Preference", v, r, Some(deploy::Preference::is_empty), true)
}

pub fn volume_options() -> Schema<mount::VolumeOptions> {
    let mut v: Vec<Item<mount::VolumeOptions>> = Vec::new();
    let mut r = Vec::new();
    boolean(&mut v, "nocopy", false, |t| &mut t.nocopy);
    it!(v, t, "subpath", "a", [s("sub/p")], t.subpath = Some(pb("sub/p")));
    exts(&mut v, |t| &mut t.extensions);
    rej(&mut r, "nocopy", bad_bool());
    rej(&mut r, "subpath", bad_str());
    schema("VolumeOptions", v, r, Some(mount::VolumeOptions::is_empty), true)
}

pub fn bind_options() -> Schema<mount::BindOptions> {
    let mut v: Vec<Item<mount::BindOptions>> = Vec::new();
    let mut r = Vec::new();
    for (t, p) in [
        ("private", mount::BindPropagation::Private),
        ("shared", mount::BindPropagation::Shared),
        ("slave", mount::BindPropagation::Slave),
        ("unbindable", mount::BindPropagation::Unbindable),
        ("rprivate", mount::BindPropagation::RPrivate),
        ("rshared", mount::BindPropagation::RShared),
        ("rslave", mount::BindPropagation::RSlave),
        ("runbindable", mount::BindPropagation::RUnbindable),
    ] {
        put(&mut v, "propagation", t, vec![s(t)], Some(s(t)), true, move |x: &mut mount::BindOptions| x.propagation = Some(p));
    }
    boolean(&mut v, "create_host_path", false, |t| &mut t.create_host_path);
    it!(v, t, "selinux", "z", [s("z")], t.selinux = Some(SELinux::Shared));
    it!(v, t, "selinux", "Z", [s("Z")], t.selinux = Some(SELinux::Private));
    exts(&mut v, |t| &mut t.extensions);
    rej(&mut r, "propagation", [s(""), s("Private"), s("r-private"), i(1), l([])]);
    rej(&mut r, "create_host_path", bad_bool());
    rej(&mut r, "selinux", [s(""), s("shared"), s("zZ"), i(1), l([])]);
    schema("BindOptions", v, r, Some(mount::BindOptions::is_empty), true)
}

pub fn tmpfs_options() -> Schema<mount::TmpfsOptions> {
    let mut v: Vec<Item<mount::TmpfsOptions>> = Vec::new();
    let mut r = Vec::new();
    bytes(&mut v, "size", |t| &mut t.size);
    it!(v, t, "mode", "0", [i(0)], t.mode = Some(0));
    it!(v, t, "mode", "755", [i(0o755), raw("0o755")], t.mode = Some(0o755));
    it!(v, t, "mode", "max", [i(u32::MAX)], t.mode = Some(u32::MAX));
    exts(&mut v, |t| &mut t.extensions);
    rej(&mut r, "size", bad_bytes());
    rej(&mut r, "mode", bad_u32());
    schema("TmpfsOptions", v, r, Some(mount::TmpfsOptions::is_empty), true)
}
