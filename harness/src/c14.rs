//! C14: all pairs of values of each type are compared, hashed and ordered, and compared with all strings; all sets of
//! keys up to a size are searched for all strings.
use std::{
    borrow::Borrow,
    cmp::Ordering,
    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
    fmt::{Debug, Display},
    hash::{DefaultHasher, Hash, Hasher},
    num::NonZeroU16,
    path::{Path, PathBuf},
    str::FromStr,
};

use compose_spec::{
    network::Driver,
    service::{
        blkio_config::Weight,
        build::{Cache, CacheOption, CacheType, Context, Network as BuildNetwork, SshAuth, SshAuthId},
        deploy::{resources::{Capability, Count}, EndpointMode},
        device::{CgroupRule, Device, Kind, MajorMinorNumber, Permissions},
        healthcheck::Test,
        image::{Digest, Name as ImageName, Tag, TagOrDigest},
        network_config::NetworkMode,
        platform::{Arch, Os, Platform},
        ports::{Mode, Protocol, Range, ShortPort, ShortRanges},
        user::{IdOrName, Name as UserName, User},
        volumes::{mount::BindPropagation, HostPath, SELinux, ShortVolume, Source},
        AbsolutePath, ByteValue, CpuSet, Cpus, Expose, Hostname, Image, Ipc, Limit, Link, MacAddress,
        OomScoreAdj, Percent, Resource as UlimitResource, VolumesFrom, VolumesFromSource,
    },
    ExtensionKey, Identifier, ItemOrList, ListOrMap, MapKey, Name, Number, ShortOrLong, StringOrNumber, Value,
};
use indexmap::{IndexMap, IndexSet};
use serde::de::DeserializeOwned;
use serde_yaml::Value as Yaml;

use crate::{
    doc::{each, Doc, Visit},
    engine::Ctx,
    schema::{self as sc, Schema},
};

pub const ASSUME: &[&str] = &[
    "values which are not equal to themselves (NaN) are left out",
    "two values of a schema type whose written documents differ by more than the order of list items and mapping keys are different values (C01 checks that the document determines the value)",
    "values constructed with a reserved word in their catch-all variant are left out",
    "hashing feeds the hasher the same bytes; how they are split into writes is not judged",
];

/// Records what is hashed.
#[derive(Default)]
struct Record(Vec<u8>);

impl Hasher for Record {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, bytes: &[u8]) {
        self.0.extend_from_slice(bytes);
    }
}

type Hashed = (u64, Vec<u8>);

fn hashed<T: Hash + ?Sized>(t: &T) -> Hashed {
    let mut d = DefaultHasher::new();
    t.hash(&mut d);
    let mut r = Record::default();
    t.hash(&mut r);
    (d.finish(), r.0)
}

fn check(ok: bool, what: impl FnOnce() -> String) -> Result<(), String> {
    if ok {
        Ok(())
    } else {
        Err(what())
    }
}

/// Every pair is equal exactly when the identities are.
fn equal<K, T>(ctx: &Ctx, name: &str, pool: &[(K, T)])
where
    K: PartialEq + Debug + Sync,
    T: PartialEq + Debug + Sync,
{
    ctx.part(&format!("{name}: pairs compared"), (pool.len() * pool.len()) as u64);
    ctx.add_states(pool.len() as u64);
    ctx.add_transitions((pool.len() * pool.len()) as u64);
    ctx.par(pool.len(), |i| {
        let (k, a) = &pool[i];
        ctx.case(
            || format!("{name} {k:?} == all"),
            || {
                for (l, b) in pool {
                    let want = k == l;
                    check((a == b) == want, || format!("{a:?} == {b:?} ({l:?}) is {}", !want))?;
                    #[allow(clippy::nonminimal_bool)]
                    check((a != b) != want, || format!("{a:?} != {b:?} ({l:?}) is {want}"))?;
                }
                Ok(())
            },
        );
    });
}

/// Equal values hash alike.
fn hash<K, T>(ctx: &Ctx, name: &str, pool: &[(K, T)])
where
    K: Debug + Sync,
    T: Eq + Hash + Debug + Sync + Send,
{
    let hashes: Vec<Hashed> = pool.iter().map(|x| hashed(&x.1)).collect();
    ctx.part(&format!("{name}: hashes"), pool.len() as u64);
    ctx.par(pool.len(), |i| {
        let (k, a) = &pool[i];
        ctx.case(
            || format!("{name} hash {k:?}"),
            || {
                for (j, (l, b)) in pool.iter().enumerate() {
                    if a == b {
                        check(hashes[i] == hashes[j], || format!("equal to {l:?}, but they hash {:?} and {:?}", hashes[i], hashes[j]))?;
                    }
                }
                check(hashed(a) == hashes[i], || "hashes differently the second time".into())
            },
        );
    });
    ctx.case(
        || format!("{name} set"),
        || {
            let set: HashSet<&T> = pool.iter().map(|x| &x.1).collect();
            let index: IndexSet<&T> = pool.iter().map(|x| &x.1).collect();
            for (k, a) in pool {
                check(set.contains(a) && index.contains(a), || format!("{k:?} is not found in a set with it"))?;
            }
            let mut n = 0;
            for (i, x) in pool.iter().enumerate() {
                n += usize::from(pool[..i].iter().all(|y| y.1 != x.1));
            }
            check(set.len() == n && index.len() == n, || format!("a set of {n} values has {} and {}", set.len(), index.len()))
        },
    );
}

/// `Ord` is a total order which agrees with everything else.
fn order<K, T>(ctx: &Ctx, name: &str, pool: &[(K, T)], want: Option<fn(&K, &K) -> Ordering>, triples: usize)
where
    K: Debug + Sync,
    T: Ord + Debug + Sync,
{
    ctx.part(&format!("{name}: pairs ordered"), (pool.len() * pool.len()) as u64);
    ctx.add_transitions((pool.len() * pool.len()) as u64);
    ctx.par(pool.len(), |i| {
        let (k, a) = &pool[i];
        ctx.case(
            || format!("{name} {k:?} <=> all"),
            || {
                for (l, b) in pool {
                    let c = a.cmp(b);
                    if let Some(want) = want {
                        check(c == want(k, l), || format!("{c:?} to {l:?}, should be {:?}", want(k, l)))?;
                    }
                    check((c == Ordering::Equal) == (a == b), || format!("{c:?} to {l:?}, but == is {}", a == b))?;
                    check(b.cmp(a) == c.reverse(), || format!("{c:?} to {l:?}, which is {:?} to it", b.cmp(a)))?;
                    partial(a, b, Some(c)).map_err(|e| format!("{l:?}: {e}"))?;
                }
                Ok(())
            },
        );
    });
    let t = &pool[..pool.len().min(triples)];
    ctx.part(&format!("{name}: triples ordered"), (t.len() * t.len() * t.len()) as u64);
    ctx.par(t.len(), |i| {
        let (k, a) = &t[i];
        ctx.case(
            || format!("{name} {k:?} transitive"),
            || {
                for (l, b) in t {
                    let c = a.cmp(b);
                    for (m, d) in t {
                        if c == b.cmp(d) {
                            check(a.cmp(d) == c, || format!("{c:?} to {l:?}, which is {c:?} to {m:?}, but {:?} to it", a.cmp(d)))?;
                        }
                    }
                }
                Ok(())
            },
        );
    });
    ctx.case(
        || format!("{name} sort"),
        || {
            let mut v: Vec<&T> = pool.iter().map(|x| &x.1).collect();
            v.sort();
            check(v.windows(2).all(|w| w[0] <= w[1]), || "sorting does not sort".into())?;
            let set: BTreeSet<&T> = v.iter().copied().collect();
            check(pool.iter().all(|x| set.contains(&x.1)), || "a value is not found in an ordered set with it".into())
        },
    );
}

/// The operators agree with `partial_cmp`.
#[allow(clippy::neg_cmp_op_on_partial_ord)]
fn partial<A: PartialOrd<B> + ?Sized, B: ?Sized>(a: &A, b: &B, want: Option<Ordering>) -> Result<(), String> {
    let p = a.partial_cmp(b);
    check(p == want, || format!("partial_cmp is {p:?}, should be {want:?}"))?;
    check((a < b) == (want == Some(Ordering::Less)), || format!("< is {}", a < b))?;
    check((a > b) == (want == Some(Ordering::Greater)), || format!("> is {}", a > b))?;
    check((a <= b) == matches!(want, Some(Ordering::Less | Ordering::Equal)), || format!("<= is {}", a <= b))?;
    check((a >= b) == matches!(want, Some(Ordering::Greater | Ordering::Equal)), || format!(">= is {}", a >= b))?;
    check((a == b) == (want == Some(Ordering::Equal)), || format!("== is {}", a == b))?;
    #[allow(clippy::nonminimal_bool)]
    check((a != b) != (want == Some(Ordering::Equal)), || format!("!= is {}", a != b))
}

/// Values which can be borrowed as strings: hash as the strings do.
fn borrowed<T>(ctx: &Ctx, name: &str, pool: &[(String, T)])
where
    T: Borrow<str> + AsRef<str> + Display + Hash + Ord + Debug + Sync,
{
    ctx.par(pool.len(), |i| {
        let (k, a) = &pool[i];
        ctx.case(
            || format!("{name} {k:?} borrowed"),
            || {
                let s: &str = a.borrow();
                check(s == k, || format!("borrowed as {s:?}"))?;
                let r: &str = a.as_ref();
                check(r == k, || format!("as_ref is {r:?}"))?;
                check(a.to_string() == *k, || format!("prints as {a}"))?;
                check(hashed(a) == hashed(k.as_str()), || format!("hashes {:?}, the string {:?}", hashed(a), hashed(k.as_str())))
            },
        );
    });
}

/// Compared with strings.
fn with_str<T>(ctx: &Ctx, name: &str, pool: &[(String, T)], words: &[String])
where
    T: PartialEq<str> + for<'a> PartialEq<&'a str> + Debug + Sync,
{
    ctx.part(&format!("{name}: compared with strings"), (pool.len() * words.len()) as u64);
    ctx.add_transitions((pool.len() * words.len()) as u64);
    ctx.par(pool.len(), |i| {
        let (k, a) = &pool[i];
        ctx.case(
            || format!("{name} {k:?} == strings"),
            || {
                for w in words {
                    let w = w.as_str();
                    let want = k == w;
                    check(PartialEq::<str>::eq(a, w) == want, || format!("== str {w:?} is {}", !want))?;
                    check(PartialEq::<str>::ne(a, w) != want, || format!("!= str {w:?} is {want}"))?;
                    check(PartialEq::<&str>::eq(a, &w) == want, || format!("== &str {w:?} is {}", !want))?;
                    check(PartialEq::<&str>::ne(a, &w) != want, || format!("!= &str {w:?} is {want}"))?;
                }
                Ok(())
            },
        );
    });
}

/// All maps of some of the keys, searched for all strings.
fn lookups<T>(ctx: &Ctx, name: &str, pool: &[(String, T)], words: &[String], size: usize)
where
    T: Borrow<str> + Hash + Ord + Clone + Debug + Sync,
{
    let mut keys: Vec<&(String, T)> = Vec::new();
    for x in pool {
        if keys.len() < size && keys.iter().all(|k| k.0 != x.0) {
            keys.push(x);
        }
    }
    ctx.part(&format!("{name}: maps searched"), 1 << keys.len());
    ctx.add_states(1 << keys.len());
    ctx.par(1 << keys.len(), |bits| {
        let have: Vec<&(String, T)> = (0..keys.len()).filter(|b| bits >> b & 1 == 1).map(|b| keys[b]).collect();
        ctx.case(
            || format!("{name} map of {:?}", have.iter().map(|k| &k.0).collect::<Vec<_>>()),
            || {
                let mut h = HashMap::new();
                let mut b = BTreeMap::new();
                let mut x = IndexMap::new();
                let mut s = IndexSet::new();
                let mut t = BTreeSet::new();
                for (n, (_, k)) in have.iter().enumerate() {
                    h.insert(k.clone(), n);
                    b.insert(k.clone(), n);
                    x.insert(k.clone(), n);
                    s.insert(k.clone());
                    t.insert(k.clone());
                }
                for w in words {
                    let w = w.as_str();
                    let want = have.iter().position(|k| k.0 == w);
                    check(h.get(w).copied() == want, || format!("HashMap::get({w:?}) is {:?}, should be {want:?}", h.get(w)))?;
                    check(b.get(w).copied() == want, || format!("BTreeMap::get({w:?}) is {:?}, should be {want:?}", b.get(w)))?;
                    check(x.get(w).copied() == want, || format!("IndexMap::get({w:?}) is {:?}, should be {want:?}", x.get(w)))?;
                    check(s.get_index_of(w) == want, || format!("IndexSet::get_index_of({w:?}) is {:?}, should be {want:?}", s.get_index_of(w)))?;
                    check(t.contains(w) == want.is_some(), || format!("BTreeSet::contains({w:?}) is {}", want.is_none()))?;
                }
                Ok(())
            },
        );
    });
}

fn words(alphabet: &[&str], len: usize) -> Vec<String> {
    let mut all = vec![String::new()];
    let mut last = all.clone();
    for _ in 0..len {
        last = last.iter().flat_map(|w| alphabet.iter().map(move |a| format!("{w}{a}"))).collect();
        all.extend(last.iter().cloned());
    }
    all
}

fn str_cmp(a: &String, b: &String) -> Ordering {
    a.as_bytes().cmp(b.as_bytes())
}

/// Everything for a type which is a string.
macro_rules! text {
    ($ctx:expr, $name:expr, $t:ty, $make:expr, $alphabet:expr, $len:expr, $more:expr) => {{
        let ctx: &Ctx = $ctx;
        let mut all = words($alphabet, ctx.pick($len, $len + 1));
        all.extend($more.iter().map(|s: &&str| s.to_string()));
        all.sort();
        all.dedup();
        let all: &'static [String] = Box::leak(all.into_boxed_slice());
        let mut pool: Vec<(String, $t)> = Vec::new();
        // longest first, so that the pool starts with varied values
        for w in all {
            #[allow(clippy::redundant_closure_call)]
            for t in ($make)(w.as_str()) {
                pool.push((w.clone(), t));
            }
        }
        spread(&mut pool);
        equal(ctx, $name, &pool);
        hash(ctx, $name, &pool);
        order(ctx, $name, &pool, Some(str_cmp), ctx.pick(100, 250));
        borrowed(ctx, $name, &pool);
        with_str(ctx, $name, &pool, all);
        lookups(ctx, $name, &pool, all, ctx.pick(8, 12));
        ctx.outcome(&format!("values of {}", $name), pool.len() as u64);
    }};
}

/// Reorder so that a prefix is spread over all of it.
fn spread<X>(v: &mut Vec<X>) {
    let n = v.len();
    if n < 3 {
        return;
    }
    let mut step = n * 382 / 1000 + 1;
    while gcd(step, n) != 1 {
        step += 1;
    }
    let mut at: Vec<Option<X>> = v.drain(..).map(Some).collect();
    let mut i = 0;
    for _ in 0..n {
        v.push(at[i].take().unwrap());
        i = (i + step) % n;
    }
}

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

/// By each way of making one.
macro_rules! made {
    ($t:ty) => {
        |w: &str| -> Vec<$t> {
            let mut v: Vec<$t> = Vec::new();
            v.extend(w.parse::<$t>().ok());
            v.extend(<$t>::try_from(String::from(w)).ok());
            v.extend(serde_yaml::from_value::<$t>(Yaml::String(w.into())).ok());
            v
        }
    };
}

fn keys(ctx: &Ctx) {
    let none: [&str; 0] = [];
    text!(ctx, "Identifier", Identifier, made!(Identifier), &["a", "A", "0", "b", "-", "_", "."], 3, ["abc-def", "ABC-def", "abc_def", "a.b.c.d.e"]);
    text!(ctx, "MapKey", MapKey, made!(MapKey), &["a", "A", "=", " ", "é", "e\u{301}", "0"], 3, ["KEY", "key", "\u{1F600}", "\u{FFFF}"]);
    text!(
        ctx,
        "ExtensionKey",
        ExtensionKey,
        made!(ExtensionKey),
        &["x-", "a", "A", "é", " ", "x"],
        4,
        ["x-a", "x-A", "x-x-a", "x-", "X-a", "x_a"]
    );
    text!(ctx, "Hostname", Hostname, made!(Hostname), &["a", "A", "0", "b", "-", "."], 4, ["example.com", "EXAMPLE.com", "example-com"]);
    text!(ctx, "user::Name", UserName, made!(UserName), &["a", "A", "0", "_", "-", "b"], 3, ["root", "ROOT"]);
    text!(ctx, "ulimit::Resource", UlimitResource, made!(UlimitResource), &["a", "b", "z", "A"], 4, ["nofile", "nofiles"]);
    text!(ctx, "CacheOption", CacheOption, made!(CacheOption), &["a", "A", "0", "é", "-", "/"], 3, none);
    text!(
        ctx,
        "image::Name",
        ImageName<'static>,
        |w: &'static str| ImageName::new(w).into_iter().chain(ImageName::try_from(w)).collect::<Vec<_>>(),
        &["a", "b", "0", "/", ".", "_", "-", "a.b/"],
        3,
        ["localhost/a", "quay.io:80/a", "quay.io:81/a", "quay.io:080/a", "quay.io/a/b", "quay.io/a", "b/a", "a__b", "a_b"]
    );
    text!(
        ctx,
        "image::Tag",
        Tag<'static>,
        |w: &'static str| Tag::new(w).into_iter().chain(Tag::try_from(w)).collect::<Vec<_>>(),
        &["a", "A", "0", "_", "-", "."],
        3,
        ["latest", "Latest"]
    );
    let zeros = "a".repeat(64);
    let hex: &'static str = Box::leak(format!("sha256:{zeros}").into_boxed_str());
    let hex2: &'static str = Box::leak(format!("sha256:{}b", &zeros[1..]).into_boxed_str());
    text!(
        ctx,
        "image::Digest",
        Digest<'static>,
        |w: &'static str| Digest::new(w).into_iter().chain(Digest::try_from(w)).collect::<Vec<_>>(),
        &["a", "b", ":", "A", "=", "+", "a:"],
        4,
        [hex, hex2]
    );
    let shas: Vec<String> = [hex, hex2].iter().flat_map(|d| ["a", "b/a"].map(|n| format!("{n}@{d}"))).collect();
    let shas: Vec<&'static str> = shas.into_iter().map(|s| &*s.leak()).collect();
    let mut more = vec!["quay.io:80/a:b", "quay.io:80/a", "quay.io:81/a", "a/b/a:a", "a:a.b", "a:A"];
    more.extend(shas);
    text!(ctx, "Image", Image, image, &["a", "b", ":a", ":b", "/", "@a:b", ":A", "a.b/", "-"], 3, more);
    // not hashed and not borrowed
    let all = words(&["a", "b", "0", "_", "-"], ctx.pick(4, 5));
    let mut pool: Vec<(String, Name)> = all.iter().flat_map(|w| made!(Name)(w).into_iter().map(|n| (w.clone(), n))).collect();
    spread(&mut pool);
    equal(ctx, "Name", &pool);
    order(ctx, "Name", &pool, Some(str_cmp), ctx.pick(100, 250));
}

/// An image with a text, by many histories.
fn image(w: &'static str) -> Vec<Image> {
    let Ok(first) = Image::parse(w) else { return vec![] };
    let mut all = made!(Image)(w);
    let (name, tod) = first.as_parts();
    all.push(Image::from_parts(name, tod));
    // from other images
    for start in ["x", "yy/zzz:t", "q.r/s@a:0"] {
        let mut i = Image::parse(start).unwrap();
        i.set_name(name);
        i.set_tag_or_digest(tod);
        all.push(i);
        let mut i = Image::parse(start).unwrap();
        i.set_tag_or_digest(tod);
        i.set_name(name);
        all.push(i.clone());
        i.set_tag(Some(Tag::new("longer-than-before").unwrap()));
        i.set_tag_or_digest(tod);
        all.push(i);
        let mut i = first.clone();
        i.set_digest(Some(Digest::new("a:0").unwrap()));
        i.set_digest(None);
        i.set_tag_or_digest(tod);
        all.push(i);
    }
    if first.registry().is_some() {
        let r: &'static str = first.registry().unwrap().to_owned().leak();
        if let Ok(r) = ImageName::new(r) {
            if r.registry().is_none() && r.as_ref().contains('.') {
                let mut i = first.clone();
                i.set_registry(Some(r));
                all.push(i);
            }
        }
    }
    all.retain(|i| i.as_str() == w);
    all
}

/// Paths compare, order and hash as paths do.
fn paths<T>(ctx: &Ctx, name: &str, push: fn(&mut T, &str))
where
    T: FromStr + Hash + Ord + Debug + Clone + Sync + Send + Borrow<Path> + PartialEq<Path> + AsRef<Path> + DeserializeOwned + TryFrom<PathBuf>,
{
    let all = words(&["/", ".", "a", "b", "~"], ctx.pick(4, 5));
    let mut pool: Vec<(PathBuf, T)> = Vec::new();
    for w in &all {
        pool.extend(w.parse().ok().map(|t| (PathBuf::from(w), t)));
        pool.extend(T::try_from(PathBuf::from(w)).ok().map(|t| (PathBuf::from(w), t)));
        if let Ok(mut t) = w.parse::<T>() {
            push(&mut t, "c");
            pool.push((Path::new(w).join("c"), t));
        }
    }
    spread(&mut pool);
    equal(ctx, name, &pool);
    hash(ctx, name, &pool);
    order(ctx, name, &pool, Some(|a: &PathBuf, b: &PathBuf| a.components().cmp(b.components())), ctx.pick(100, 200));
    let others: Vec<PathBuf> = all.iter().map(PathBuf::from).collect();
    ctx.part(&format!("{name}: compared with paths"), (pool.len() * others.len()) as u64);
    ctx.par(pool.len(), |i| {
        let (k, a) = &pool[i];
        ctx.case(
            || format!("{name} {k:?} == paths"),
            || {
                let b: &Path = a.borrow();
                check(b.as_os_str() == k.as_os_str(), || format!("borrowed as {b:?}"))?;
                check(hashed(a) == hashed(k.as_path()), || "hashes differently from the path".into())?;
                for o in &others {
                    let want = k.components().eq(o.components());
                    check(PartialEq::<Path>::eq(a, o) == want, || format!("== {o:?} is {}", !want))?;
                    check(PartialEq::<Path>::ne(a, o) != want, || format!("!= {o:?} is {want}"))?;
                }
                Ok(())
            },
        );
    });
    // maps
    let mut keys: Vec<&(PathBuf, T)> = Vec::new();
    for x in &pool {
        if keys.len() < ctx.pick(7, 10) && keys.iter().all(|k| k.0 != x.0) {
            keys.push(x);
        }
    }
    ctx.part(&format!("{name}: maps searched"), 1 << keys.len());
    ctx.par(1 << keys.len(), |bits| {
        let have: Vec<&(PathBuf, T)> = (0..keys.len()).filter(|b| bits >> b & 1 == 1).map(|b| keys[b]).collect();
        ctx.case(
            || format!("{name} map of {:?}", have.iter().map(|k| &k.0).collect::<Vec<_>>()),
            || {
                let h: HashMap<T, usize> = have.iter().enumerate().map(|(n, k)| (k.1.clone(), n)).collect();
                let b: BTreeMap<T, usize> = have.iter().enumerate().map(|(n, k)| (k.1.clone(), n)).collect();
                let x: IndexMap<T, usize> = have.iter().enumerate().map(|(n, k)| (k.1.clone(), n)).collect();
                for w in &others {
                    let want = have.iter().position(|k| k.0 == *w);
                    let w = w.as_path();
                    check(h.get(w).copied() == want, || format!("HashMap::get({w:?}) is not {want:?}"))?;
                    check(b.get(w).copied() == want, || format!("BTreeMap::get({w:?}) is not {want:?}"))?;
                    check(x.get(w).copied() == want, || format!("IndexMap::get({w:?}) is not {want:?}"))?;
                }
                Ok(())
            },
        );
    });
}

// ---------------------------------------------------------------------------------------------
// numbers

fn same_ord<K: Ord>(a: &K, b: &K) -> Ordering {
    a.cmp(b)
}

fn numbers(ctx: &Ctx) {
    let percents: Vec<(u8, Percent)> = (0..=255u8).filter_map(|n| Percent::new(n).ok().map(|p| (n, p))).collect();
    equal(ctx, "Percent", &percents);
    hash(ctx, "Percent", &percents);
    order(ctx, "Percent", &percents, Some(same_ord), 101);
    for (n, p) in &percents {
        ctx.case(|| format!("Percent {n} == u8"), || (0..=255u8).try_for_each(|m| check((*p == m) == (*n == m) && (*p != m) == (*n != m), || format!("== {m} is wrong"))));
    }
    let weights: Vec<(u16, Weight)> = (0..=u16::MAX).filter_map(|n| Weight::new(n).ok().map(|p| (n, p))).collect();
    equal(ctx, "Weight", &weights);
    hash(ctx, "Weight", &weights);
    order(ctx, "Weight", &weights, Some(same_ord), 200);
    ctx.par(weights.len(), |i| {
        let (n, p) = &weights[i];
        ctx.case(
            || format!("Weight {n} == u16"),
            || {
                (0..=u16::MAX).try_for_each(|m| {
                    check((*p == m) == (*n == m) && (*p != m) == (*n != m), || format!("== {m} is wrong"))?;
                    NonZeroU16::new(m).map_or(Ok(()), |z| check((*p == z) == (*n == m) && (*p != z) == (*n != m), || format!("== NonZeroU16 {m} is wrong")))
                })
            },
        );
    });
    let ooms: Vec<(i16, OomScoreAdj)> = (i16::MIN..=i16::MAX).filter_map(|n| OomScoreAdj::new(n).ok().map(|p| (n, p))).collect();
    equal(ctx, "OomScoreAdj", &ooms);
    hash(ctx, "OomScoreAdj", &ooms);
    order(ctx, "OomScoreAdj", &ooms, Some(same_ord), 200);
    ctx.par(ooms.len(), |i| {
        let (n, p) = &ooms[i];
        ctx.case(|| format!("OomScoreAdj {n} == i16"), || (i16::MIN..=i16::MAX).try_for_each(|m| check((*p == m) == (*n == m) && (*p != m) == (*n != m), || format!("== {m} is wrong"))));
    });
    let mut majors: Vec<(Option<u16>, MajorMinorNumber)> = vec![(None, MajorMinorNumber::All)];
    majors.extend([0, 1, 2, 9, 10, 255, 256, 4095, 32767, 32768, 65534, 65535].map(|n| (Some(n), n.into())));
    majors.extend(["*", "0", "1", "10", "65535"].map(|t| (t.parse().ok(), t.parse().unwrap())));
    equal(ctx, "MajorMinorNumber", &majors);
    hash(ctx, "MajorMinorNumber", &majors);
    for (n, p) in &majors {
        ctx.case(|| format!("MajorMinorNumber {n:?} == u16"), || (0..=u16::MAX).try_for_each(|m| check((*p == m) == (*n == Some(m)) && (*p != m) == (*n != Some(m)), || format!("== {m} is wrong"))));
    }
    let u64s = [0, 1, 2, 255, 256, 65535, u64::from(u32::MAX), 1 << 32, (1 << 53) + 1, u64::MAX - 1, u64::MAX];
    let mut counts: Vec<(Option<u64>, Count)> = vec![(None, Count::All), (None, "all".parse().unwrap()), (None, Count::default())];
    counts.extend(u64s.map(|n| (Some(n), n.into())));
    counts.extend(u64s.map(|n| (Some(n), n.to_string().parse().unwrap())));
    equal(ctx, "Count", &counts);
    for (n, p) in &counts {
        ctx.case(|| format!("Count {n:?} == u64"), || u64s.iter().try_for_each(|m| check((p == m) == (*n == Some(*m)) && (p != m) == (*n != Some(*m)), || format!("== {m} is wrong"))));
    }
    let mut lu: Vec<(Option<u64>, Limit<u64>)> = vec![(None, Limit::Unlimited), (None, "-1".parse().unwrap())];
    lu.extend(u64s.map(|n| (Some(n), n.into())));
    equal(ctx, "Limit<u64>", &lu);
    order(ctx, "Limit<u64>", &lu, None, 100);
    let lu: Vec<(Option<u32>, Limit<u32>)> = [None, Some(0), Some(1), Some(2), Some(u32::MAX)].into_iter().map(|n| (n, n.map_or(Limit::Unlimited, Limit::Value))).collect();
    equal(ctx, "Limit<u32>", &lu);
    order(ctx, "Limit<u32>", &lu, None, 100);
    // cpus
    let floats = [0.0, f64::MIN_POSITIVE, 5e-324, 0.1, 0.25, 0.3, 0.1 + 0.2, 0.5, 0.999_999_999, 1.0, 1.0 + f64::EPSILON, 1.5, 2.0, 64.0, 1e9, f64::from(u32::MAX), 1e300, f64::MAX];
    let mut cpus: Vec<(u64, Cpus)> = floats.iter().filter_map(|f| Cpus::new(*f).ok().map(|c| (f.to_bits(), c))).collect();
    cpus.extend(floats.iter().filter_map(|f| serde_yaml::from_value::<Cpus>((*f).into()).ok().map(|c| (f.to_bits(), c))));
    equal(ctx, "Cpus", &cpus);
    let extra = [-0.0, -1.0, -0.25, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN];
    for (k, c) in &cpus {
        let k = f64::from_bits(*k);
        ctx.case(
            || format!("Cpus {k}"),
            || {
                for (l, d) in &cpus {
                    partial(c, d, k.partial_cmp(&f64::from_bits(*l))).map_err(|e| format!("to {d:?}: {e}"))?;
                }
                for f in floats.iter().chain(&extra) {
                    partial(c, f, k.partial_cmp(f)).map_err(|e| format!("to {f}: {e}"))?;
                }
                Ok(())
            },
        );
    }
    ctx.part("Cpus: compared with floats", (cpus.len() * (cpus.len() + floats.len() + extra.len())) as u64);
    // port ranges
    let edge: Vec<u16> = vec![0, 1, 2, 3, 79, 80, 81, 255, 256, 257, 32767, 32768, 65533, 65534, 65535];
    let mut ranges: Vec<((u16, u16), Range)> = Vec::new();
    for a in &edge {
        ranges.push(((*a, *a), (*a).into()));
        for b in &edge {
            if a <= b {
                ranges.push(((*a, *b), Range::new(*a, Some(*b)).unwrap()));
                ranges.push(((*a, *b), format!("{a}-{b}").parse().unwrap()));
                ranges.push(((*a, *b), Range::try_from(*a..=*b).unwrap()));
            }
        }
    }
    equal(ctx, "Range", &ranges);
    hash(ctx, "Range", &ranges);
    ctx.par(ranges.len(), |i| {
        let ((s, t), r) = &ranges[i];
        ctx.case(
            || format!("Range {s}-{t} == numbers"),
            || {
                for m in 0..=u16::MAX {
                    let want = s == t && m == *s;
                    check((*r == m) == want && (*r != m) != want, || format!("== {m} is {}", !want))?;
                    for q in [m..=*t, *s..=m, m..=m, m..=*s, *t..=m] {
                        let want = (q.start(), q.end()) == (s, t);
                        check((*r == q) == want && (*r != q) != want, || format!("== {q:?} is {}", !want))?;
                    }
                }
                Ok(())
            },
        );
    });
    ctx.part("Range: compared with numbers and ranges", ranges.len() as u64 * 65536 * 6);
    // addresses
    let mut macs: Vec<([u8; 6], MacAddress)> = Vec::new();
    for place in 0..6 {
        for b in 0..=255u8 {
            let mut x = [0x10; 6];
            x[place] = b;
            let text = x.map(|b| format!("{b:02x}")).join(":");
            macs.push((x, text.parse().unwrap()));
            if b % 16 > 9 {
                macs.push((x, text.to_uppercase().parse().unwrap()));
            }
        }
    }
    spread(&mut macs);
    equal(ctx, "MacAddress", &macs);
    hash(ctx, "MacAddress", &macs);
    order(ctx, "MacAddress", &macs, None, ctx.pick(150, 300));
}

// ---------------------------------------------------------------------------------------------
// values with a canonical text

fn cross(parts: &[&[&str]]) -> Vec<String> {
    let mut all = vec![String::new()];
    for p in parts {
        all = all.iter().flat_map(|w| p.iter().map(move |x| format!("{w}{x}"))).collect();
    }
    all.sort();
    all.dedup();
    all
}

/// Parsed in all ways; texts which are not values are left out.
fn parsed<T: FromStr + DeserializeOwned>(ctx: &Ctx, name: &str, texts: &[String]) -> Vec<(String, T)> {
    let mut pool = Vec::new();
    for t in texts {
        pool.extend(t.parse().ok().map(|v| (t.clone(), v)));
        pool.extend(serde_yaml::from_value(Yaml::String(t.clone())).ok().map(|v| (t.clone(), v)));
    }
    ctx.outcome(&format!("values of {name}"), pool.len() as u64);
    pool
}

fn only<T: FromStr>(ctx: &Ctx, name: &str, texts: &[String]) -> Vec<(String, T)> {
    let mut pool = Vec::new();
    for _ in 0..2 {
        for t in texts {
            pool.extend(t.parse().ok().map(|v| (t.clone(), v)));
        }
    }
    ctx.outcome(&format!("values of {name}"), pool.len() as u64);
    pool
}

fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| (*s).to_owned()).collect()
}

macro_rules! eq_hash {
    ($ctx:expr, $how:ident, $t:ty, $texts:expr) => {{
        let texts: Vec<String> = $texts;
        let pool = $how::<$t>($ctx, stringify!($t), &texts);
        equal($ctx, stringify!($t), &pool);
        hash($ctx, stringify!($t), &pool);
    }};
}

macro_rules! eq_only {
    ($ctx:expr, $how:ident, $t:ty, $texts:expr) => {{
        let texts: Vec<String> = $texts;
        let pool = $how::<$t>($ctx, stringify!($t), &texts);
        equal($ctx, stringify!($t), &pool);
    }};
}

fn texts(ctx: &Ctx) {
    let ports: &[&str] = &["1", "80", "81", "80-81", "81-82", "80-82", "65535"];
    eq_hash!(ctx, parsed, ShortPort, {
        let mut v = cross(&[ports, &["", "/tcp", "/udp", "/sctp", "/x", "/TCP"]]);
        v.extend(cross(&[&["", "127.0.0.1:", "127.0.0.2:", "[::1]:", "[::2]:"], ports, &[":"], ports, &["", "/tcp", "/udp"]]));
        v.extend(cross(&[&["127.0.0.1::", "[::1]::"], ports]));
        v
    });
    eq_hash!(ctx, only, ShortRanges, cross(&[&["", "1:", "80:", "81:", "80-81:", "81-82:", "80-82:", "1-3:"], ports]));
    eq_hash!(ctx, parsed, Expose, cross(&[ports, &["", "/tcp", "/udp", "/x"]]));
    eq_hash!(ctx, only, Protocol, strs(&["tcp", "udp", "sctp", "TCP", "x"]));
    let perms: &[&str] = &["", ":r", ":w", ":m", ":rw", ":rm", ":wm", ":rwm"];
    eq_hash!(ctx, parsed, Device, cross(&[&["/a", "/b", "/a/b", "/A"], &[":"], &["/a", "/b", "/c"], perms]));
    eq_hash!(ctx, only, Permissions, strs(&["r", "w", "m", "rw", "rm", "wm", "rwm"]));
    let numbers: &[&str] = &["*", "0", "1", "2", "255", "65535"];
    eq_hash!(ctx, parsed, CgroupRule, cross(&[&["a ", "b ", "c "], numbers, &[":"], numbers, &[" r", " w", " m", " rw", " rm", " wm", " rwm"]]));
    eq_hash!(ctx, only, Kind, strs(&["a", "b", "c"]));
    eq_hash!(ctx, parsed, Link, cross(&[&["a", "b", "A", "ab"], &["", ":a", ":b", ":A", ":-", ":ab"]]));
    eq_hash!(ctx, parsed, VolumesFrom, cross(&[&["", "container:"], &["a", "b", "A", "ab"], &["", ":ro"]]));
    eq_hash!(ctx, only, VolumesFromSource, cross(&[&["", "container:"], &["a", "b", "A", "ab"]]));
    eq_hash!(ctx, parsed, SshAuth, cross(&[&["a", "b", "A", "default"], &["", "=a", "=/b", "=A", "=a b"]]));
    eq_hash!(ctx, only, SshAuthId, cross(&[&["a", "b", "A", "default"], &["=a", "=/b", "=A", "=a b", "=a=b"]]));
    let types = || {
        let mut v: Vec<(String, CacheType)> = Vec::new();
        for i in ["a", "b", "a:b", "a/b"] {
            v.push((format!("image {i}"), CacheType::Registry(Image::parse(i).unwrap())));
            if let Ok(o) = CacheOption::new(i) {
                v.push((format!("other {i}"), CacheType::Other(o)));
            }
        }
        v
    };
    equal(ctx, "CacheType", &[types(), types()].concat());
    hash(ctx, "CacheType", &[types(), types()].concat());
    eq_only!(ctx, parsed, Cache, cross(&[&["type=registry", "type=local", "type=x"], &["", ",ref=a", ",ref=b", ",dest=a"], &["", ",x=y", ",x=z", ",y=y"]]));
    // equal values, not spellings
    eq_hash!(ctx, parsed, ByteValue, cross(&[&["0", "1", "2", "1000", "1024", "18446744073709551615"], &["b", "kb", "mb", "gb"]]));
    let ids: &[&str] = &["0", "1", "1000", "4294967295", "root", "a", "A", "_a", "ab"];
    eq_hash!(ctx, parsed, User, {
        let mut v = cross(&[ids, &["", ":0", ":1", ":1000", ":root", ":a", ":A"]]);
        v.extend(strs(&[":1"]));
        v
    });
    eq_hash!(ctx, only, IdOrName, strs(ids));
    eq_hash!(ctx, parsed, Capability, strs(&["gpu", "tpu", "x", "GPU", "nvidia"]));
    eq_hash!(ctx, only, Source, cross(&[&["/", "./", "../", "", "~/"], &["a", "b", "A", "a/b", "a.b"]]));
    eq_hash!(ctx, parsed, ShortVolume, cross(&[&["", "./a:", "../a:", "/a:", "a:", "b:", "A:"], &["/a", "/b", "/A"], &["", ":ro", ":z", ":Z", ":ro,z", ":ro,Z"]]));
    let mut platforms = crate::c17::platforms();
    eq_hash!(ctx, parsed, Platform, platforms.clone());
    eq_hash!(ctx, parsed, Os, platforms.iter().filter(|p| !p.contains('/')).cloned().collect());
    let mut archs: Vec<String> = platforms.drain(..).filter_map(|p| p.split_once('/').map(|x| x.1.to_owned())).collect();
    archs.sort();
    archs.dedup();
    eq_hash!(ctx, parsed, Arch, archs);
    eq_only!(ctx, parsed, Context, strs(&[".", "./a", "a", "b", "https://a/b", "https://a/c", "http://a/b", "git://a/b"]));
    eq_only!(ctx, parsed, Ipc, strs(&["shareable", "service:a", "service:b", "service:A", "x", "host", "private", ""]));
    eq_only!(ctx, parsed, NetworkMode, strs(&["none", "host", "service:a", "service:b", "container:a", "container:b", "x", "X"]));
    eq_only!(ctx, parsed, BuildNetwork, strs(&["none", "host", "a", "b", "x"]));
    eq_only!(ctx, parsed, EndpointMode, strs(&["vip", "dnsrr", "x", "VIP"]));
    eq_only!(ctx, parsed, Driver, strs(&["host", "none", "bridge", "x", "Host"]));
    // the set is what counts
    let cpus: Vec<(BTreeSet<u64>, CpuSet)> = words(&["0,", "1,", "2-3,", "0-1,", "3,"], 3)
        .iter()
        .filter_map(|w| w.trim_end_matches(',').parse::<CpuSet>().ok().map(|c| (w, c)))
        .map(|(w, c)| {
            let set = w
                .split(',')
                .filter(|p| !p.is_empty())
                .flat_map(|p| {
                    let (a, b) = p.split_once('-').unwrap_or((p, p));
                    a.parse::<u64>().unwrap()..=b.parse().unwrap()
                })
                .collect();
            (set, c)
        })
        .collect();
    equal(ctx, "CpuSet", &cpus);
    // enums without texts
    let modes = || vec![("host", Mode::Host), ("ingress", Mode::Ingress)];
    equal(ctx, "ports::Mode", &[modes(), modes()].concat());
    hash(ctx, "ports::Mode", &[modes(), modes()].concat());
    let bp = || vec!["private", "rprivate", "shared", "rshared", "slave", "rslave", "x"].into_iter().filter_map(|p| serde_yaml::from_value::<BindPropagation>(p.into()).ok().map(|v| (p, v))).collect::<Vec<_>>();
    equal(ctx, "BindPropagation", &[bp(), bp()].concat());
    hash(ctx, "BindPropagation", &[bp(), bp()].concat());
    let se = || vec![("z", SELinux::Shared), ("Z", SELinux::Private)];
    equal(ctx, "SELinux", &[se(), se()].concat());
    hash(ctx, "SELinux", &[se(), se()].concat());
    let mut tests: Vec<(String, Test)> = Vec::new();
    for _ in 0..2 {
        for t in ["", "a", "b", "a b", "NONE"] {
            tests.push((format!("shell {t}"), Test::ShellCommand(t.into())));
        }
        for l in [&[][..], &["a"], &["b"], &["a", "b"], &["b", "a"], &["a b"], &["", "a"], &["CMD", "a"]] {
            tests.push((format!("{l:?}"), Test::Command(l.iter().map(|s| (*s).to_owned()).collect())));
        }
    }
    equal(ctx, "healthcheck::Test", &tests);
    hash(ctx, "healthcheck::Test", &tests);
    // tags and digests
    let mut tods: Vec<(String, TagOrDigest<'static>)> = Vec::new();
    for _ in 0..2 {
        for t in ["a", "b", "A", "latest"] {
            tods.push((format!(":{t}"), Tag::new(t).unwrap().into()));
        }
        for t in ["a:b", "a:c", "b:b", "a:B"] {
            tods.push((format!("@{t}"), Digest::new(t).unwrap().into()));
        }
    }
    equal(ctx, "TagOrDigest", &tods);
    hash(ctx, "TagOrDigest", &tods);
}

// ---------------------------------------------------------------------------------------------
// containers

fn containers(ctx: &Ctx) {
    // single items and lists
    let items = ["a", "b", "A", "ab", ""];
    let mut pool: Vec<((bool, BTreeSet<String>), ItemOrList<String>)> = Vec::new();
    for i in items {
        pool.push(((true, BTreeSet::from([i.to_owned()])), ItemOrList::Item(i.into())));
    }
    for n in 0..ctx.pick(4, 5) {
        for w in tuples(items.len(), n) {
            let l: Vec<String> = w.iter().map(|i| items[*i].to_owned()).collect();
            pool.push(((false, l.iter().cloned().collect()), ItemOrList::List(l.into_iter().collect())));
        }
    }
    equal(ctx, "ItemOrList", &pool);
    // lists and maps
    let vals: [Option<Value>; 6] = [None, Some("".into()), Some("1".into()), Some(1u64.into()), Some(true.into()), Some("true".into())];
    type Id = Result<BTreeSet<String>, BTreeMap<String, String>>;
    let mut pool: Vec<(Option<Id>, ListOrMap)> = Vec::new();
    for n in 0..3 {
        for w in tuples(items.len(), n) {
            let l: Vec<String> = w.iter().map(|i| items[*i].to_owned()).collect();
            let id: BTreeSet<String> = l.iter().cloned().collect();
            pool.push(((!id.is_empty()).then_some(Ok(id)), ListOrMap::List(l.into_iter().collect())));
        }
        for w in tuples(4 * vals.len(), n) {
            let l: Vec<(String, Option<Value>)> = w.iter().map(|i| (items[i / vals.len()].to_owned(), vals[i % vals.len()].clone())).collect();
            let id: BTreeMap<String, String> = l.iter().map(|(k, v)| (k.clone(), format!("{v:?}"))).collect();
            pool.push(((!id.is_empty()).then_some(Err(id)), ListOrMap::Map(l.into_iter().map(|(k, v)| (MapKey::new(k).unwrap(), v)).collect())));
        }
    }
    equal(ctx, "ListOrMap", &pool);
    // short or long
    let mut pool: Vec<((bool, u8), ShortOrLong<u8, u8>)> = Vec::new();
    for n in [0, 1, 2, 255] {
        pool.push(((true, n), ShortOrLong::Short(n)));
        pool.push(((false, n), ShortOrLong::Long(n)));
    }
    equal(ctx, "ShortOrLong", &pool);
    hash(ctx, "ShortOrLong", &pool);
    order(ctx, "ShortOrLong", &pool, None, 100);
    // scalars
    let mut pool: Vec<(String, Value)> = Vec::new();
    let mut nums: Vec<(String, Number)> = Vec::new();
    let mut sons: Vec<(String, StringOrNumber)> = Vec::new();
    for _ in 0..2 {
        for s in ["", "a", "A", "1", "-1", "1.5", "true", "false", "null"] {
            pool.push((format!("{s:?}"), Value::String(s.into())));
            sons.push((format!("{s:?}"), StringOrNumber::String(s.into())));
        }
        for b in [true, false] {
            pool.push((b.to_string(), b.into()));
        }
        for n in [0u64, 1, 2, u64::MAX] {
            nums.push((n.to_string(), Number::UnsignedInt(n)));
        }
        for n in [-1i64, -2, i64::MIN] {
            nums.push((n.to_string(), Number::SignedInt(n)));
        }
        for n in [0.5, 1.5, -1.5, 1e300, f64::INFINITY, f64::NEG_INFINITY] {
            nums.push((n.to_string(), Number::Float(n)));
        }
    }
    for (k, n) in &nums {
        pool.push((k.clone(), n.clone().into()));
        sons.push((k.clone(), n.clone().into()));
    }
    equal(ctx, "Value", &pool);
    equal(ctx, "Number", &nums);
    equal(ctx, "StringOrNumber", &sons);
}

fn tuples(n: usize, len: usize) -> Vec<Vec<usize>> {
    let mut all = vec![vec![]];
    for _ in 0..len {
        all = all
            .into_iter()
            .flat_map(|w: Vec<usize>| {
                (0..n).map(move |i| {
                    let mut w = w.clone();
                    w.push(i);
                    w
                })
            })
            .collect();
    }
    all
}

// ---------------------------------------------------------------------------------------------
// all types of the schema

/// Without the order of lists and of mappings.
fn norm(v: &Yaml) -> String {
    match v {
        Yaml::Sequence(l) => {
            let mut l: Vec<String> = l.iter().map(norm).collect();
            l.sort();
            format!("[{}]", l.join(", "))
        }
        Yaml::Mapping(m) => {
            let mut l: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", norm(k), norm(v))).collect();
            l.sort();
            format!("{{{}}}", l.join(", "))
        }
        Yaml::Tagged(t) => format!("{} {}", t.tag, norm(&t.value)),
        v => format!("{v:?}"),
    }
}

struct Pool<T> {
    name: String,
    /// The document as text, its normal form.
    text: String,
    norm: String,
    value: T,
}

fn pool<T: Doc>(ctx: &Ctx, s: &Schema<T>) -> Vec<Pool<T>> {
    let mut all = crate::doc::picks(
        s,
        &crate::doc::Bounds {
            pair_reps: if s.items.len() > 150 { 0 } else { ctx.pick(4, 8) },
            maximal: false,
            subsets: ctx.pick(6, 9),
            forms: s.items.len() < 300,
        },
    );
    let cap = ctx.pick(2_500, 6_000);
    if all.len() > cap {
        all.truncate(cap);
    }
    let mut out = Vec::new();
    for p in all {
        let mut both = vec![p.value(s)];
        both.extend(serde_yaml::from_str::<T>(&p.doc(s).flow()));
        for (n, v) in both.into_iter().enumerate() {
            #[allow(clippy::eq_op)]
            if v == v {
                let y = serde_yaml::to_value(&v).unwrap_or_default();
                out.push(Pool { name: format!("{} {}", ["set", "read"][n], p.name(s)), text: serde_yaml::to_string(&v).unwrap_or_default(), norm: norm(&y), value: v });
            }
        }
    }
    out
}

fn pairs<T: Doc>(ctx: &Ctx, s: &Schema<T>, pool: &[Pool<T>]) {
    ctx.part(&format!("{}: pairs compared", s.name), (pool.len() * pool.len()) as u64);
    ctx.add_states(pool.len() as u64);
    ctx.add_transitions((pool.len() * pool.len()) as u64);
    ctx.par(pool.len(), |i| {
        let a = &pool[i];
        ctx.case(
            || format!("{} == all", a.name),
            || {
                for (j, b) in pool.iter().enumerate() {
                    let eq = a.value == b.value;
                    #[allow(clippy::nonminimal_bool)]
                    check((a.value != b.value) != eq, || format!("{}: == and != are both {eq}", b.name))?;
                    if j < i {
                        check((b.value == a.value) == eq, || format!("{}: == is not symmetric", b.name))?;
                    }
                    if a.text == b.text {
                        check(eq, || format!("{}: written alike, but not equal", b.name))?;
                    }
                    if a.norm != b.norm {
                        check(!eq, || format!("{}: equal, but written differently", b.name))?;
                    }
                }
                Ok(())
            },
        );
    });
}

struct Pairs;

impl Visit for Pairs {
    fn visit<T: Doc>(&self, ctx: &Ctx, s: &Schema<T>) {
        pairs(ctx, s, &pool(ctx, s));
    }
}

fn hashes<T: Doc + Eq + Hash>(ctx: &Ctx, s: &Schema<T>) {
    let pool: Vec<(String, T)> = pool(ctx, s).into_iter().map(|p| (p.name, p.value)).collect();
    hash(ctx, s.name, &pool);
}

pub fn run(ctx: &Ctx) {
    keys(ctx);
    paths::<AbsolutePath>(ctx, "AbsolutePath", |p, s| p.push(s));
    paths::<HostPath>(ctx, "HostPath", |p, s| p.push(s));
    numbers(ctx);
    texts(ctx);
    containers(ctx);
    each(ctx, &Pairs);
    hashes(ctx, &sc::port());
    hashes(ctx, &sc::volume_options());
    hashes(ctx, &sc::bind_options());
    hashes(ctx, &sc::tmpfs_options());
    hashes(ctx, &sc::mount_volume());
    hashes(ctx, &sc::mount_bind());
    hashes(ctx, &sc::mount_tmpfs());
    hashes(ctx, &sc::mount_npipe());
    hashes(ctx, &sc::mount_cluster());
    for s in sc::mount_() {
        hashes(ctx, &s);
    }
}
