//! C13: nothing panics, overflows or fails to end. All inputs to a bound are read in all ways, and everything that can
//! be asked of what was read is asked.
use std::{
    any::Any,
    borrow::Cow,
    fmt::{Debug, Display},
    path::PathBuf,
    str::FromStr,
    sync::atomic::{AtomicU64, Ordering::Relaxed},
};

use compose_spec::{
    duration,
    network::Driver,
    service::{
        self,
        blkio_config::Weight,
        build::{Cache, CacheOption, CacheType, Context, Network as BuildNetwork, SshAuth, SshAuthId},
        deploy::{resources::{Capability, Count}, EndpointMode},
        device::{CgroupRule, Device, Kind, MajorMinorNumber, Permissions},
        env_file::EnvFile,
        image::{Digest, Name as ImageName, Tag, TagOrDigest},
        network_config::NetworkMode,
        platform::{Arch, Os, Platform},
        ports::{Protocol, Range, ShortPort, ShortRanges},
        user::{IdOrName, Name as UserName, User},
        volumes::{HostPath, Mount, ShortVolume, Source},
        AbsolutePath, ByteValue, ConfigOrSecret, CpuSet, Cpus, Expose, Hostname, Image, Ipc, Limit, Link, MacAddress,
        OomScoreAdj, Percent, Resource as UlimitResource, Ulimit, VolumesFrom, VolumesFromSource,
    },
    AsShort, AsShortIter, Compose, Config, ExtensionKey, Identifier, Include, ItemOrList, ListOrMap, MapKey, Name,
    Network, Number, Resource, Secret, Service, ShortOrLong, StringOrNumber, Value, Volume,
};
use indexmap::IndexMap;
use serde::{
    de::{
        value::{
            BorrowedBytesDeserializer, BytesDeserializer, CharDeserializer, Error as DeError, MapDeserializer, SeqDeserializer,
            StrDeserializer, StringDeserializer, UnitDeserializer,
        },
        DeserializeOwned, IntoDeserializer,
    },
    Serialize,
};
use serde_yaml::Value as Yaml;

use crate::{
    doc::{each, hosts, junk, mutants, picks, Bounds, Doc, Visit},
    engine::{guard, Ctx},
    schema::{self as sc, Schema},
    y::{self, Y},
};

pub const ASSUME: &[&str] = &[
    "running out of memory or stack shows as the end of the process, which the supervising process reports",
    "what takes more than 90 s does not end",
    "adding to and subtracting from port ranges may overflow, as for integers",
    "pushing to a path and constructing values from their parts is not reading",
];

/// Ask everything which can be asked.
trait Ask {
    fn ask(&self);
}

fn use_it(t: impl Debug) {
    let s = format!("{t:?}");
    std::hint::black_box(s);
}

fn show(t: &impl Display) {
    std::hint::black_box(t.to_string());
    std::hint::black_box(format!("{t:>40} {t:<1} {t:^3.2} {t:#}"));
}

fn write<T: Serialize>(t: &T) {
    use_it(serde_yaml::to_string(t));
    use_it(serde_yaml::to_value(t));
}

macro_rules! ask {
    ($t:ty, $v:ident, $body:block) => {
        impl Ask for $t {
            fn ask(&self) {
                #[allow(unused_variables)]
                let $v = self;
                $body
            }
        }
    };
}

macro_rules! ask_key {
    ($($t:ty),*) => {$(
        ask!($t, v, {
            show(v);
            write(v);
            use_it(v.as_str());
            use_it(String::from(v.clone()));
            use_it(Box::<str>::from(v.clone()));
            use_it(v.as_str().parse::<$t>());
            use_it(v == "a");
        });
    )*};
}

ask_key!(Identifier, MapKey, Hostname, UserName, UlimitResource, CacheOption);
ask!(ExtensionKey, v, {
    show(v);
    write(v);
    use_it((v.as_str(), v.strip_prefix()));
});
ask!(Name, v, {
    show(v);
    write(v);
    use_it(v.as_str());
});

fn ask_name(n: &ImageName) {
    show(n);
    use_it((n.registry(), n.into_inner(), n.as_ref(), n == &"a"));
}

fn ask_tod(t: &TagOrDigest) {
    use_it((t.into_tag(), t.into_digest(), t.separator()));
}

ask!(Image, v, {
    show(v);
    write(v);
    use_it((v.as_str(), v.registry(), v.name(), v.tag(), v.digest()));
    ask_name(&v.as_name());
    use_it((v.as_tag(), v.as_digest()));
    v.as_tag_or_digest().iter().for_each(ask_tod);
    let (name, tod) = v.as_parts();
    use_it(Image::from_parts(name, tod));
    use_it(v.clone().into_inner());
    let mut i = v.clone();
    i.set_registry(None);
    use_it((&i, i.registry(), i.name(), i.tag(), i.digest(), i.as_parts()));
    i.set_tag_or_digest(None);
    use_it((&i, i.registry(), i.name(), i.tag(), i.digest(), i.as_parts()));
    use_it(Cache::from_image(v.clone()).into_options());
    use_it(CacheOption::from(v.clone()));
});

ask!(Range, v, {
    show(v);
    write(v);
    use_it((v.start(), v.end()));
    use_it(v.size());
    use_it(v.into_iter().count());
    use_it((v.into_iter().size_hint(), v.into_iter().last()));
});
ask!(ShortRanges, v, {
    show(v);
    write(v);
    use_it((v.host(), v.container()));
    if let Some(h) = v.host() {
        h.ask();
    }
    v.container().ask();
    use_it((v.into_iter().size_hint(), v.into_iter().count(), v.into_iter().last()));
    for r in [Range::from(0), Range::from(65535), Range::new(0, Some(65535)).unwrap(), Range::new(65534, Some(65535)).unwrap(), v.container()] {
        let mut w = *v;
        use_it(w.replace_host(r));
        use_it(w.replace_container(r));
        use_it((w, w.take_host()));
    }
});
ask!(ShortPort, v, {
    show(v);
    write(v);
    v.ranges.ask();
    let mut it = v.clone().into_long_iter();
    use_it(it.size_hint());
    for p in it.by_ref().take(3) {
        p.ask();
    }
    use_it(it.size_hint());
    if let Some(p) = it.last() {
        p.ask();
    }
    use_it(service::Ports::from([v.clone().into()]).into_iter().flat_map(|p| service::ports::into_long_iter([p].into())).count());
});
ask!(service::ports::Port, v, {
    write(v);
    use_it(v.clone().into_short());
    if let Ok(s) = v.clone().into_short() {
        show(&s);
        use_it(s.into_long_iter().take(2).collect::<Vec<_>>());
    }
});
ask!(Expose, v, {
    show(v);
    write(v);
    v.range.ask();
});
ask!(Protocol, v, {
    show(v);
    use_it((v.is_tcp(), v.is_udp(), v.as_str(), String::from(v.clone()), Cow::<str>::from(v.clone())));
});
ask!(Device, v, {
    show(v);
    write(v);
    v.permissions.ask();
});
ask!(Permissions, v, {
    show(v);
    use_it(v.any());
});
ask!(CgroupRule, v, {
    show(v);
    write(v);
    v.kind.ask();
    v.major.ask();
});
ask!(Kind, v, {
    show(v);
    use_it(v.as_char());
});
ask!(MajorMinorNumber, v, {
    show(v);
    use_it(*v == 1);
});
ask!(Link, v, {
    show(v);
    write(v);
});
ask!(VolumesFrom, v, {
    show(v);
    write(v);
});
ask!(VolumesFromSource, v, { show(v) });
ask!(SshAuth, v, {
    show(v);
    write(v);
    use_it((v.id(), v.path(), v.as_id()));
});
ask!(SshAuthId, v, {
    show(v);
    use_it((v.id(), v.path()));
});
ask!(Cache, v, {
    show(v);
    write(v);
    v.cache_type.ask();
    use_it(v.clone().into_options());
});
ask!(CacheType, v, {
    show(v);
    use_it((v.is_registry(), v.as_registry(), v.is_other(), v.as_other()));
});
ask!(ByteValue, v, {
    show(v);
    write(v);
    use_it((v.into_bytes(), v.unit()));
});
ask!(User, v, {
    show(v);
    write(v);
});
ask!(IdOrName, v, {
    show(v);
    write(v);
    use_it((v.is_id(), v.as_id(), v.is_name(), v.as_name()));
});
ask!(Capability, v, {
    show(v);
    write(v);
    use_it((v.is_gpu(), v.is_tpu(), v.as_str(), String::from(v.clone()), Cow::<str>::from(v.clone())));
});
ask!(Count, v, {
    write(v);
    use_it(*v == 1);
});
ask!(Source, v, { show(v) });
ask!(ShortVolume, v, {
    show(v);
    write(v);
    let long = v.clone().into_long();
    long.ask();
    use_it(long.into_short());
});
ask!(Mount, v, {
    write(v);
    use_it((v.kind(), v.is_volume(), v.as_volume(), v.is_bind(), v.as_bind(), v.is_tmpfs(), v.as_tmpfs()));
    use_it((v.is_named_pipe(), v.as_named_pipe(), v.is_cluster(), v.as_cluster(), v.common(), v.source_to_string()));
    if let Ok(s) = v.clone().into_short() {
        show(&s);
        use_it(s.into_long());
    }
    if let Some(x) = v.as_volume() {
        use_it(x.clone().into_short());
    }
    if let Some(x) = v.as_bind() {
        use_it(x.clone().into_short());
    }
});
ask!(AbsolutePath, v, {
    use_it((v.as_path(), v.as_inner(), v.clone().into_inner()));
    write(v);
    let mut p = v.clone();
    for _ in 0..3 {
        use_it(p.pop());
    }
    use_it(p);
    use_it(HostPath::from(v.clone()));
    use_it(Source::from(v.clone()));
});
ask!(HostPath, v, {
    use_it((v.as_path(), v.as_inner(), v.clone().into_inner()));
    write(v);
    let mut p = v.clone();
    for _ in 0..3 {
        use_it(p.pop());
    }
    use_it(p);
    use_it(Source::from(v.clone()));
});
ask!(Platform, v, {
    show(v);
    write(v);
    use_it((v.as_str(), v.os(), v.arch()));
});
ask!(Os, v, {
    show(v);
    write(v);
});
ask!(Arch, v, {
    show(v);
    write(v);
});
ask!(Context, v, {
    write(v);
    use_it((v.as_path(), v.as_url(), v.is_git_repo_url(), v.branch_or_tag(), v.subdirectory()));
    use_it(v.clone().into_string());
});
ask!(Ipc, v, {
    show(v);
    write(v);
    use_it((v.is_shareable(), v.is_service(), v.as_service(), v.is_other(), v.as_other()));
});
ask!(NetworkMode, v, {
    show(v);
    write(v);
    use_it((v.is_none(), v.is_host(), v.is_service(), v.as_service(), v.is_container(), v.as_container(), v.is_other(), v.as_other()));
    use_it((String::from(v.clone()), Cow::<str>::from(v.clone())));
});
ask!(BuildNetwork, v, {
    show(v);
    write(v);
    use_it((v.as_str(), v.is_none(), v.clone().into_option()));
});
ask!(EndpointMode, v, {
    show(v);
    write(v);
    use_it((v.is_vip(), v.is_dnsrr(), v.as_str()));
});
ask!(Driver, v, {
    show(v);
    write(v);
    use_it(v.as_str());
});
ask!(CpuSet, v, {
    show(v);
    write(v);
    use_it(v.is_empty());
});
ask!(MacAddress, v, {
    show(v);
    write(v);
});
ask!(Number, v, {
    show(v);
    write(v);
    use_it(format!("{v:e} {v:E}"));
    use_it((v.is_unsigned_int(), v.as_unsigned_int(), v.is_signed_int(), v.as_signed_int(), v.is_float(), v.as_float()));
    use_it((u64::try_from(v.clone()).is_ok(), i64::try_from(v.clone()).is_ok(), f64::try_from(v.clone()).is_ok()));
});
ask!(Value, v, {
    show(v);
    write(v);
    use_it((v.is_string(), v.as_string(), v.is_number(), v.as_number(), v.is_bool(), v.as_bool()));
    use_it((u64::try_from(v.clone()).is_ok(), i64::try_from(v.clone()).is_ok(), f64::try_from(v.clone()).is_ok(), bool::try_from(v.clone()).is_ok()));
    use_it(String::from(v.clone()));
    use_it(Number::try_from(v.clone()).is_ok());
});
ask!(StringOrNumber, v, {
    show(v);
    write(v);
    use_it((v.is_string(), v.as_string(), v.is_number(), v.as_number()));
    use_it(String::from(v.clone()));
    use_it(Number::try_from(v.clone()).is_ok());
});
ask!(Limit<u32>, v, {
    show(v);
    write(v);
});
ask!(Limit<u64>, v, {
    show(v);
    write(v);
});
ask!(Limit<ByteValue>, v, {
    show(v);
    write(v);
});
ask!(ListOrMap, v, {
    write(v);
    use_it((v.is_empty(), v.as_list(), v.as_map(), v.clone().into_list(), v.clone().into_map()));
    use_it(v.clone().into_map_split_on(&[]));
    use_it(v.clone().into_map_split_on(&[':', '=', 'é', '\u{1F600}']));
});
ask!(ItemOrList<String>, v, {
    write(v);
    use_it((v.as_item(), v.as_list(), v.clone().into_list()));
});
ask!(EnvFile, v, {
    write(v);
    use_it((v.as_single(), v.clone().into_list()));
});
ask!(ShortOrLong<PathBuf, Include>, v, {
    write(v);
    use_it((v.is_short(), v.as_long(), v.clone().into_long()));
});
ask!(ShortOrLong<Identifier, ConfigOrSecret>, v, {
    write(v);
    use_it((v.is_short(), v.as_long(), v.as_short(), v.clone().into_long()));
});
ask!(Resource<Network>, v, {
    write(v);
    use_it((v.is_external(), v.is_compose(), v.as_compose(), v.name()));
});
ask!(Resource<Volume>, v, {
    write(v);
    use_it((v.is_external(), v.is_compose(), v.as_compose(), v.name()));
});
ask!(Resource<Config>, v, {
    write(v);
    use_it((v.is_external(), v.is_compose(), v.as_compose()));
});
ask!(Resource<Secret>, v, {
    write(v);
    use_it((v.is_external(), v.is_compose(), v.as_compose()));
});
ask!(ConfigOrSecret, v, {
    write(v);
    use_it(v.as_short());
});
ask!(Ulimit, v, {
    write(v);
    use_it(v.as_short());
});
ask!(service::Build, v, {
    write(v);
    use_it((v.is_empty(), v.as_short()));
});
ask!(Include, v, {
    write(v);
    use_it(v.as_short());
});
ask!(Percent, v, {
    write(v);
    use_it((v.into_inner(), *v == 1));
});
ask!(OomScoreAdj, v, {
    write(v);
    use_it(*v == 1);
});
ask!(Weight, v, {
    write(v);
    use_it((v.into_inner(), *v == 1u16));
});
ask!(Cpus, v, {
    write(v);
    use_it((v.into_inner(), *v == 1.0, *v < 1.0));
});

ask!(Service, v, {
    write(v);
    use_it(service::ports::into_short_iter(v.ports.clone()).take(100).collect::<Vec<_>>());
    use_it(service::ports::into_long_iter(v.ports.clone()).take(100).collect::<Vec<_>>());
    use_it(service::volumes::into_short_iter(v.volumes.clone()).collect::<Vec<_>>());
    for m in service::volumes::into_long_iter(v.volumes.clone()) {
        m.ask();
    }
    if let Some(b) = &v.build {
        use_it(b.as_short());
        b.clone().into_long().ask();
    }
    for c in v.configs.iter().chain(&v.secrets) {
        c.ask();
    }
    use_it(IndexMap::<_, _>::from(v.depends_on.clone()));
    if let Some(d) = v.depends_on.as_short_iter() {
        use_it(d.collect::<Vec<_>>());
    }
    for u in v.ulimits.values() {
        use_it(u.as_short());
        u.clone().into_long().ask();
    }
    if let Some(e) = &v.env_file {
        e.ask();
    }
    v.environment.ask();
    v.labels.ask();
    v.annotations.ask();
    v.sysctls.ask();
    if let Some(c) = &v.cpuset.clone().into() {
        let c: &CpuSet = c;
        c.ask();
    }
    if let Some(i) = &v.image {
        i.ask();
    }
    if let Some(service::NetworkConfig::Networks(n)) = &v.network_config {
        use_it(IndexMap::<_, _>::from(n.clone()));
        if let Some(d) = n.as_short_iter() {
            use_it(d.collect::<Vec<_>>());
        }
    }
});

ask!(Compose, v, {
    write(v);
    use_it((v.validate_all().is_ok(), v.validate_networks().is_ok(), v.validate_volumes().is_ok(), v.validate_configs().is_ok(), v.validate_secrets().is_ok()));
    for e in [v.validate_all(), v.validate_networks(), v.validate_volumes(), v.validate_configs(), v.validate_secrets()].into_iter().flatten_err() {
        show(&e);
    }
    for s in v.services.values() {
        s.ask();
    }
    for i in &v.include {
        i.ask();
    }
    for n in v.networks.values().flatten() {
        n.ask();
    }
    for n in v.volumes.values().flatten() {
        n.ask();
    }
    for n in v.configs.values() {
        n.ask();
    }
    for n in v.secrets.values() {
        n.ask();
    }
});

trait FlattenErr<E> {
    fn flatten_err(self) -> impl Iterator<Item = E>;
}
impl<T, E, I: Iterator<Item = Result<T, E>>> FlattenErr<E> for I {
    fn flatten_err(self) -> impl Iterator<Item = E> {
        self.filter_map(Result::err)
    }
}

/// Ask the first value, and the others which differ from it.
fn ask_all<T: Doc>(v: &[T]) {
    for (i, v_i) in v.iter().enumerate() {
        if i == 0 || *v_i != v[0] {
            ask_any(v_i);
        }
    }
}

/// Ask what can be asked of this type.
fn ask_any<T: Doc>(v: &T) {
    write(v);
    use_it(v);
    use_it(v.clone());
    let any: &dyn Any = v;
    macro_rules! tries {
        ($($t:ty),* $(,)?) => {$(
            if let Some(v) = any.downcast_ref::<$t>() {
                v.ask();
            }
        )*};
    }
    tries!(
        Compose, Service, Mount, service::ports::Port, Resource<Network>, Resource<Volume>, Resource<Config>, Resource<Secret>,
        ConfigOrSecret, Ulimit, service::Build, Include,
    );
}

// ---------------------------------------------------------------------------------------------
// strings

const TOKENS: &[&str] = &[
    "a", "Z", "0", "1", "9", "-", "+", ".", ",", ":", "/", "@", "=", " ", "_", "*", "\u{e9}", "\u{1F600}", "\n", "\0", "18446744073709551615",
    "18446744073709551616", "65535", "65536", "[", "]", "::1", "~", "#", "?", "%", "\\", "sha256:", "service:", "container:", "type=",
    "rwm", "kb", "gb", "ms", "h", "x-", "//", "\u{301}", "\u{feff}",
];

const CORE: &[&str] = &["a", "0", "1", "-", ".", ",", ":", "/", "@", "=", " ", "\u{e9}", "s"];

/// The number of CPUs in a range, unless that is all right.
fn huge_range(s: &str) -> bool {
    s.split([',', '\n']).any(|r| {
        r.split_once('-').is_some_and(|(a, b)| {
            let n = |t: &str| t.trim().parse::<u64>().ok();
            matches!((n(a), n(b)), (Some(a), Some(b)) if a <= b && b - a > 100_000)
        })
    })
}

struct Kit {
    name: &'static str,
    /// Read in all ways, and ask.
    all: fn(&str) -> bool,
    skip: fn(&str) -> bool,
}

fn quoted(w: &str) -> String {
    let mut q = String::new();
    y::quote(w, &mut q);
    q
}

fn from_str<T: FromStr + Ask>(w: &str) -> bool
where
    T::Err: Debug,
{
    match w.parse::<T>() {
        Ok(v) => {
            v.ask();
            true
        }
        Err(e) => {
            use_it(e);
            false
        }
    }
}

fn from_serde<T: DeserializeOwned + Ask>(w: &str) -> bool {
    let mut any = false;
    for r in [serde_yaml::from_value::<T>(Yaml::String(w.into())), serde_yaml::from_str::<T>(&quoted(w)), serde_yaml::from_str::<T>(w)] {
        match r {
            Ok(v) => {
                v.ask();
                any = true;
            }
            Err(e) => use_it(e.to_string()),
        }
    }
    any
}

macro_rules! both {
    ($($t:ty),* $(,)?) => { vec![$(Kit { name: stringify!($t), all: |w| from_str::<$t>(w) | from_serde::<$t>(w), skip: |_| false }),*] };
}
macro_rules! parse_only {
    ($($t:ty),* $(,)?) => { vec![$(Kit { name: stringify!($t), all: |w| from_str::<$t>(w), skip: |_| false }),*] };
}
macro_rules! serde_only {
    ($($t:ty),* $(,)?) => { vec![$(Kit { name: stringify!($t), all: |w| from_serde::<$t>(w), skip: |_| false }),*] };
}

fn kits() -> Vec<Kit> {
    let mut v = both![
        Identifier, MapKey, ExtensionKey, Name, Hostname, UserName, UlimitResource, CacheOption, Image, ShortPort, ShortRanges, Range, Expose,
        Device, CgroupRule, Link, VolumesFrom, SshAuth, Cache, ByteValue, User, IdOrName, Capability, Count, ShortVolume,
        AbsolutePath, HostPath, Platform, Os, Arch, Context, Ipc, NetworkMode, BuildNetwork, EndpointMode, Driver, MacAddress, Limit<u32>,
        Limit<u64>, Limit<ByteValue>,
    ];
    v.extend(parse_only![Protocol, Permissions, Kind, MajorMinorNumber, VolumesFromSource, SshAuthId, Source, Number]);
    v.extend(serde_only![
        Value, StringOrNumber, ListOrMap, ItemOrList<String>, EnvFile, Percent, OomScoreAdj, Weight, Cpus, ConfigOrSecret, Include,
        ShortOrLong<PathBuf, Include>, ShortOrLong<Identifier, ConfigOrSecret>, Ulimit, service::Build, Mount, service::ports::Port,
    ]);
    v.push(Kit { name: "CpuSet", all: |w| from_str::<CpuSet>(w) | from_serde::<CpuSet>(w), skip: huge_range });
    v.push(Kit {
        name: "duration",
        all: |w| match duration::parse(w) {
            Ok(d) => {
                use_it(duration::parse(&duration::to_string(d)));
                true
            }
            Err(e) => {
                use_it(e.to_string());
                false
            }
        },
        skip: |_| false,
    });
    v.push(Kit {
        name: "image parts",
        all: |w| {
            let mut any = false;
            if let Ok(n) = ImageName::new(w) {
                ask_name(&n);
                any = true;
                // a name in the place of each part
                for host in ["a", "a.b/c:d", "q.r:1/e@sha256:075975296016084fc66b59c35c9d4504765d95aadcd5469f28d2b75750348fc5"] {
                    let mut i = Image::parse(host).unwrap();
                    i.set_name(n);
                    i.ask();
                    let mut i = Image::parse(host).unwrap();
                    i.set_registry(Some(n));
                    i.ask();
                    i.set_registry(Some(n));
                    i.set_name(n);
                    i.ask();
                }
            }
            if let Ok(t) = Tag::new(w) {
                any = true;
                show(&t);
                use_it((t.into_inner(), t == "a"));
                for host in ["a", "a.b/c:d", "q.r:1/e@sha256:075975296016084fc66b59c35c9d4504765d95aadcd5469f28d2b75750348fc5"] {
                    let mut i = Image::parse(host).unwrap();
                    i.set_tag(Some(t));
                    i.ask();
                }
            }
            if let Ok(d) = Digest::new(w) {
                any = true;
                show(&d);
                use_it((d.into_inner(), d == "a"));
                for host in ["a", "a.b/c:d", "q.r:1/e@sha256:075975296016084fc66b59c35c9d4504765d95aadcd5469f28d2b75750348fc5"] {
                    let mut i = Image::parse(host).unwrap();
                    i.set_digest(Some(d));
                    i.ask();
                }
            }
            any
        },
        skip: |_| false,
    });
    v.push(Kit {
        name: "parsers of words",
        all: |w| {
            Value::parse(w).ask();
            StringOrNumber::parse(w).ask();
            Protocol::parse(w).ask();
            Capability::parse(w).ask();
            EndpointMode::parse(w).ask();
            if let Ok(n) = BuildNetwork::parse(w) {
                n.ask();
            }
            Driver::parse(w).ask();
            true
        },
        skip: |_| false,
    });
    v.push(Kit { name: "Compose", all: |w| document(w.as_bytes()), skip: huge_range });
    v
}

/// Read as a document in all ways.
fn document(bytes: &[u8]) -> bool {
    let mut all = vec![serde_yaml::from_slice::<Compose>(bytes), serde_yaml::from_reader(bytes)];
    for merge in [true, false] {
        let mut o = Compose::options();
        o.apply_merge(merge);
        all.push(o.from_yaml_slice(bytes));
        all.push(o.from_yaml_reader(bytes));
        if let Ok(s) = std::str::from_utf8(bytes) {
            all.push(o.from_yaml_str(s));
        }
        if let Ok(v) = serde_yaml::from_slice::<Yaml>(bytes) {
            all.push(o.from_yaml_value(v));
        }
    }
    let mut any = false;
    for r in all {
        match r {
            Ok(c) => {
                c.ask();
                any = true;
            }
            Err(e) => use_it(e.to_string()),
        }
    }
    any
}

fn strings(ctx: &Ctx) {
    let kits = kits();
    // all words over many tokens, and longer ones over few
    let mut counts = Vec::new();
    for (tokens, depth) in [(TOKENS, 3), (CORE, ctx.pick(4, 5))] {
        let n = tokens.len();
        for kit in &kits {
            let depth = if kit.name == "Compose" { depth - 1 } else { depth };
            let total: usize = (0..=depth).map(|d| n.pow(d as u32)).sum();
            let accepted = AtomicU64::new(0);
            ctx.par(total, |mut i| {
                let mut len = 0;
                while i >= n.pow(len) {
                    i -= n.pow(len);
                    len += 1;
                }
                let mut w = String::new();
                for _ in 0..len {
                    w.push_str(tokens[i % n]);
                    i /= n;
                }
                if (kit.skip)(&w) {
                    return;
                }
                ctx.doing(|| format!("{} {w:?}", kit.name));
                ctx.case(
                    || format!("{} {w:?}", kit.name),
                    || {
                        if (kit.all)(&w) {
                            accepted.fetch_add(1, Relaxed);
                        }
                        Ok(())
                    },
                );
            });
            ctx.add_states(total as u64);
            counts.push((kit.name, total, accepted.into_inner()));
        }
    }
    let n = TOKENS.len();
    for (name, total, accepted) in counts {
        ctx.part(&format!("strings read as {name}"), total as u64);
        ctx.outcome(&format!("strings accepted as {name}"), accepted);
    }
    // long strings
    let lens: &[usize] = &[2, 10, 19, 20, 39, 63, 64, 127, 128, 129, 255, 256, 257, 1000];
    let around: Vec<&str> = [""].into_iter().chain(TOKENS.iter().copied()).collect();
    let total = kits.len() * n * around.len();
    ctx.part("long strings", (kits.len() * n * (around.len() * if ctx.thorough() { lens.len() + 1 } else { 5 } * 2)) as u64);
    ctx.par(total, |i| {
        let kit = &kits[i % kits.len()];
        let t = TOKENS[i / kits.len() % n];
        let a = around[i / kits.len() / n];
        let mut lens: Vec<usize> = lens.to_vec();
        if !ctx.thorough() && !a.is_empty() {
            lens.retain(|l| matches!(l, 2 | 20 | 63 | 128 | 256));
        }
        if ctx.thorough() || a.is_empty() {
            lens.push(20_000);
        }
        for len in lens {
            for w in [format!("{a}{}", t.repeat(len)), format!("{}{a}", t.repeat(len))] {
                if (kit.skip)(&w) {
                    continue;
                }
                ctx.doing(|| format!("{} {a:?} {t:?} {len} times", kit.name));
                ctx.case(
                    || format!("{} {a:?} and {t:?} {len} times", kit.name),
                    || {
                        (kit.all)(&w);
                        Ok(())
                    },
                );
            }
        }
    });
}

/// All edits of all images.
fn images(ctx: &Ctx) {
    let parts = ["a", "a.b", "a.b:1", "a:1/b", "localhost", "localhost/a", "a/b", "a.b/c/d", "q:65535/a", "0", "a__b", "a.b-c", "q.r:0/s.t/u"];
    let names: Vec<ImageName<'static>> = parts.iter().filter_map(|p| ImageName::new(p).ok()).collect();
    let tods: Vec<Option<TagOrDigest<'static>>> = vec![
        None,
        Some(Tag::new("t").unwrap().into()),
        Some(Tag::new("1").unwrap().into()),
        Some(Digest::new("a:b").unwrap().into()),
        Some(Digest::new("sha256:075975296016084fc66b59c35c9d4504765d95aadcd5469f28d2b75750348fc5").unwrap().into()),
    ];
    let mut starts: Vec<Image> = Vec::new();
    for n in &names {
        for t in &tods {
            starts.push(Image::from_parts(*n, *t));
            if let Ok(i) = Image::parse(Image::from_parts(*n, *t).into_inner()) {
                starts.push(i);
            }
        }
    }
    type Edit<'a> = Box<dyn Fn(&mut Image) + Sync + 'a>;
    let mut edits: Vec<(String, Edit)> = vec![("set_registry(None)".into(), Box::new(|i: &mut Image| i.set_registry(None)))];
    for n in &names {
        edits.push((format!("set_registry({n})"), Box::new(move |i: &mut Image| i.set_registry(Some(*n)))));
        edits.push((format!("set_name({n})"), Box::new(move |i: &mut Image| i.set_name(*n))));
    }
    for t in &tods {
        edits.push((format!("set_tag_or_digest({t:?})"), Box::new(move |i: &mut Image| i.set_tag_or_digest(*t))));
        edits.push((format!("set_tag({t:?})"), Box::new(move |i: &mut Image| i.set_tag(t.and_then(|t| t.into_tag())))));
        edits.push((format!("set_digest({t:?})"), Box::new(move |i: &mut Image| i.set_digest(t.and_then(|t| t.into_digest())))));
    }
    let e = edits.len();
    let depth: u32 = ctx.pick(2, 3);
    let total = starts.len() * e.pow(depth);
    ctx.part("sequences of image edits", total as u64);
    ctx.add_transitions(total as u64 * u64::from(depth));
    ctx.par(total, |k| {
        let mut j = k;
        let start = &starts[j % starts.len()];
        j /= starts.len();
        let mut seq = Vec::new();
        for _ in 0..depth {
            seq.push(j % e);
            j /= e;
        }
        ctx.case(
            || format!("Image {start}: {:?}", seq.iter().map(|s| &edits[*s].0).collect::<Vec<_>>()),
            || {
                let mut i = start.clone();
                for s in &seq {
                    edits[*s].1(&mut i);
                    i.ask();
                }
                Ok(())
            },
        );
    });
}

// ---------------------------------------------------------------------------------------------
// documents

/// Strings which look like something, put at every node.
fn nasty() -> Vec<Y> {
    let mut v = junk();
    for w in [
        "18446744073709551615", "18446744073709551616", "99999999999999999999999999b", "18446744073709551615gb", "-9223372036854775809",
        "1e999", "nan", "584542046090y", "18446744073709551615h", "18446744073709551615us", "1h1h1h", ".5s", "1.5.5s", "s",
        "0-65535", "0-65535:0-65535", "65535:65535/", "[::1]:80:80", "[::1", "1:2:3:4:5:6", "::", "host:", ":", "::::", "//", "/", ".", "..", "~", "~/",
        "\u{e9}:\u{1F600}", "\u{1F600}=\u{e9}", "@", "a@", "@sha256:", "a@sha256:", ":latest", "a:", "a/", "/a:", "a//b", "service:", "container:",
        "a 1:1 rwm", "c *:* ", "c 99999:1 r", "type=registry", "type=local,", "ref=", ",", ",,", "default", "default=", "=a", "linux//", "linux/arm/v99",
        "0-99999", "5-1", "-", "1-", "-1-", "0x1", "0b", "1kib", "\u{212a}b", "\u{ff11}", "\u{661}s", "1\u{b5}s",
    ] {
        v.push(y::s(w));
    }
    for t in [
        "0x7fffffffffffffff", "-0x1", "1_000", "0o17", "1.7976931348623157e309", "-.inf", ".nan", "-0", "12:30:45", "!!binary aGk=", "!!str 1", "!!int a",
        "!a {b: c}", "!a [b]", "! a", "!!null ''", "!!set {a, b}", "!!float 1", "&a {<<: *a}", "&a [*a]", "{<<: [{a: b}, 1]}", "{<<: a}", "{? {a: b} : c}", "{? [a] : c}", "{!a b: c}", "[!a b, !c {d: e}]",
        "{.nan: a}", "{1.5: a}", "{true: a}", "{null: a}", "{-1: a}", "{18446744073709551616: a}",
    ] {
        v.push(y::raw(t));
    }
    v
}

struct Documents;

impl Visit for Documents {
    fn visit<T: Doc>(&self, ctx: &Ctx, s: &Schema<T>) {
        let b = Bounds { pair_reps: ctx.pick(0, 3), maximal: true, subsets: ctx.pick(0, 8), forms: true };
        let all = picks(s, &b);
        ctx.part(&format!("documents of {}", s.name), all.len() as u64);
        ctx.par(all.len(), |k| {
            let p = &all[k];
            ctx.doing(|| p.name(s));
            ctx.case(
                || p.name(s),
                || {
                    ask_all(&routes::<T>(&p.doc(s)));
                    ask_any(&p.value(s));
                    Ok(())
                },
            );
        });
        let nasty = nasty();
        let hosts = hosts(s, ctx.thorough() && !matches!(s.name, "Service" | "Compose" | "Deploy"));
        let accepted = AtomicU64::new(0);
        let tried = mutants(ctx, &hosts, &nasty, |doc| {
            ctx.doing(|| format!("{} {}", s.name, doc.flow()));
            ctx.case(
                || format!("{} {}", s.name, doc.flow()),
                || {
                    let all = routes::<T>(doc);
                    accepted.fetch_add(u64::from(!all.is_empty()), Relaxed);
                    ask_all(&all);
                    Ok(())
                },
            );
        });
        ctx.add_states(tried);
        ctx.part(&format!("mutated documents of {}", s.name), tried);
        ctx.outcome("mutated documents accepted", accepted.load(Relaxed));
        ctx.outcome("mutated documents rejected", tried - accepted.into_inner());
        // keys
        let keys = ["", "a", "x-", "x-\u{1F600}", "\0", "\n", "<<", "~", "1", "-", "\u{e9}", "true", "=", "type", "external", "disable"];
        let mut n = 0;
        for h in hosts.iter().take(ctx.pick(40, 400)) {
            for p in h.paths() {
                if !matches!(h.at(&p), Y::M(_) | Y::O(_)) {
                    continue;
                }
                for k in keys {
                    for j in [Y::Null, Y::I(1), y::s("a"), y::l([]), crate::doc::empty_map()] {
                        let mut doc = h.clone();
                        match doc.at_mut(&p) {
                            Y::M(v) | Y::O(v) => v.push((k.to_owned(), j)),
                            _ => unreachable!(),
                        }
                        n += 1;
                        ctx.case(
                            || format!("{} {}", s.name, doc.flow()),
                            || {
                                ask_all(&routes::<T>(&doc));
                                Ok(())
                            },
                        );
                    }
                }
            }
        }
        ctx.add_states(n);
        ctx.part(&format!("further keys in {}", s.name), n);
        foreign::<T>(ctx, s.name);
    }
}

/// Read in all ways; what was accepted.
fn routes<T: Doc>(doc: &Y) -> Vec<T> {
    let text = doc.flow();
    let mut v = Vec::new();
    v.extend(serde_yaml::from_str(&text));
    v.extend(serde_yaml::from_reader(text.as_bytes()));
    if let Ok(y) = serde_yaml::from_str::<Yaml>(&text) {
        let mut merged = y.clone();
        if merged.apply_merge().is_ok() {
            v.extend(serde_yaml::from_value(merged));
        }
        v.extend(serde_yaml::from_value(y));
    }
    if (&v as &dyn Any).is::<Vec<Compose>>() {
        document(text.as_bytes());
    }
    v
}

/// Deserializers which YAML does not have.
fn foreign<T: Doc>(ctx: &Ctx, name: &str) {
    let ask = |r: Result<T, DeError>| {
        if let Ok(v) = r {
            // such a value need not be possible to write
            let _ = guard(|| use_it(&v));
        }
    };
    ctx.case(
        || format!("{name} from other formats"),
        || {
            ask(T::deserialize(UnitDeserializer::new()));
            ask(T::deserialize(true.into_deserializer()));
            ask(T::deserialize(CharDeserializer::new('\u{1F600}')));
            ask(T::deserialize(BytesDeserializer::new(b"\xff\0a")));
            ask(T::deserialize(BytesDeserializer::new(b"")));
            ask(T::deserialize(BorrowedBytesDeserializer::new(b"a")));
            ask(T::deserialize(1u8.into_deserializer()));
            ask(T::deserialize((-1i8).into_deserializer()));
            ask(T::deserialize(u128::MAX.into_deserializer()));
            ask(T::deserialize(i128::MIN.into_deserializer()));
            ask(T::deserialize(f32::NAN.into_deserializer()));
            ask(T::deserialize(StrDeserializer::new("a")));
            ask(T::deserialize(StringDeserializer::new("a".into())));
            for len in 0..3 {
                ask(T::deserialize(SeqDeserializer::new(vec!["a"; len].into_iter())));
                ask(T::deserialize(SeqDeserializer::new(vec![u64::MAX; len].into_iter())));
                ask(T::deserialize(SeqDeserializer::new(vec![(); len].into_iter())));
                ask(T::deserialize(MapDeserializer::new(vec![("a", 1u8); len].into_iter())));
                ask(T::deserialize(MapDeserializer::new(vec![(1u8, "a"); len].into_iter())));
                ask(T::deserialize(MapDeserializer::new(vec![((), ()); len].into_iter())));
                ask(T::deserialize(MapDeserializer::new(vec![('a', true); len].into_iter())));
                for key in ["type", "external", "source", "target", "context", "test", "disable", "image", "services", "name", "file", "soft"] {
                    ask(T::deserialize(MapDeserializer::new(vec![(key, "a"); len].into_iter())));
                    ask(T::deserialize(MapDeserializer::new(vec![(key, 1u64); len].into_iter())));
                    ask(T::deserialize(MapDeserializer::new(vec![(key, ()); len].into_iter())));
                    ask(T::deserialize(MapDeserializer::new(vec![(key, vec!["a"]); len].into_iter())));
                }
            }
            Ok(())
        },
    );
    ctx.part("reads from other formats", 1);
}

// ---------------------------------------------------------------------------------------------
// bytes, nesting, aliases

const BYTES: &[&[u8]] = &[
    b"a", b":", b" ", b"\n", b"-", b"{", b"}", b"[", b"]", b"&a ", b"*a", b"!t ", b"|", b"'", b"\"", b"<<", b"x-a", b"\t", b"\xef\xbb\xbf", b"\xff", b"\0", b"services",
    b"#", b"%", b"---\n", b"...\n", b"? ", b", ", b": ", b"~", b"1", b"\xc3", b"\\",
];

fn bytes(ctx: &Ctx) {
    let n = BYTES.len();
    let depth: u32 = ctx.pick(3, 4);
    let frames: &[(&[u8], &[u8])] = &[
        (b"", b""),
        (b"services: {a: {", b"}}"),
        (b"services:\n  a:\n    image: ", b"\n"),
        (b"services:\n  a:\n    ports:\n    - ", b"\nx-a: 1\n"),
        (b"x-a: &a {b: c}\nservices:\n  a:\n    <<: ", b"\n"),
    ];
    let total: usize = (0..=depth).map(|d| n.pow(d)).sum();
    ctx.part("byte strings", (total * frames.len()) as u64);
    ctx.add_states((total * frames.len()) as u64);
    let accepted = AtomicU64::new(0);
    ctx.par(total * frames.len(), |k| {
        let (before, after) = frames[k % frames.len()];
        let mut i = k / frames.len();
        let mut len = 0;
        while i >= n.pow(len) {
            i -= n.pow(len);
            len += 1;
        }
        let mut text = before.to_vec();
        for _ in 0..len {
            text.extend_from_slice(BYTES[i % n]);
            i /= n;
        }
        text.extend_from_slice(after);
        ctx.doing(|| format!("bytes {}", text.escape_ascii()));
        ctx.case(
            || format!("bytes {}", text.escape_ascii()),
            || {
                accepted.fetch_add(u64::from(document(&text)), Relaxed);
                Ok(())
            },
        );
    });
    ctx.outcome("byte strings accepted as a document", accepted.into_inner());
    // every prefix of a document, and every byte of it replaced
    let docs = [
        "name: a\nservices:\n  web:\n    image: quay.io/podman/hello:latest\n    ports: ['80-81:80-81/udp', {target: 1}]\n    volumes:\n    - a:/b:ro\n    - {type: bind, source: /a, target: /b}\n    environment: &e {A: 1, B}\n    labels:\n      <<: *e\n    healthcheck: {test: [CMD, a], interval: 1m30s}\n    cpuset: 0-3,5\n    mem_limit: 1gb\nnetworks: {a: {external: true}}\nx-a: !t |\n  text\n",
    ];
    for d in docs {
        let d = d.as_bytes();
        ctx.part("cut and overwritten documents", (d.len() * 2 + d.len() * 256) as u64);
        ctx.par(d.len(), |i| {
            let mut all = vec![d[..i].to_vec(), d[i..].to_vec()];
            for b in 0..=255 {
                let mut v = d.to_vec();
                v[i] = b;
                all.push(v);
            }
            for v in all {
                // 0-3 in the cpuset may become a huge number only of few digits
                ctx.case(
                    || format!("bytes {}", v.escape_ascii()),
                    || {
                        document(&v);
                        Ok(())
                    },
                );
            }
        });
    }
}

struct Deep;

impl Visit for Deep {
    fn visit<T: Doc>(&self, ctx: &Ctx, s: &Schema<T>) {
        let base = s.base_doc.flow();
        let base = base.trim().trim_start_matches('{').trim_end_matches('}').to_owned();
        let keys: Vec<String> = s.items.iter().filter_map(|i| i.forms[0].entries().first().map(|e| e.0.clone())).chain(["x-a".to_owned()]).collect();
        let mut keys: Vec<String> = keys.into_iter().filter(|k| !k.is_empty()).collect();
        keys.sort();
        keys.dedup();
        ctx.part("deeply nested documents", keys.len() as u64 * 8);
        ctx.par(keys.len(), |i| {
            let key = &keys[i];
            for depth in [10usize, 100, 127, 128, 129, 1000] {
                for (open, close) in [("[", "]"), ("{a: ", "}"), ("{<<: ", "}"), ("!t {a: ", "}")] {
                    let sep = if base.is_empty() { "" } else { ", " };
                    let text = format!("{{{base}{sep}{}: {}1{}}}", quoted(key), open.repeat(depth), close.repeat(depth));
                    ctx.doing(|| format!("{} {key} {open} {depth} deep", s.name));
                    ctx.case(
                        || format!("{} {key} {open} {depth} deep", s.name),
                        || {
                            if let Ok(v) = serde_yaml::from_str::<T>(&text) {
                                ask_any(&v);
                            }
                            // a value is not limited by the parser
                            let mut y = Yaml::from(1);
                            for _ in 0..depth.min(500) {
                                y = if open == "[" { Yaml::Sequence(vec![y]) } else { Yaml::Mapping([(Yaml::from(if open.contains('<') { "<<" } else { "a" }), y)].into_iter().collect()) };
                            }
                            let mut doc = s.base_doc.value();
                            if let Yaml::Mapping(m) = &mut doc {
                                m.insert(key.as_str().into(), y);
                            }
                            if let Ok(v) = serde_yaml::from_value::<T>(doc.clone()) {
                                ask_any(&v);
                            }
                            if s.name == "Compose" {
                                let mut o = Compose::options();
                                use_it(o.apply_merge(true).from_yaml_value(doc).is_ok());
                                use_it(o.from_yaml_str(&text).is_ok());
                            }
                            Ok(())
                        },
                    );
                }
            }
        });
    }
}

fn aliases(ctx: &Ctx) {
    let texts = [
        "x-a: &a [*a]\nservices: {}\n".to_owned(),
        "x-a: &a {<<: *a}\nservices: {}\n".into(),
        "x-a: &a {b: &b {<<: *a}, <<: *b}\nservices: {}\n".into(),
        "x-a: *b\nservices: {}\n".into(),
        "x-a: &a {b: 1}\nservices: {a: *a}\n".into(),
        "services: &s {a: {image: a}, <<: {}}\nx-a: *s\n".into(),
        "services: {a: &a {<<: *a, image: b}}\n".into(),
        // one doubling after another
        {
            let mut t = "x-0: &a0 [1, 1]\n".to_owned();
            for i in 1..40 {
                t.push_str(&format!("x-{i}: &a{i} [*a{0}, *a{0}]\n", i - 1));
            }
            t + "services: {}\n"
        },
        {
            let mut t = "x-0: &a0 {a: 1}\n".to_owned();
            for i in 1..40 {
                t.push_str(&format!("x-{i}: &a{i} {{<<: [*a{0}, *a{0}], b{i}: *a{0}}}\n", i - 1));
            }
            t + "services: {}\n"
        },
        {
            let mut t = "x-0: &a0 {a: 1}\n".to_owned();
            for i in 1..200 {
                t.push_str(&format!("x-{i}: &a{i} {{<<: *a{}, b{i}: 1}}\n", i - 1));
            }
            t + "services: {}\n"
        },
    ];
    ctx.part("alias documents", texts.len() as u64);
    ctx.par(texts.len(), |i| {
        ctx.doing(|| format!("aliases {:?}", texts[i]));
        ctx.case(
            || format!("aliases {:?}", texts[i]),
            || {
                document(texts[i].as_bytes());
                Ok(())
            },
        );
    });
}

// ---------------------------------------------------------------------------------------------
// in processes of their own

/// Inputs which may use up all memory or time.
const ALONE: &[(&str, &str)] = &[
    ("cpuset", "0-18446744073709551615"),
    ("size", "0-65535"),
    ("duration", "18446744073709551615h"),
    ("image", ""),
];

/// What a process of its own does.
pub fn alone(what: &str, input: &str) {
    match what {
        "cpuset" => use_it(input.parse::<CpuSet>().map(|c| c.0.len())),
        "size" => use_it(input.parse::<Range>().map(|r| r.size())),
        "duration" => use_it(duration::parse(input)),
        _ => use_it(input.parse::<Image>()),
    }
}

fn processes(ctx: &Ctx) {
    ctx.part("inputs in a process of their own", ALONE.len() as u64);
    let exe = std::env::current_exe().expect("exe");
    ctx.par(ALONE.len(), |i| {
        let (what, input) = ALONE[i];
        ctx.case(
            || format!("{what} {input}"),
            || {
                let out = std::process::Command::new("sh")
                    .args(["-c", "ulimit -v 300000; ulimit -t 60; ulimit -c 0; exec \"$0\" alone \"$1\" \"$2\""])
                    .arg(&exe)
                    .args([what, input])
                    .output()
                    .map_err(|e| e.to_string())?;
                if out.status.success() {
                    return Ok(());
                }
                let err = String::from_utf8_lossy(&out.stderr);
                Err(format!("ended with {}: {}", out.status, err.lines().last().unwrap_or("").chars().take(200).collect::<String>()))
            },
        );
    });
}

pub fn run(ctx: &Ctx) {
    for (what, f) in [
        ("processes", processes as fn(&Ctx)),
        ("strings", strings),
        ("images", images),
        ("bytes", bytes),
        ("aliases", aliases),
    ] {
        let start = std::time::Instant::now();
        f(ctx);
        if std::env::var_os("MC_TIME").is_some() {
            eprintln!("{what}: {:?}", start.elapsed());
        }
    }
    each(ctx, &Deep);
    each(ctx, &Documents);
    // further types which are read on their own
    for s in sc::mount_() {
        foreign::<Mount>(ctx, s.name);
    }
}
