//! C21: values built from parts are those which documents with these parts give, and what a value
//! is asked about itself is answered by its parts.
use std::{
    borrow::Cow,
    fmt::Debug,
    path::{Path, PathBuf},
};

use compose_spec::{
    config, secret,
    service::{
        self,
        build::{Cache, CacheOption, CacheType, Context, Dockerfile},
        deploy::resources::{Capability, Device as DeployDevice},
        device::Permissions,
        env_file,
        image::{Name, TagOrDigest},
        healthcheck::{Command as HealthCommand, Test},
        network_config::{NetworkConfig, NetworkMode},
        ports::{Port, Protocol, Range, ShortPort, ShortRanges},
        user::{IdOrName, Name as UserName, User},
        volumes::{
            mount::{
                Bind, BindOptions, BindPropagation, Cluster, Common, Mount, NamedPipe, Tmpfs, TmpfsOptions,
                Volume, VolumeOptions,
            },
            AbsolutePath, HostPath, SELinux, ShortOptions, ShortVolume, Source,
        },
        ByteValue, ConfigOrSecret, EnvFile, Expose, Healthcheck, Image, Limit, Link, Ulimit, VolumesFrom,
    },
    AsShort, AsShortIter, Config, ExtensionKey, Identifier, Include, ItemOrList, Network, Resource, Secret, ShortOrLong,
    Volume as TopVolume,
};
use indexmap::{IndexMap, IndexSet};
use serde::{de::DeserializeOwned, Serialize};

use crate::engine::Ctx;

pub const ASSUME: &[&str] = &[
    "a constructor, conversion or default sets what it is given and leaves all else as in a document which does not write it",
];

type R = Result<(), String>;

fn same<T: PartialEq + Debug + ?Sized>(what: &str, got: &T, want: &T) -> R {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: {got:?}, expected {want:?}"))
    }
}

fn read<T: DeserializeOwned>(doc: &str) -> Result<T, String> {
    serde_yaml::from_str(doc).map_err(|e| format!("{doc} is rejected: {e}"))
}

/// The value is the one of the document, and is written like it.
fn is<T: DeserializeOwned + Serialize + PartialEq + Debug>(what: &str, v: &T, doc: &str) -> R {
    let w: T = read(doc)?;
    same(what, v, &w)?;
    let (a, b) = (serde_yaml::to_value(v), serde_yaml::to_value(&w));
    match (a, b) {
        (Ok(a), Ok(b)) if a == b => Ok(()),
        (a, b) => Err(format!("{what}: written as {a:?}, but as {b:?} after reading {doc}")),
    }
}

struct Check<'a>(&'a Ctx);

impl Check<'_> {
    fn case(&self, key: impl Fn() -> String, f: impl FnOnce() -> R) {
        self.0.add_states(1);
        self.0.case(key, f);
    }
}

fn id(s: &str) -> Identifier {
    Identifier::new(s).unwrap()
}
fn abs(s: &str) -> AbsolutePath {
    AbsolutePath::new(s).unwrap()
}
fn host(s: &str) -> HostPath {
    HostPath::new(s).unwrap()
}
fn q(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

// ------------------------------------------------------------------- mounts

/// What a mount says, beside its kind.
#[derive(Clone)]
struct M {
    target: &'static str,
    read_only: bool,
    consistency: Option<&'static str>,
    ext: &'static [&'static str],
}

impl M {
    fn common(&self) -> Common {
        let mut c = if self.read_only { Common::new(abs(self.target)) } else { abs(self.target).into() };
        c.read_only = self.read_only;
        c.consistency = self.consistency.map(str::to_owned);
        for (n, e) in self.ext.iter().enumerate() {
            c.extensions.insert(ExtensionKey::new(*e).unwrap(), n.into());
        }
        c
    }

    fn plain(&self) -> bool {
        !self.read_only && self.consistency.is_none() && self.ext.is_empty()
    }

    fn doc(&self, kind: &str, source: Option<&str>, block: Option<&str>) -> String {
        let mut v = vec![format!("type: {kind}")];
        v.extend(source.map(|s| format!("source: {}", q(s))));
        v.extend(block.map(|b| format!("{kind}: {b}")));
        v.push(format!("target: {}", q(self.target)));
        if self.read_only {
            v.push("read_only: true".into());
        }
        v.extend(self.consistency.map(|c| format!("consistency: {}", q(c))));
        for (n, e) in self.ext.iter().enumerate() {
            v.push(format!("{e}: {n}"));
        }
        format!("{{{}}}", v.join(", "))
    }
}

/// What may be asked of a mount.
fn ask_mount(m: &Mount, kind: &str, source: Option<&str>, common: &Common) -> R {
    same("kind", m.kind(), kind)?;
    same(
        "is_",
        &[m.is_volume(), m.is_bind(), m.is_tmpfs(), m.is_named_pipe(), m.is_cluster()],
        &[kind == "volume", kind == "bind", kind == "tmpfs", kind == "npipe", kind == "cluster"],
    )?;
    same(
        "as_",
        &[
            m.as_volume().map(|x| Mount::Volume(x.clone())),
            m.as_bind().map(|x| Mount::Bind(x.clone())),
            m.as_tmpfs().map(|x| Mount::Tmpfs(x.clone())),
            m.as_named_pipe().map(|x| Mount::NamedPipe(x.clone())),
            m.as_cluster().map(|x| Mount::Cluster(x.clone())),
        ],
        &["volume", "bind", "tmpfs", "npipe", "cluster"].map(|k| (k == kind).then(|| m.clone())),
    )?;
    same("common", m.common(), common)?;
    same("source_to_string", &m.source_to_string().as_deref(), &source)
}

fn mounts(c: &Check) {
    let mut all = vec![];
    for target in ["/", "/a", "/a/b c", "/é.d"] {
        for read_only in [false, true] {
            for consistency in [None, Some("cached"), Some("")] {
                for ext in [&[][..], &["x-a"], &["x-b", "x-a"]] {
                    all.push(M { target, read_only, consistency, ext });
                }
            }
        }
    }
    let n = all.len();
    for m in &all {
        let common = m.common();
        let one = |kind: &'static str, source: Option<&str>, block: Option<&str>, v: &dyn Fn() -> Mount| {
            let doc = m.doc(kind, source, block);
            c.case(
                || format!("mount {doc}"),
                || {
                    let v = v();
                    is("mount", &v, &doc)?;
                    ask_mount(&v, kind, source, &common)
                },
            );
        };
        for s in [None, Some("v"), Some("V_1.x-y")] {
            one("volume", s, None, &|| {
                let mut v = Volume::from(common.clone());
                v.source = s.map(id);
                v.into()
            });
            for (nocopy, subpath, doc) in [
                (false, None, "{}"),
                (true, None, "{nocopy: true}"),
                (false, Some("s/u"), "{subpath: s/u}"),
                (true, Some("/s"), "{subpath: /s, nocopy: true}"),
            ] {
                one("volume", s, Some(doc), &|| {
                    let mut v = Volume::new(common.clone());
                    v.source = s.map(id);
                    v.volume = Some(VolumeOptions { nocopy, subpath: subpath.map(Into::into), ..Default::default() });
                    Mount::Volume(v)
                });
            }
        }
        for s in ["/", ".", "..", "/h", "./h/i", "../h j"] {
            one("bind", Some(s), None, &|| Bind::new(host(s), common.clone()).into());
            one("bind", Some(s), None, &|| Mount::Bind((host(s), common.clone()).into()));
            let with = |b: BindOptions| -> Mount {
                let mut v = Bind::new(host(s), common.clone());
                v.bind = Some(b);
                v.into()
            };
            one("bind", Some(s), Some("{}"), &|| with(None::<BindPropagation>.into()));
            one("bind", Some(s), Some("{}"), &|| with(None::<SELinux>.into()));
            one("bind", Some(s), Some("{}"), &|| with(BindOptions::default()));
            one("bind", Some(s), Some("{selinux: z}"), &|| with(SELinux::Shared.into()));
            one("bind", Some(s), Some("{selinux: Z}"), &|| with(Some(SELinux::Private).into()));
            for (p, t) in [
                (BindPropagation::Private, "private"),
                (BindPropagation::RPrivate, "rprivate"),
                (BindPropagation::Shared, "shared"),
                (BindPropagation::RShared, "rshared"),
                (BindPropagation::Slave, "slave"),
                (BindPropagation::RSlave, "rslave"),
            ] {
                one("bind", Some(s), Some(&format!("{{propagation: {t}}}")), &|| with(p.into()));
                one("bind", Some(s), Some(&format!("{{propagation: {t}, create_host_path: true}}")), &|| {
                    let mut b: BindOptions = Some(p).into();
                    b.create_host_path = true;
                    with(b)
                });
            }
            one("npipe", Some(s), None, &|| Mount::from(NamedPipe::from((host(s), common.clone()))));
            one("npipe", Some(s), None, &|| Mount::NamedPipe(NamedPipe { source: host(s), common: common.clone() }));
        }
        one("tmpfs", None, None, &|| Tmpfs::new(common.clone()).into());
        one("tmpfs", None, None, &|| Mount::Tmpfs(common.clone().into()));
        if m.plain() {
            one("tmpfs", None, None, &|| Tmpfs::from_target(abs(m.target)).into());
            one("tmpfs", None, None, &|| Mount::Tmpfs(abs(m.target).into()));
        }
        one("tmpfs", None, Some("{size: 5k, mode: 438}"), &|| {
            let mut v = Tmpfs::new(common.clone());
            v.tmpfs = Some(TmpfsOptions { size: Some(ByteValue::Kilobytes(5)), mode: Some(0o666), ..Default::default() });
            v.into()
        });
        one("tmpfs", None, Some("{}"), &|| {
            let mut v = Tmpfs::new(common.clone());
            v.tmpfs = Some(TmpfsOptions::default());
            v.into()
        });
        for s in ["", "/", "group:a", "./c"] {
            one("cluster", Some(s), None, &|| Mount::from(Cluster::from((s.to_owned(), common.clone()))));
            one("cluster", Some(s), None, &|| Mount::Cluster(Cluster { source: s.into(), common: common.clone() }));
        }
    }
    c.0.part("common parts of mounts", n as u64);

    // short volumes
    for target in ["/", "/a", "/a/b"] {
        c.case(
            || format!("short volume {target}"),
            || {
                is("ShortVolume::new", &ShortVolume::new(abs(target)), target)?;
                is("From", &ShortVolume::from(abs(target)), target)?;
                let m: Mount = ShortVolume::new(abs(target)).into();
                is("Mount", &m, &format!("{{type: volume, target: {target}}}"))
            },
        );
        for (s, is_host) in [("v", false), ("/", true), ("/h", true), ("./h", true), ("..", true)] {
            for read_only in [false, true] {
                for selinux in [None, Some(SELinux::Shared), Some(SELinux::Private)] {
                    let mut o: Vec<&str> = vec![];
                    if read_only {
                        o.push("ro");
                    }
                    o.extend(selinux.map(|x| x.as_str()));
                    let text = format!("{s}:{target}{}{}", if o.is_empty() { "" } else { ":" }, o.join(","));
                    c.case(
                        || format!("short volume {text}"),
                        || {
                            let sources: Vec<Source> = if is_host {
                                vec![host(s).into(), Source::HostPath(host(s))]
                            } else {
                                vec![id(s).into(), Source::Volume(id(s))]
                            };
                            for source in sources {
                                for mut options in [ShortOptions::new(source.clone()), source.into()] {
                                    options.read_only = read_only;
                                    options.selinux = selinux;
                                    let mut v = ShortVolume::new(abs(target));
                                    v.options = Some(options);
                                    is("short volume", &v, &text)?;
                                    same("text", &v.to_string(), &text)?;
                                    let m = Mount::from(v.clone());
                                    same("into_long", &v.into_long(), &m)?;
                                    ask_mount(&m, if is_host { "bind" } else { "volume" }, Some(s), m.common())?;
                                    same("target", m.common().target.as_path(), Path::new(target))?;
                                    same("read_only", &m.common().read_only, &read_only)?;
                                }
                            }
                            if s.starts_with('/') {
                                same("source", &Source::from(abs(s)), &Source::HostPath(host(s)))?;
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }
    for (x, ch, s) in [(SELinux::Shared, 'z', "z"), (SELinux::Private, 'Z', "Z")] {
        c.case(
            || format!("selinux {s}"),
            || {
                same("as_char", &x.as_char(), &ch)?;
                same("char", &char::from(x), &ch)?;
                same("as_str", x.as_str(), s)?;
                same("as_ref", x.as_ref(), s)?;
                same("text", &x.to_string(), &s.to_owned())
            },
        );
    }
}

// ------------------------------------------------------------------- users

fn users(c: &Check) {
    let ids = [0u32, 1, 1000, u32::MAX];
    let names = ["a", "root", "_x", "www-data"];
    let parts: Vec<IdOrName> = ids
        .iter()
        .map(|n| IdOrName::from(*n))
        .chain(names.iter().map(|n| IdOrName::from(UserName::new(*n).unwrap())))
        .collect();
    let texts: Vec<String> = ids.iter().map(u32::to_string).chain(names.iter().map(|n| (*n).to_owned())).collect();
    let name = |k: usize| UserName::new(texts[k].as_str()).unwrap();
    let k = ids.len();
    let all = |u: &User, a: usize, b: Option<usize>| -> R {
        let text = b.map_or(texts[a].clone(), |b| format!("{}:{}", texts[a], texts[b]));
        is("user", u, &q(&text))?;
        same("user part", &u.user, &parts[a])?;
        same("group part", &u.group, &b.map(|b| parts[b].clone()))?;
        same("Display", &u.to_string(), &text)?;
        same("String", &String::from(u.clone()), &text)?;
        same("parse", &User::parse(text.as_str()).map_err(|e| e.to_string())?, u)?;
        same("parse String", &User::parse(text).map_err(|e| e.to_string())?, u)
    };
    for a in 0..parts.len() {
        c.case(
            || format!("user {}", texts[a]),
            || {
                let p = &parts[a];
                let number = (a < k).then(|| ids[a]);
                same("is_id", &p.is_id(), &number.is_some())?;
                same("as_id", &p.as_id(), &number)?;
                same("is_name", &p.is_name(), &number.is_none())?;
                same("as_name", &p.as_name().map(|n| n.as_str().to_owned()), &number.is_none().then(|| texts[a].clone()))?;
                same("part text", &p.to_string(), &texts[a])?;
                same("part String", &String::from(p.clone()), &texts[a])?;
                is("part", p, &if a < k { texts[a].clone() } else { q(&texts[a]) })?;
                all(&User::from(p.clone()), a, None)?;
                match number {
                    Some(n) => {
                        same("variant", p, &IdOrName::Id(n))?;
                        all(&User::from(n), a, None)
                    }
                    None => {
                        same("variant", p, &IdOrName::Name(name(a)))?;
                        all(&User::from(name(a)), a, None)
                    }
                }
            },
        );
        for b in 0..parts.len() {
            c.case(
                || format!("user {}:{}", texts[a], texts[b]),
                || {
                    all(&User::from((parts[a].clone(), parts[b].clone())), a, Some(b))?;
                    let u = match (a < k, b < k) {
                        (true, true) => User::from((ids[a], ids[b])),
                        (true, false) => User::from((ids[a], name(b))),
                        (false, true) => User::from((name(a), ids[b])),
                        (false, false) => User::from((name(a), name(b))),
                    };
                    all(&u, a, Some(b))
                },
            );
        }
    }
}

// ------------------------------------------------------------------- resources

fn resource<T>(c: &Check, kind: &str, docs: &[(&str, Option<&str>)], name: Option<fn(&Resource<T>) -> Option<&String>>)
where
    T: DeserializeOwned + Serialize + PartialEq + Debug + Clone + Into<Resource<T>>,
{
    for n in [None, Some(""), Some("n"), Some("a b")] {
        c.case(
            || format!("external {kind} {n:?}"),
            || {
                let r: Resource<T> = Resource::external(n.map(str::to_owned));
                let doc = n.map_or("{external: true}".to_owned(), |n| format!("{{external: true, name: {}}}", q(n)));
                is("external", &r, &doc)?;
                same("is_", &(r.is_external(), r.is_compose()), &(true, false))?;
                same("as_compose", &r.as_compose(), &None)?;
                same("variant", &r, &Resource::External { name: n.map(str::to_owned) })?;
                match name {
                    Some(f) => same("name", &f(&r).map(String::as_str), &n),
                    None => Ok(()),
                }
            },
        );
    }
    for (doc, n) in docs {
        c.case(
            || format!("{kind} {doc}"),
            || {
                let t: T = read(doc)?;
                let r: Resource<T> = t.clone().into();
                is("resource", &r, doc)?;
                same("is_", &(r.is_external(), r.is_compose()), &(false, true))?;
                same("as_compose", &r.as_compose(), &Some(&t))?;
                match name {
                    Some(f) => same("name", &f(&r).map(String::as_str), n),
                    None => Ok(()),
                }
            },
        );
    }
}

fn resources(c: &Check) {
    let named = [
        ("{}", None),
        ("{name: n}", Some("n")),
        ("{name: ''}", Some("")),
        ("{driver: d, labels: {name: l}}", None),
        ("{driver: d, name: a b, x-name: c}", Some("a b")),
    ];
    resource::<Network>(c, "network", &named, Some(Resource::<Network>::name));
    resource::<TopVolume>(c, "volume", &named, Some(Resource::<TopVolume>::name));
    resource::<Config>(c, "config", &[("{file: f}", None), ("{environment: E}", None), ("{content: c, labels: [a]}", None)], None);
    resource::<Secret>(c, "secret", &[("{file: f}", None), ("{environment: E, driver: d}", None)], None);

    for p in ["", "f", "./a/b c", "/é"] {
        c.case(
            || format!("sources {p:?}"),
            || {
                let path = PathBuf::from(p);
                is("config of a path", &Config::from(config::Source::from(path.clone())), &format!("{{file: {}}}", q(p)))?;
                is("config of a file", &Config::from(config::Source::File(path.clone())), &format!("{{file: {}}}", q(p)))?;
                is("config of a variable", &Config::from(config::Source::Environment(p.into())), &format!("{{environment: {}}}", q(p)))?;
                is("config of content", &Config::from(config::Source::Content(p.into())), &format!("{{content: {}}}", q(p)))?;
                is("secret of a path", &Secret::from(secret::Source::from(path.clone())), &format!("{{file: {}}}", q(p)))?;
                is("secret of a file", &Secret::from(secret::Source::File(path.clone())), &format!("{{file: {}}}", q(p)))?;
                is("secret of a variable", &Secret::from(secret::Source::Environment(p.into())), &format!("{{environment: {}}}", q(p)))?;
                is("include", &Include::from(path.clone()), &format!("{{path: {}}}", q(p)))?;
                is("include", &ShortOrLong::<PathBuf, Include>::from(path.clone()), &q(p))?;
                is("include", &ShortOrLong::<PathBuf, Include>::from(p.to_owned()), &q(p))?;
                is("long include", &ShortOrLong::<PathBuf, Include>::from(Include::from(path.clone())), &format!("{{path: {}}}", q(p)))?;
                same("into_long", &ShortOrLong::<PathBuf, Include>::Short(path.clone()).into_long(), &Include::from(path.clone()))?;
                is("dockerfile", &Dockerfile::File(path.clone()), &format!("{{dockerfile: {}}}", q(p)))?;
                is("dockerfile", &Dockerfile::Inline(p.into()), &format!("{{dockerfile_inline: {}}}", q(p)))?;
                // environment files
                let long = env_file::Config::from(path.clone());
                is("env_file config", &long, &format!("{{path: {}}}", q(p)))?;
                same("env_file config", &env_file::Config::from(p.to_owned()), &long)?;
                same("required", &long.required, &true)?;
                same("as_short", &long.as_short(), &Some(&path))?;
                let optional = env_file::Config { path: path.clone(), required: false };
                is("optional env_file", &optional, &format!("{{path: {}, required: false}}", q(p)))?;
                same("as_short", &optional.as_short(), &None)?;
                is("env_file", &EnvFile::from(path.clone()), &q(p))?;
                is("env_file", &EnvFile::from(p.to_owned()), &q(p))?;
                is("env_file", &[path.clone()].into_iter().collect::<EnvFile>(), &format!("[{}]", q(p)))?;
                is("env_file", &[optional.clone()].into_iter().collect::<EnvFile>(), &format!("[{{path: {}, required: false}}]", q(p)))?;
                let both: Vec<ShortOrLong<PathBuf, env_file::Config>> = vec![long.clone().into(), path.clone().into()];
                is("env_file", &EnvFile::from(both.clone()), &format!("[{{path: {0}}}, {0}]", q(p)))?;
                same("as_single", &EnvFile::from(path.clone()).as_single(), &Some(&path))?;
                same("as_single", &EnvFile::from(both.clone()).as_single(), &None)?;
                same("as_single", &EnvFile::List(vec![both[0].clone()]).as_single(), &Some(&path))?;
                same("as_single", &EnvFile::List(vec![both[1].clone()]).as_single(), &Some(&path))?;
                same("as_single", &EnvFile::List(vec![optional.into()]).as_single(), &None)?;
                same("as_single", &EnvFile::List(vec![]).as_single(), &None)?;
                same("into_list", &EnvFile::from(both.clone()).into_list(), &both)?;
                same("into_list", &EnvFile::from(path.clone()).into_list(), &vec![ShortOrLong::Short(path.clone())])
            },
        );
    }
}

// ------------------------------------------------------------------- images, caches, contexts

fn builds(c: &Check) {
    for text in ["a", "a/b:1", "q.io/a", "q.io:5000/a/b:t", "a@sha256:0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"] {
        c.case(
            || format!("image {text}"),
            || {
                let image = Image::parse(text).map_err(|e| e.to_string())?;
                let doc = q(text);
                is("image", &image, &doc)?;
                is("cache of an image", &Cache::from(image.clone()), &doc)?;
                is("cache of an image", &Cache::from_image(image.clone()), &doc)?;
                let t = CacheType::from(image.clone());
                same("is_", &(t.is_registry(), t.is_other()), &(true, false))?;
                same("as_", &(t.as_registry(), t.as_other()), &(Some(&image), None))?;
                same("type text", &t.to_string(), &format!("type=registry,ref={text}"))?;
                is("cache of a type", &Cache::from(t.clone()), &doc)?;
                is("cache of a text", &Cache::from(t), &q(&format!("type=registry,ref={text}")))?;
                is("option", &CacheOption::from(image.clone()), &doc)?;
                same("option", CacheOption::from(image.clone()).as_str(), text)?;
                // its parts
                let (name, rest) = image.as_parts();
                let (n2, r2): (Name, Option<TagOrDigest>) = (&image).into();
                same("parts", &(name.to_string(), rest), &(n2.to_string(), r2))?;
                let built = Image::from((name, rest));
                same("from parts", &built, &image)?;
                same("from_parts", &Image::from_parts(name, rest), &image)?;
                same("from a name", Image::from(name).as_str(), name.into_inner())?;
                if let Some(r) = rest {
                    same("from both", &Image::from((name, r)), &image)?;
                }
                same("String", &String::from(image.clone()), &text.to_owned())?;
                same("into_inner", &image.clone().into_inner(), &text.to_owned())
            },
        );
    }
    for text in ["gha", "local", "s3", "x-y"] {
        c.case(
            || format!("cache type {text}"),
            || {
                let o: CacheOption = text.parse().map_err(|_| "rejected".to_owned())?;
                let t = CacheType::Other(o.clone());
                same("is_", &(t.is_registry(), t.is_other()), &(false, true))?;
                same("as_", &(t.as_registry(), t.as_other()), &(None, Some(&o)))?;
                same("text", &t.to_string(), &format!("type={text}"))?;
                let cache = Cache::from(t.clone());
                same("type", &cache.cache_type, &t)?;
                is("cache", &cache, &q(&format!("type={text}")))
            },
        );
    }
    for (text, url) in [
        ("", false),
        (".", false),
        ("./dir", false),
        ("/a b", false),
        ("é", false),
        ("dir.git", false),
        ("https://h.io/a.git", true),
        ("https://h.io/a.git#v1:sub", true),
        ("HTTPS://h.io/a", true),
        ("c:/dir", true),
        ("git://h/x", true),
        ("docker-image://alpine", true),
        ("http://h:80/a?b=c", true),
    ] {
        c.case(
            || format!("context {text}"),
            || {
                let v = Context::parse(text);
                is("context", &v, &q(text))?;
                for (what, w) in [
                    ("&str", Context::from(text)),
                    ("String", Context::from(text.to_owned())),
                    ("Box<str>", Context::from(Box::<str>::from(text))),
                    ("Cow", Context::from(Cow::Borrowed(text))),
                    ("owned Cow", Context::from(Cow::<str>::Owned(text.into()))),
                    ("FromStr", text.parse().unwrap()),
                ] {
                    same(what, &w, &v)?;
                }
                same("kind", &(v.as_path().is_some(), v.as_url().is_some()), &(!url, url))?;
                let path = PathBuf::from(text);
                for (what, w) in [
                    ("&Path", Context::from(path.as_path())),
                    ("Cow<Path>", Context::from(Cow::Borrowed(path.as_path()))),
                    ("owned Cow<Path>", Context::from(Cow::<Path>::Owned(path.clone()))),
                    ("PathBuf", Context::from(path.clone())),
                ] {
                    same(what, &w, &Context::Path(path.clone()))?;
                    same("as_path", &w.as_path(), &Some(&path))?;
                    same("as_url", &w.as_url(), &None)?;
                    same("into_string", &w.into_string(), &Ok(text.to_owned()))?;
                }
                if url {
                    let u: url::Url = text.parse().map_err(|_| "not a URL".to_owned())?;
                    let w = Context::from(u.clone());
                    same("of a URL", &w, &v)?;
                    same("as_url", &w.as_url(), &Some(&u))?;
                    same("as_path", &w.as_path(), &None)?;
                    same("into_string", &w.into_string(), &Ok(u.to_string()))?;
                }
                Ok(())
            },
        );
    }
}

// ------------------------------------------------------------------- numbers and ports

fn ports(c: &Check) {
    for p in [0u16, 1, 80, 8080, 65534, 65535] {
        c.case(
            || format!("port {p}"),
            || {
                let doc = p.to_string();
                is("range", &Range::from(p), &doc)?;
                is("range", &Range::try_from((p, None)).map_err(|e| e.to_string())?, &doc)?;
                is("expose", &Expose::from(p), &doc)?;
                is("expose", &Expose::from(Range::from(p)), &doc)?;
                is("port", &Port::from(p), &format!("{{target: {p}}}"))?;
                is("port", &Port::new(p), &format!("{{target: {p}}}"))?;
                let ranges = ShortRanges::from(p);
                same("host", &ranges.host(), &None)?;
                same("container", &ranges.container(), &Range::from(p))?;
                for s in [ShortPort::from(p), ShortPort::from(Range::from(p)), ShortPort::new(ranges), ShortPort::from(ranges)] {
                    is("short port", &s, &doc)?;
                    is("short port", &s, &q(&doc))?;
                    let long = ShortOrLong::<ShortPort, Port>::from(s.clone());
                    is("ports", &long, &doc)?;
                    let all: Vec<Port> = s.into_long_iter().collect();
                    same("long", &all, &vec![Port::new(p)])?;
                }
                Ok(())
            },
        );
        for (proto, text) in [(Protocol::Tcp, "tcp"), (Protocol::Udp, "udp"), (Protocol::Other("sctp".into()), "sctp")] {
            for end in [p, p.saturating_add(1), 65535] {
                c.case(
                    || format!("expose {p}-{end}/{text}"),
                    || {
                        let range = Range::new(p, Some(end)).map_err(|e| e.to_string())?;
                        for (what, r) in [
                            ("pair", Range::try_from((p, end)).map_err(|e| e.to_string())?),
                            ("pair of option", Range::try_from((p, Some(end))).map_err(|e| e.to_string())?),
                            ("inclusive", Range::try_from(p..=end).map_err(|e| e.to_string())?),
                        ] {
                            same(what, &r, &range)?;
                        }
                        let mut x = Expose::from(range);
                        same("protocol", &x.protocol, &None)?;
                        x.protocol = Some(proto.clone());
                        let t = if p == end { format!("{p}/{text}") } else { format!("{p}-{end}/{text}") };
                        is("expose", &x, &q(&t))?;
                        same("is_", &(proto.is_tcp(), proto.is_udp()), &(text == "tcp", text == "udp"))?;
                        same("as_str", proto.as_str(), text)?;
                        same("String", &String::from(proto.clone()), &text.to_owned())?;
                        same("Cow", &Cow::from(proto.clone()), &Cow::Borrowed(text))?;
                        same("of a text", &Protocol::from(text), &proto)?;
                        same("text", &proto.to_string(), &text.to_owned())
                    },
                );
            }
        }
    }
    for n in [0u64, 1, 1024, u64::from(u32::MAX), u64::MAX] {
        c.case(
            || format!("limit {n}"),
            || {
                let doc = n.to_string();
                let l = Limit::from(n);
                same("limit", &l, &Limit::Value(n))?;
                is("limit", &l, &doc)?;
                is("ulimit", &Ulimit::from(n), &format!("{{soft: {n}, hard: {n}}}"))?;
                is("ulimit", &Ulimit::from(l), &format!("{{soft: {n}, hard: {n}}}"))?;
                is("short ulimit", &ShortOrLong::<Limit<u64>, Ulimit>::from(n), &doc)?;
                is("short ulimit", &ShortOrLong::<Limit<u64>, Ulimit>::from(l), &doc)?;
                same("into_long", &ShortOrLong::<Limit<u64>, Ulimit>::from(l).into_long(), &Ulimit::from(n))?;
                is("byte limit", &Limit::from(ByteValue::Bytes(n)), &q(&format!("{n}b")))?;
                if let Ok(n) = u32::try_from(n) {
                    is("limit", &Limit::from(n), &doc)?;
                }
                Ok(())
            },
        );
    }
    c.case(
        || "unlimited".into(),
        || {
            is("ulimit", &Ulimit::from(Limit::Unlimited), "{soft: -1, hard: -1}")?;
            is("limit", &ShortOrLong::<Limit<u64>, Ulimit>::from(Limit::Unlimited), "-1")?;
            same("default size", &ByteValue::default(), &ByteValue::Bytes(0))?;
            same("default size", &ByteValue::default().into_bytes(), &Some(0))
        },
    );
    for n in 0..8 {
        let p = Permissions { read: n & 1 != 0, write: n & 2 != 0, mknod: n & 4 != 0 };
        c.case(
            || format!("permissions {n}"),
            || {
                let text: String = [(p.read, 'r'), (p.write, 'w'), (p.mknod, 'm')].iter().filter(|x| x.0).map(|x| x.1).collect();
                same("any", &p.any(), &(n != 0))?;
                same("all", &(p == Permissions::all()), &(n == 7))?;
                same("default", &(p == Permissions::default()), &(n == 0))?;
                same("text", &p.to_string(), &text)?;
                same("of its text", &text.parse::<Permissions>().map_err(|e| e.to_string())?, &p)?;
                same("try_from", &Permissions::try_from(text.as_str()).map_err(|e| e.to_string())?, &p)
            },
        );
    }
}

// ------------------------------------------------------------------- services

fn services(c: &Check) {
    let texts = ["", "a", "a b", "é\n"];
    for t in texts {
        c.case(
            || format!("commands {t:?}"),
            || {
                let doc = q(t);
                is("command", &service::Command::from(t.to_owned()), &doc)?;
                let mut h = HealthCommand::default();
                h.test = Some(t.to_owned().into());
                same("test", &h.test, &Some(Test::ShellCommand(t.into())))?;
                is("healthcheck", &Healthcheck::from(h.clone()), &format!("{{test: {doc}}}"))?;
                is("healthcheck", &Healthcheck::from(h), &format!("{{test: [CMD-SHELL, {doc}]}}"))
            },
        );
        for u in texts {
            c.case(
                || format!("commands {t:?} {u:?}"),
                || {
                    let v = vec![t.to_owned(), u.to_owned()];
                    is("command", &service::Command::from(v.clone()), &format!("[{}, {}]", q(t), q(u)))?;
                    same("test", &Test::from(v.clone()), &Test::Command(v.clone()))?;
                    let mut h = HealthCommand::default();
                    same("is_empty", &h.is_empty(), &true)?;
                    h.test = Some(v.into());
                    same("is_empty", &h.is_empty(), &false)?;
                    is("healthcheck", &Healthcheck::from(h), &format!("{{test: [CMD, {}, {}]}}", q(t), q(u)))
                },
            );
        }
    }
    c.case(
        || "healthchecks".into(),
        || {
            is("default", &Healthcheck::default(), "{}")?;
            is("default", &Healthcheck::from(HealthCommand::default()), "{disable: false}")?;
            is("disabled", &Healthcheck::Disable, "{disable: true}")?;
            is("disabled", &Healthcheck::Disable, "{test: [NONE]}")
        },
    );
    for n in ["a", "A.b_c-d", "9", "x-"] {
        c.case(
            || format!("identifier {n}"),
            || {
                let i = id(n);
                is("link", &Link::from(i.clone()), &q(n))?;
                same("link text", &String::from(Link::from(i.clone())), &n.to_owned())?;
                let v = VolumesFrom::from(service::VolumesFromSource::Service(i.clone()));
                is("volumes_from", &v, &q(n))?;
                same("read_only", &v.read_only, &false)?;
                let v = VolumesFrom::from(service::VolumesFromSource::Container(i.clone()));
                is("volumes_from", &v, &q(&format!("container:{n}")))?;
                is("config", &ConfigOrSecret::from(i.clone()), &format!("{{source: {}}}", q(n)))?;
                is("config", &ShortOrLong::<Identifier, ConfigOrSecret>::from(i.clone()), &q(n))?;
                is("config", &ShortOrLong::<Identifier, ConfigOrSecret>::from(ConfigOrSecret::from(i.clone())), &format!("{{source: {}}}", q(n)))?;
                same("as_short", &ConfigOrSecret::from(i.clone()).as_short(), &Some(&i))?;
                is("build", &service::Build::from(Context::from(n)), &format!("{{context: {}}}", q(n)))?;
                is("build", &ShortOrLong::<Context, service::Build>::from(Context::from(n)), &q(n))?;
                is("network mode", &NetworkConfig::from(NetworkMode::Service(i.clone())), &format!("{{network_mode: 'service:{n}'}}"))?;
                is("device", &DeployDevice::new(["gpu", n]), &format!("{{capabilities: [gpu, {}]}}", q(n)))?;
                is("device", &DeployDevice::new([Capability::Gpu, Capability::parse(n)]), &format!("{{capabilities: [gpu, {}]}}", q(n)))?;
                let set = IndexSet::from([i.clone()]);
                let list = ItemOrList::from(set.clone());
                is("item or list", &list, &format!("[{}]", q(n)))?;
                is("item or list", &ItemOrList::from(i.clone()), &q(n))?;
                same("set", &IndexSet::from(list), &set)?;
                same("set", &IndexSet::from(ItemOrList::from(i.clone())), &set)
            },
        );
    }
    // lists and maps of names
    let names = ["a", "b", "c"];
    for len in 0..=3 {
        for mask in 0..1 << len {
            c.case(
                || format!("networks {:?} {mask}", &names[..len]),
                || {
                    type Nets = IndexMap<Identifier, Option<service::network_config::Network>>;
                    let set: IndexSet<Identifier> = names[..len].iter().map(|n| id(n)).collect();
                    let map: Nets = names[..len]
                        .iter()
                        .enumerate()
                        .map(|(k, n)| {
                            let x = (mask >> k & 1 == 1).then(|| {
                                service::network_config::Network { aliases: [id("z")].into_iter().map(|a| a.as_str().parse().unwrap()).collect(), ..Default::default() }
                            });
                            (id(n), x)
                        })
                        .collect();
                    let short = ShortOrLong::<IndexSet<Identifier>, Nets>::from(set.clone());
                    is("networks", &short, &format!("[{}]", names[..len].join(", ")))?;
                    same("is_", &(short.is_short(), short.is_long(), short.as_long()), &(true, false, None))?;
                    let long = ShortOrLong::<IndexSet<Identifier>, Nets>::from(map.clone());
                    same("is_", &(long.is_short(), long.is_long(), long.as_long()), &(false, true, Some(&map)))?;
                    let as_short: Option<Vec<Identifier>> = long.as_short_iter().map(|i| i.cloned().collect());
                    same("as_short_iter", &as_short, &(mask == 0).then(|| set.iter().cloned().collect()))?;
                    let as_short: Option<Vec<Identifier>> = (&map).as_short_iter().map(|i| i.cloned().collect());
                    same("as_short_iter of a map", &as_short, &(mask == 0).then(|| set.iter().cloned().collect()))?;
                    let own: Option<Vec<Identifier>> = short.as_short_iter().map(|i| i.cloned().collect());
                    same("as_short_iter of a list", &own, &Some(set.iter().cloned().collect()))?;
                    let none: Nets = set.iter().map(|n| (n.clone(), None)).collect();
                    same("into_long", &short.clone().into_long(), &none)?;
                    same("into_long", &long.clone().into_long(), &map)?;
                    is("network_config", &NetworkConfig::from(short), &format!("{{networks: [{}]}}", names[..len].join(", ")))?;
                    let all: Vec<String> =
                        (0..len).map(|k| format!("{}: {}", names[k], if mask >> k & 1 == 1 { "{aliases: [z]}" } else { "null" })).collect();
                    is("network_config", &NetworkConfig::from(long), &format!("{{networks: {{{}}}}}", all.join(", ")))
                },
            );
        }
    }
}

pub fn run(ctx: &Ctx) {
    let c = Check(ctx);
    type Part = fn(&Check);
    let parts: [(&str, Part); 6] =
        [("mounts", mounts), ("users", users), ("resources", resources), ("builds", builds), ("ports", ports), ("services", services)];
    ctx.par(parts.len(), |n| parts[n].1(&c));
    ctx.part("families of types", parts.len() as u64);
}
