//! C08: the short and the long syntax of an attribute say the same.
use std::{collections::HashSet, fmt::Debug, path::PathBuf};

use compose_spec::{
    service::{
        build::Context,
        env_file::{self, EnvFile},
        network_config,
        ports::{self, Port, Protocol, Range, ShortPort, ShortRanges},
        volumes::{
            self,
            mount::{self, Bind, BindOptions, BindPropagation, Common, Mount, VolumeOptions},
            SELinux, ShortOptions, ShortVolume, Source,
        },
        Build, Condition, ConfigOrSecret, Dependency, Limit, Service, Ulimit,
    },
    AsShort, AsShortIter, Extensions, Identifier, Include, ItemOrList, ShortOrLong, YamlValue,
};
use indexmap::{IndexMap, IndexSet};
use serde::de::DeserializeOwned;

use crate::{
    doc::{orders, picks, Bounds, Doc},
    engine::{guard, same, Ctx},
    schema::{self as sc, ap, ek, hp, id, ip, pb, Schema},
    y::{m, s, Y},
};

pub const ASSUME: &[&str] = &[
    "a bind mount without a bind block may or may not have a short form",
    "a list of one path and that path mean the same in an include",
];

fn yaml<T: DeserializeOwned>(y: &Y) -> Result<T, String> {
    serde_yaml::from_str(&y.flow()).map_err(|e| format!("{}: {e}", y.flow()))
}

fn chk(cond: bool, what: &str) -> Result<(), String> {
    if cond {
        Ok(())
    } else {
        Err(what.to_owned())
    }
}

fn bounds(ctx: &Ctx) -> Bounds {
    Bounds { pair_reps: ctx.pick(3, 1000), maximal: true, subsets: 12, forms: true }
}

/// One long value, its short form as the model has it, and the long form of that.
fn pair<S, L>(long: &L, short: Option<&S>, back: impl Fn() -> L, doc: &Y, short_doc: Option<&Y>) -> Result<(), String>
where
    L: AsShort<Short = S> + Doc + From<S> + From<ShortOrLong<S, L>>,
    S: Clone + PartialEq + Debug + DeserializeOwned,
    ShortOrLong<S, L>: From<S> + From<L>,
{
    same("as_short", &long.as_short(), &short)?;
    same("as_short of a reference", &(&&long).as_short(), &short)?;
    let either: ShortOrLong<S, L> = long.clone().into();
    chk(either.is_long() && !either.is_short(), "From long is long")?;
    same("as_long", &either.as_long(), &Some(long))?;
    same("wrapped as_short", &either.as_short(), &short)?;
    same("into_long", &either.clone().into_long(), long)?;
    same("long document", &yaml::<ShortOrLong<S, L>>(doc)?, &either)?;
    if let Some(short) = short {
        let long = back();
        same("From short", &L::from(short.clone()), &long)?;
        let either: ShortOrLong<S, L> = short.clone().into();
        chk(either.is_short() && !either.is_long() && either.as_long().is_none(), "From short is short")?;
        same("short as_short", &either.as_short(), &Some(short))?;
        same("short into_long", &either.clone().into_long(), &long)?;
        same("and back", &either.clone().into_long().as_short(), &Some(short))?;
        same("Into::into", &Into::<L>::into(either.clone()), &long)?;
        if let Some(y) = short_doc {
            same("short document", &yaml::<ShortOrLong<S, L>>(y)?, &either)?;
        }
    }
    Ok(())
}

/// Types whose short form is one field: the short form exists when nothing else is set.
fn single<S, L>(ctx: &Ctx, schema: &Schema<L>, base_short: Option<(S, Y)>, field: &str, short: impl Fn(&str) -> Option<S> + Sync)
where
    L: AsShort<Short = S> + Doc + From<S> + From<ShortOrLong<S, L>>,
    S: Clone + PartialEq + Debug + DeserializeOwned + Sync,
    ShortOrLong<S, L>: From<S> + From<L>,
    Schema<L>: Sync,
{
    let all = picks(schema, &bounds(ctx));
    ctx.part(schema.name, all.len() as u64);
    ctx.par(all.len(), |n| {
        let p = &all[n];
        ctx.add_states(1);
        ctx.case(
            || format!("short form of {}", p.name(schema)),
            || {
                let long = p.value(schema);
                let mut now = base_short.clone();
                let mut other = false;
                for (k, f) in &p.0 {
                    let x = &schema.items[*k];
                    if x.groups[0].0 == field {
                        if let Some(v) = short(&x.name) {
                            now = Some((v, x.forms[*f].get(field).cloned().unwrap_or(Y::Null)));
                        }
                    } else {
                        other |= x.nonempty;
                    }
                }
                let now = now.filter(|_| !other);
                ctx.outcome(if now.is_some() { "has a short form" } else { "long only" }, 1);
                pair(&long, now.as_ref().map(|t| &t.0), || long.clone(), &p.doc(schema), now.as_ref().map(|t| &t.1))
            },
        );
    });
}

fn singles(ctx: &Ctx) {
    single(ctx, &sc::config_or_secret(), Some((id("src.1"), s("src.1"))), "source", |_| None);
    single(ctx, &sc::env_file_config(), Some((pb("./a.env"), s("./a.env"))), "path", |_| None);
    single(ctx, &sc::build(), None, "context", |name| {
        Some(match name {
            "context=path" => Context::Path(pb("./dir")),
            _ => Context::Url("https://github.com/a/b.git#c:d".parse().expect("url")),
        })
    });
}

fn exts(n: usize) -> Extensions {
    [("x-a", 1), ("x-b", 2)].into_iter().take(n).map(|(k, v)| (ek(k), YamlValue::Number(v.into()))).collect()
}

/// Full products of the fields of small types.
fn products(ctx: &Ctx) {
    // configs and secrets: every subset, with values which are easily taken for absent ones
    let ids = ["a", "src.1", "z_9"];
    let targets = [None, Some(""), Some("src.1"), Some("/run/x")];
    let nums = [None, Some(0), Some(103), Some(u32::MAX)];
    let modes = [None, Some(0), Some(0o444), Some(u32::MAX)];
    for source in ids {
        for target in targets {
            for uid in nums {
                for gid in nums {
                    for mode in modes {
                        for x in 0..=2 {
                            let c = ConfigOrSecret {
                                source: id(source),
                                target: target.map(pb),
                                uid,
                                gid,
                                mode,
                                extensions: exts(x),
                            };
                            ctx.add_states(1);
                            ctx.case(
                                || format!("config or secret {c:?}"),
                                || {
                                    let plain = target.is_none() && uid.is_none() && gid.is_none() && mode.is_none() && x == 0;
                                    let short = id(source);
                                    let mut doc = m([("source", s(source))]);
                                    let mut put = |k: &str, v: Option<Y>| {
                                        if let Some(v) = v {
                                            doc.merge(&m([(k, v)]));
                                        }
                                    };
                                    put("target", target.map(s));
                                    put("uid", uid.map(|n| s(n.to_string())));
                                    put("gid", gid.map(|n| s(n.to_string())));
                                    put("mode", mode.map(|n| Y::I(n.into())));
                                    put("x-a", (x > 0).then(|| Y::I(1)));
                                    put("x-b", (x > 1).then(|| Y::I(2)));
                                    pair(&c, plain.then_some(&short), || c.clone(), &doc, Some(&s(source)))
                                },
                            );
                        }
                    }
                }
            }
        }
    }
    // env_file entries
    for path in ["", "a", "./a b.env", "/é"] {
        for required in [true, false] {
            let c = env_file::Config { path: pb(path), required };
            ctx.add_states(1);
            ctx.case(
                || format!("env_file entry {c:?}"),
                || {
                    let short = pb(path);
                    let doc = m([("path", s(path)), ("required", Y::B(required))]);
                    same("From<String>", &env_file::Config::from(path.to_owned()), &env_file::Config { path: pb(path), required: true })?;
                    same(
                        "From<String> wrapped",
                        &ShortOrLong::<PathBuf, env_file::Config>::from(path.to_owned()),
                        &ShortOrLong::Short(pb(path)),
                    )?;
                    pair(&c, required.then_some(&short), || c.clone(), &doc, Some(&s(path)))
                },
            );
        }
    }
    // ulimits
    let n = [0, 1, 20_000, u64::MAX - 1, u64::MAX];
    let lim: Vec<Limit<u64>> = n.iter().map(|n| Limit::Value(*n)).chain([Limit::Unlimited]).collect();
    let y = |l: &Limit<u64>| match l {
        Limit::Value(n) => Y::I((*n).into()),
        Limit::Unlimited => Y::I(-1),
    };
    for soft in &lim {
        for hard in &lim {
            for x in 0..=2 {
                let u = Ulimit { soft: *soft, hard: *hard, extensions: exts(x) };
                ctx.add_states(1);
                ctx.case(
                    || format!("ulimit {u:?}"),
                    || {
                        let mut doc = m([("soft", y(soft)), ("hard", y(hard))]);
                        if x > 0 {
                            doc.merge(&m([("x-a", Y::I(1))]));
                        }
                        if x > 1 {
                            doc.merge(&m([("x-b", Y::I(2))]));
                        }
                        if let Limit::Value(n) = soft {
                            let long = Ulimit { soft: *soft, hard: *soft, extensions: Extensions::new() };
                            same("From<u64>", &Ulimit::from(*n), &long)?;
                            same("From<u64> wrapped", &ShortOrLong::<Limit<u64>, Ulimit>::from(*n), &ShortOrLong::Short(*soft))?;
                        }
                        pair(&u, (soft == hard && x == 0).then_some(soft), || u.clone(), &doc, Some(&y(soft)))
                    },
                );
            }
        }
    }
    // includes
    let paths: Vec<Vec<&str>> = vec![vec![], vec![""], vec!["a"], vec!["./a/../b.yaml"], vec!["a", "b"], vec!["b", "a", "c"]];
    let dirs = [None, Some(""), Some("."), Some("/d")];
    let mut files = vec![None];
    for p in &paths {
        if p.len() == 1 {
            files.push(Some(ItemOrList::Item(pb(p[0]))));
        }
        files.push(Some(ItemOrList::List(p.iter().map(|t| pb(t)).collect())));
    }
    let iol = |p: &ItemOrList<PathBuf>| match p {
        ItemOrList::Item(p) => s(p.to_str().expect("text")),
        ItemOrList::List(v) => Y::L(v.iter().map(|p| s(p.to_str().expect("text"))).collect()),
    };
    for path in files.iter().flatten() {
        for dir in dirs {
            for file in &files {
                let v = Include { path: path.clone(), project_directory: dir.map(Into::into), env_file: file.clone() };
                ctx.add_states(1);
                ctx.case(
                    || format!("include {v:?}"),
                    || {
                        let one = match path {
                            ItemOrList::Item(p) => Some(p),
                            ItemOrList::List(v) if v.len() == 1 => v.first(),
                            ItemOrList::List(_) => None,
                        };
                        let short = one.filter(|_| dir.is_none() && file.is_none());
                        let mut doc = m([("path", iol(path))]);
                        if let Some(d) = dir {
                            doc.merge(&m([("project_directory", s(d))]));
                        }
                        if let Some(f) = file {
                            doc.merge(&m([("env_file", iol(f))]));
                        }
                        let back = || Include {
                            path: ItemOrList::Item(short.cloned().unwrap_or_default()),
                            project_directory: None,
                            env_file: None,
                        };
                        pair(&v, short, back, &doc, short.map(|p| s(p.to_str().expect("text"))).as_ref())
                    },
                );
            }
        }
    }
    // builds from contexts
    for c in ["", ".", "./dir", "/abs", "https://github.com/a/b.git", "git@github.com:a/b.git", "ssh://git@h/r.git#x:y"] {
        ctx.add_states(1);
        ctx.case(
            || format!("build {c:?}"),
            || {
                let short: Context = yaml(&s(c))?;
                let long = Build { context: Some(short.clone()), ..Build::default() };
                pair(&long, Some(&short), || long.clone(), &m([("context", s(c))]), Some(&s(c)))?;
                let svc: Service = yaml(&m([("build", s(c))]))?;
                let svc2: Service = yaml(&m([("build", m([("context", s(c))]))]))?;
                same("service", &svc.build.clone().map(ShortOrLong::into_long), &svc2.build.clone().map(ShortOrLong::into_long))?;
                same("service", &svc.build.as_ref().and_then(|b| b.as_short().cloned()), &Some(short))
            },
        );
    }
    ctx.add_states(1);
    ctx.case(
        || "build without context".into(),
        || {
            same("as_short", &Build::default().as_short(), &None)?;
            same("wrapped", &ShortOrLong::<Context, Build>::Long(Build::default()).as_short(), &None)
        },
    );
}

// ---- ports ----

fn one_port(p: &Port) -> Option<ShortPort> {
    // A model of what a short port can say about one container port.
    let single = p.published.map_or(true, |r| r.start() == r.end().unwrap_or(r.start()));
    let plain = p.name.is_none() && p.app_protocol.is_none() && p.mode.is_none() && p.extensions.is_empty();
    (plain && single).then(|| ShortPort {
        host_ip: p.host_ip,
        ranges: ShortRanges::new(p.published, p.target.into()).expect("sizes"),
        protocol: p.protocol.clone(),
    })
}

fn long_ports(p: &ShortPort) -> Vec<Port> {
    let c = p.ranges.container();
    let n = u32::from(c.end().unwrap_or(c.start())) - u32::from(c.start());
    (0..=n)
        .map(|k| Port {
            name: None,
            target: (u32::from(c.start()) + k) as u16,
            published: p.ranges.host().map(|h| ((u32::from(h.start()) + k) as u16).into()),
            host_ip: p.host_ip,
            protocol: p.protocol.clone(),
            app_protocol: None,
            mode: None,
            extensions: Extensions::new(),
        })
        .collect()
}

fn range(a: u16, b: u16) -> Range {
    Range::new(a, (a != b).then_some(b)).expect("range")
}

fn port_cases(ctx: &Ctx) {
    let targets = [0, 1, 80, 65_535];
    let published = [None, Some(range(0, 0)), Some(range(80, 80)), Some(range(65_535, 65_535)), Some(range(1, 2)), Some(range(0, 65_535))];
    let ips = [None, Some(ip("127.0.0.1")), Some(ip("0.0.0.0")), Some(ip("::")), Some(ip("::ffff:1.2.3.4"))];
    let protocols = [None, Some(Protocol::Tcp), Some(Protocol::Udp), Some(Protocol::Other("sctp".into())), Some(Protocol::Other(String::new()))];
    let texts = [None, Some(""), Some("web"), Some("tcp")];
    let modes = [None, Some(ports::Mode::Host), Some(ports::Mode::Ingress)];
    let mut pool = Vec::new();
    for (n, target) in targets.into_iter().enumerate() {
        for published in published {
            for host_ip in ips {
                for protocol in &protocols {
                    for name in texts {
                        for app in texts {
                            for mode in modes {
                                for x in 0..=1 + n / 3 {
                                    pool.push(Port {
                                        name: name.map(Into::into),
                                        target,
                                        published,
                                        host_ip,
                                        protocol: protocol.clone(),
                                        app_protocol: app.map(Into::into),
                                        mode,
                                        extensions: exts(x),
                                    });
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    ctx.part("long ports", pool.len() as u64);
    let pool = &pool;
    ctx.par(pool.len(), |n| {
        let p = &pool[n];
        ctx.add_states(1);
        ctx.case(
            || format!("long port {p:?}"),
            || {
                let want = one_port(p);
                ctx.outcome(if want.is_some() { "has a short form" } else { "long only" }, 1);
                match (p.clone().into_short(), &want) {
                    (Ok(a), Some(b)) => same("into_short", &a, b)?,
                    (Err(a), None) => same("returned", &a, p)?,
                    (a, b) => return Err(format!("into_short gives {a:?}, expected {b:?}")),
                }
                if let Some(short) = want {
                    same("and back", &short.clone().into_long_iter().collect::<Vec<_>>(), &vec![p.clone()])?;
                }
                Ok(())
            },
        );
    });
    // short ports of many ports
    let lens: &[u32] = if ctx.thorough() { &[1, 2, 3, 4, 7, 10, 255, 256, 257, 1000, 32_768, 65_535, 65_536] } else { &[1, 2, 3, 10, 257, 1000] };
    let mut shorts = Vec::new();
    for len in lens {
        let last = 65_536 - len;
        let starts: Vec<u32> = [0, 1, 80, 8000, last.saturating_sub(1), last].into_iter().filter(|a| *a <= last).collect::<IndexSet<_>>().into_iter().collect();
        for c in &starts {
            for h in starts.iter().map(Some).chain([None]) {
                for (host_ip, protocol) in [(None, None), (ips[1], None), (None, protocols[2].clone()), (ips[4], protocols[3].clone())] {
                    let r = |a: u32| range(a as u16, (a + len - 1) as u16);
                    shorts.push(ShortPort { host_ip, ranges: ShortRanges::new(h.map(|a| r(*a)), r(*c)).expect("sizes"), protocol });
                }
            }
        }
    }
    ctx.part("short ports", shorts.len() as u64);
    let shorts = &shorts;
    ctx.par(shorts.len(), |n| {
        let p = &shorts[n];
        ctx.add_states(1);
        ctx.case(
            || format!("short port {p:?}"),
            || {
                let want = long_ports(p);
                ctx.add_transitions(want.len() as u64);
                let got: Vec<Port> = p.clone().into_long_iter().collect();
                if got != want {
                    let k = got.iter().zip(&want).position(|(a, b)| a != b);
                    return Err(format!("expands to {} ports, expected {}, first difference {k:?}", got.len(), want.len()));
                }
                for q in got {
                    let want = one_port(&q).ok_or("not short")?;
                    match q.into_short() {
                        Ok(a) => same("into_short", &a, &want)?,
                        Err(a) => return Err(format!("{a:?} has no short form")),
                    }
                }
                same("as_short of ranges", &p.ranges.as_short(), &p.ranges.host().is_none().then_some(&p.ranges.container()))?;
                same("From<Range>", &ShortRanges::from(p.ranges.container()), &ShortRanges::new(None, p.ranges.container()).expect("sizes"))?;
                same("From<ShortRanges>", &ShortPort::from(p.ranges), &ShortPort { host_ip: None, ranges: p.ranges, protocol: None })
            },
        );
    });
    for n in 0..=u16::MAX {
        ctx.add_states(1);
        ctx.case(
            || format!("From<u16> {n}"),
            || {
                same("ShortPort", &ShortPort::from(n), &ShortPort { host_ip: None, ranges: ShortRanges::new(None, range(n, n)).expect("sizes"), protocol: None })?;
                same("Port", &Port::from(n), &Port::new(n))?;
                same("long", &ShortPort::from(n).into_long_iter().collect::<Vec<_>>(), &vec![Port::new(n)])?;
                same("short", &Port::new(n).into_short(), &Ok(ShortPort::from(n)))
            },
        );
    }
    // whole lists, in documents of either syntax
    let single = |t: &str| -> ShortPort { t.parse().expect("port") };
    type P = ShortOrLong<ShortPort, Port>;
    let long = |f: fn(&mut Port)| -> P {
        let mut p = Port::new(80);
        f(&mut p);
        ShortOrLong::Long(p)
    };
    let list: Vec<P> = vec![
        ShortOrLong::Short(single("80")),
        ShortOrLong::Short(single("8000-8002:80-82")),
        ShortOrLong::Short(single("127.0.0.1:1-2:3-4/udp")),
        long(|_| ()),
        long(|p| p.published = Some(range(8000, 8000))),
        long(|p| p.published = Some(range(8000, 8002))),
        long(|p| p.name = Some("n".into())),
        long(|p| p.mode = Some(ports::Mode::Host)),
    ];
    for depth in 0..=ctx.pick(3usize, 4) {
        let total = list.len().pow(depth as u32);
        ctx.part(&format!("port lists of {depth}"), total as u64);
        let list = &list;
        ctx.par(total, |mut n| {
            let mut v = Vec::new();
            for _ in 0..depth {
                v.push(list[n % list.len()].clone());
                n /= list.len();
            }
            let set: ports::Ports = v.iter().cloned().collect();
            ctx.add_states(1);
            ctx.case(
                || format!("port list {v:?}"),
                || {
                    let mut seen = HashSet::new();
                    let uniq: Vec<P> = v.iter().filter(|p| seen.insert((*p).clone())).cloned().collect();
                    let want: Vec<Port> = uniq
                        .iter()
                        .flat_map(|p| match p {
                            ShortOrLong::Short(p) => long_ports(p),
                            ShortOrLong::Long(p) => vec![p.clone()],
                        })
                        .collect();
                    same("into_long_iter", &ports::into_long_iter(set.clone()).collect::<Vec<_>>(), &want)?;
                    let want: Vec<Result<ShortPort, Port>> = uniq
                        .iter()
                        .map(|p| match p {
                            ShortOrLong::Short(p) => Ok(p.clone()),
                            ShortOrLong::Long(p) => one_port(p).ok_or(p.clone()),
                        })
                        .collect();
                    same("into_short_iter", &ports::into_short_iter(set.clone()).collect::<Vec<_>>(), &want)
                },
            );
        });
    }
}

// ---- volumes ----

fn short_volumes(ctx: &Ctx) -> Vec<ShortVolume> {
    let targets: &[&str] = if ctx.thorough() { &["/", "/t", "/a/b c", "/a/../é", "/t/"] } else { &["/", "/t", "/a/../b c"] };
    let hosts = ["/", "./s", "../s/t", ".", "/a b/", "..", "/z"];
    let names = ["v", "vol.1", "z", "ro"];
    let mut out = Vec::new();
    for t in targets {
        out.push(ShortVolume { container_path: ap(t), options: None });
        let sources = hosts.iter().map(|h| Source::HostPath(hp(h))).chain(names.iter().map(|n| Source::Volume(id(n))));
        for source in sources {
            for read_only in [false, true] {
                for selinux in [None, Some(SELinux::Shared), Some(SELinux::Private)] {
                    out.push(ShortVolume { container_path: ap(t), options: Some(ShortOptions { source: source.clone(), read_only, selinux }) });
                }
            }
        }
    }
    out
}

/// The long form. The long syntax of a named volume has no place for SELinux relabeling.
fn long_volume(v: &ShortVolume) -> Mount {
    let read_only = v.options.as_ref().is_some_and(|o| o.read_only);
    let common = Common { target: v.container_path.clone(), read_only, consistency: None, extensions: Extensions::new() };
    match &v.options {
        None => Mount::Volume(mount::Volume { source: None, volume: None, common }),
        Some(ShortOptions { source: Source::Volume(source), .. }) => Mount::Volume(mount::Volume { source: Some(source.clone()), volume: None, common }),
        Some(ShortOptions { source: Source::HostPath(source), selinux, .. }) => Mount::Bind(Bind {
            source: source.clone(),
            bind: Some(BindOptions { propagation: None, create_host_path: true, selinux: *selinux, extensions: Extensions::new() }),
            common,
        }),
    }
}

fn loses_selinux(v: &ShortVolume) -> bool {
    matches!(&v.options, Some(ShortOptions { source: Source::Volume(_), selinux: Some(_), .. }))
}

enum Want {
    Short(ShortVolume),
    LongOnly,
    Either(ShortVolume),
}

fn short_volume(mount: &Mount) -> Want {
    let plain = |c: &Common| c.consistency.is_none() && c.extensions.is_empty();
    match mount {
        Mount::Volume(v) => {
            let options = v.volume.as_ref().is_some_and(|o| o.nocopy || o.subpath.is_some() || !o.extensions.is_empty());
            if !plain(&v.common) || options || (v.source.is_none() && v.common.read_only) {
                return Want::LongOnly;
            }
            Want::Short(ShortVolume {
                container_path: v.common.target.clone(),
                options: v.source.clone().map(|s| ShortOptions { source: Source::Volume(s), read_only: v.common.read_only, selinux: None }),
            })
        }
        Mount::Bind(b) => {
            let short = ShortVolume {
                container_path: b.common.target.clone(),
                options: Some(ShortOptions {
                    source: Source::HostPath(b.source.clone()),
                    read_only: b.common.read_only,
                    selinux: b.bind.as_ref().and_then(|o| o.selinux),
                }),
            };
            match &b.bind {
                _ if !plain(&b.common) => Want::LongOnly,
                None => Want::Either(short),
                Some(o) if o.create_host_path && o.propagation.is_none() && o.extensions.is_empty() => Want::Short(short),
                Some(_) => Want::LongOnly,
            }
        }
        _ => Want::LongOnly,
    }
}

fn check_mount(mount: &Mount) -> Result<bool, String> {
    let check = |got: Result<ShortVolume, Mount>| -> Result<bool, String> {
        match (got, short_volume(mount)) {
            (Ok(a), Want::Short(b) | Want::Either(b)) => {
                same("into_short", &a, &b)?;
                Ok(true)
            }
            (Err(a), Want::LongOnly | Want::Either(_)) => {
                same("returned", &a, mount)?;
                Ok(false)
            }
            (Ok(a), Want::LongOnly) => Err(format!("into_short gives {a:?}, but it cannot say everything")),
            (Err(_), Want::Short(b)) => Err(format!("into_short fails, expected {b:?}")),
        }
    };
    let short = check(mount.clone().into_short())?;
    match mount {
        Mount::Volume(v) => {
            check(v.clone().into_short().map_err(Mount::Volume))?;
        }
        Mount::Bind(b) => {
            check(b.clone().into_short().map_err(Mount::Bind))?;
        }
        _ => (),
    }
    if let Want::Short(b) = short_volume(mount) {
        let mut want = mount.clone();
        if let Mount::Volume(v) = &mut want {
            // options in which nothing is set
            v.volume = None;
        }
        same("and back", &b.into_long(), &want)?;
    }
    Ok(short)
}

fn volume_cases(ctx: &Ctx) {
    let shorts = short_volumes(ctx);
    ctx.part("short volumes", shorts.len() as u64);
    for v in &shorts {
        ctx.add_states(1);
        ctx.case(
            || format!("short volume {v}"),
            || {
                let want = long_volume(v);
                let long = v.clone().into_long();
                same("into_long", &long, &want)?;
                same("Mount::from", &Mount::from(v.clone()), &want)?;
                let either: ShortOrLong<ShortVolume, Mount> = v.clone().into();
                chk(either.is_short() && !either.is_long() && either.as_long().is_none(), "From short is short")?;
                same("into_long of either", &either.into_long(), &want)?;
                let back = ShortVolume {
                    options: v.options.clone().map(|o| ShortOptions { selinux: o.selinux.filter(|_| !loses_selinux(v)), ..o }),
                    ..v.clone()
                };
                same("and back", &long.clone().into_short(), &Ok(back))?;
                let either: ShortOrLong<ShortVolume, Mount> = long.clone().into();
                chk(either.is_long() && !either.is_short(), "From long is long")?;
                same("as_long", &either.as_long(), &Some(&long))?;
                same("into_long of long", &either.into_long(), &long)
            },
        );
    }
    // The long syntax of a named volume has no place for SELinux relabeling.
    for (flag, selinux) in [("z", SELinux::Shared), ("Z", SELinux::Private)] {
        ctx.add_states(1);
        ctx.case(
            || format!("selinux of vol:/p:{flag}"),
            || {
                let v = ShortVolume {
                    container_path: ap("/p"),
                    options: Some(ShortOptions { source: Source::Volume(id("vol")), read_only: false, selinux: Some(selinux) }),
                };
                same("and back", &v.clone().into_long().into_short(), &Ok(v))
            },
        );
    }
    // long mounts: the product of all options
    let paths = [None, Some(""), Some("sub")];
    let mut commons = Vec::new();
    for target in ["/", "/t"] {
        for read_only in [false, true] {
            for consistency in [None, Some(""), Some("cached")] {
                for x in 0..=1 {
                    commons.push(Common { target: ap(target), read_only, consistency: consistency.map(Into::into), extensions: exts(x) });
                }
            }
        }
    }
    let mut mounts = Vec::new();
    let propagations: Vec<Option<BindPropagation>> = {
        use BindPropagation as B;
        [None, Some(B::Private), Some(B::RPrivate), Some(B::Shared)].into()
    };
    for c in &commons {
        for source in [None, Some("v"), Some("z")] {
            let mut options = vec![None];
            for nocopy in [false, true] {
                for p in paths {
                    for x in 0..=1 {
                        options.push(Some(VolumeOptions { nocopy, subpath: p.map(pb), extensions: exts(x) }));
                    }
                }
            }
            for volume in options {
                mounts.push(Mount::Volume(mount::Volume { source: source.map(id), volume, common: c.clone() }));
            }
        }
        for source in ["/", "./s", ".."] {
            let mut options = vec![None];
            for p in &propagations {
                for create_host_path in [false, true] {
                    for selinux in [None, Some(SELinux::Shared), Some(SELinux::Private)] {
                        for x in 0..=1 {
                            options.push(Some(BindOptions { propagation: *p, create_host_path, selinux, extensions: exts(x) }));
                        }
                    }
                }
            }
            for bind in options {
                mounts.push(Mount::Bind(Bind { source: hp(source), bind, common: c.clone() }));
            }
        }
        mounts.push(Mount::Tmpfs(mount::Tmpfs { tmpfs: None, common: c.clone() }));
        mounts.push(Mount::NamedPipe(mount::NamedPipe { source: hp("/p"), common: c.clone() }));
        mounts.push(Mount::Cluster(mount::Cluster { source: "v".into(), common: c.clone() }));
    }
    for schema in sc::mount_() {
        for p in picks(&schema, &bounds(ctx)) {
            mounts.push(p.value(&schema));
        }
    }
    ctx.part("long mounts", mounts.len() as u64);
    let mounts = &mounts;
    ctx.par(mounts.len(), |n| {
        let t = &mounts[n];
        ctx.add_states(1);
        ctx.case(
            || format!("mount {t:?}"),
            || {
                let short = check_mount(t)?;
                ctx.outcome(if short { "has a short form" } else { "long only" }, 1);
                Ok(())
            },
        );
    });
    // lists
    let c = &commons[0];
    type V = ShortOrLong<ShortVolume, Mount>;
    let sv = |t: &str| -> V { ShortOrLong::Short(t.parse().expect("short volume")) };
    let list: Vec<V> = vec![
        sv("/"),
        sv("v:/"),
        sv("./s:/:ro,Z"),
        ShortOrLong::Long(Mount::Volume(mount::Volume::new(c.clone()))),
        ShortOrLong::Long(Mount::Volume(mount::Volume { source: Some(id("v")), volume: None, common: c.clone() })),
        ShortOrLong::Long(long_volume(&"./s:/:ro,Z".parse().expect("short volume"))),
        ShortOrLong::Long(Mount::Tmpfs(mount::Tmpfs { tmpfs: None, common: c.clone() })),
        ShortOrLong::Long(Mount::Bind(Bind { source: hp("/"), bind: Some(BindOptions::default()), common: c.clone() })),
    ];
    for depth in 0..=ctx.pick(3usize, 4) {
        let total = list.len().pow(depth as u32);
        ctx.part(&format!("volume lists of {depth}"), total as u64);
        let list = &list;
        ctx.par(total, |mut n| {
            let mut v = Vec::new();
            for _ in 0..depth {
                v.push(list[n % list.len()].clone());
                n /= list.len();
            }
            let set: volumes::Volumes = v.iter().cloned().collect();
            ctx.add_states(1);
            ctx.case(
                || format!("volume list {v:?}"),
                || {
                    let mut seen = HashSet::new();
                    let uniq: Vec<V> = v.iter().filter(|p| seen.insert((*p).clone())).cloned().collect();
                    let want: Vec<Mount> = uniq
                        .iter()
                        .map(|p| match p {
                            ShortOrLong::Short(p) => long_volume(p),
                            ShortOrLong::Long(p) => p.clone(),
                        })
                        .collect();
                    same("into_long_iter", &volumes::into_long_iter(set.clone()).collect::<Vec<_>>(), &want)?;
                    let want: Vec<Result<ShortVolume, Mount>> = uniq
                        .iter()
                        .map(|p| match p {
                            ShortOrLong::Short(p) => Ok(p.clone()),
                            ShortOrLong::Long(p) => match short_volume(p) {
                                Want::Short(v) => Ok(v),
                                _ => Err(p.clone()),
                            },
                        })
                        .collect();
                    same("into_short_iter", &volumes::into_short_iter(set.clone()).collect::<Vec<_>>(), &want)
                },
            );
        });
    }
}

// ---- sets of names and maps from names ----

fn maps<V>(ctx: &Ctx, key: &str, values: &[(V, bool, Y)], depth: usize, get: impl Fn(&Service) -> Option<ShortOrLong<IndexSet<Identifier>, IndexMap<Identifier, V>>> + Sync)
where
    V: Default + Clone + PartialEq + Debug + DeserializeOwned + Sync,
    for<'a> IndexMap<Identifier, V>: AsShortIter<'a, Iter = indexmap::map::Keys<'a, Identifier, V>>,
{
    let names = ["z", "a.b", "c_1", "B"];
    // the short form: every list of distinct names
    let mut lists = Vec::new();
    for n in 0..=names.len() {
        for bits in 0..1usize << names.len() {
            let pick: Vec<&str> = (0..names.len()).filter(|k| bits >> k & 1 == 1).map(|k| names[k]).collect();
            if pick.len() == n {
                for order in orders(n, 4) {
                    lists.push(order.iter().map(|k| pick[*k]).collect::<Vec<_>>());
                }
            }
        }
    }
    ctx.part(&format!("{key}: lists"), lists.len() as u64);
    for names in &lists {
        ctx.add_states(1);
        ctx.case(
            || format!("{key} {names:?}"),
            || {
                let set: IndexSet<Identifier> = names.iter().map(|t| id(t)).collect();
                let want: Vec<(Identifier, V)> = set.iter().map(|t| (t.clone(), V::default())).collect();
                let short: ShortOrLong<_, IndexMap<Identifier, V>> = set.clone().into();
                chk(short.is_short() && !short.is_long() && short.as_long().is_none(), "From set is short")?;
                let got: Vec<&Identifier> = short.as_short_iter().ok_or("short as_short_iter")?.collect();
                same("short as_short_iter", &got, &set.iter().collect())?;
                let long = short.clone().into_long();
                same("into_long", &long.clone().into_iter().collect::<Vec<_>>(), &want)?;
                let got: Vec<&Identifier> = long.as_short_iter().ok_or("long as_short_iter")?.collect();
                same("and back", &got, &set.iter().collect())?;
                let long: ShortOrLong<IndexSet<Identifier>, IndexMap<Identifier, V>> = long.into();
                chk(long.is_long(), "From map is long")?;
                let got: Vec<&Identifier> = (&long).as_short_iter().ok_or("wrapped as_short_iter")?.collect();
                same("wrapped and back", &got, &set.iter().collect())?;
                // as documents
                let svc: Service = yaml(&m([(key, Y::L(names.iter().map(|t| s(*t)).collect()))]))?;
                same("read", &get(&svc).filter(|_| !names.is_empty()), &Some(short).filter(|_| !names.is_empty()))
            },
        );
    }
    // the long form: every map of so many names
    for n in 0..=depth {
        let total = values.len().pow(n as u32);
        ctx.part(&format!("{key}: maps of {n}"), total as u64);
        ctx.par(total, |mut code| {
            let mut pick = Vec::new();
            for k in 0..n {
                pick.push((names[k], &values[code % values.len()]));
                code /= values.len();
            }
            ctx.add_states(1);
            let doc = Y::O(pick.iter().map(|(k, v)| ((*k).to_owned(), v.2.clone())).collect());
            ctx.case(
                || format!("{key} {}", doc.flow()),
                || {
                    let map: IndexMap<Identifier, V> = pick.iter().map(|(k, v)| (id(k), v.0.clone())).collect();
                    let short = pick.iter().all(|(_, v)| v.1);
                    ctx.outcome(if short { "has a short form" } else { "long only" }, 1);
                    let want: Option<Vec<Identifier>> = short.then(|| pick.iter().map(|(k, _)| id(k)).collect());
                    same("as_short_iter", &map.as_short_iter().map(|i| i.cloned().collect::<Vec<_>>()), &want)?;
                    let long: ShortOrLong<IndexSet<Identifier>, IndexMap<Identifier, V>> = map.clone().into();
                    same("wrapped", &long.as_short_iter().map(|i| i.cloned().collect::<Vec<_>>()), &want)?;
                    same("as_long", &long.as_long(), &Some(&map))?;
                    same("into_long", &long.clone().into_long(), &map)?;
                    let svc: Service = yaml(&m([(key, doc.clone())]))?;
                    same("read", &get(&svc).filter(|_| n > 0), &Some(long).filter(|_| n > 0))
                },
            );
        });
    }
}

fn name_cases(ctx: &Ctx) {
    let mut deps = Vec::new();
    for (condition, text) in [
        (Condition::ServiceStarted, "service_started"),
        (Condition::ServiceHealthy, "service_healthy"),
        (Condition::ServiceCompletedSuccessfully, "service_completed_successfully"),
    ] {
        for restart in [false, true] {
            for required in [true, false] {
                let doc = m([("condition", s(text)), ("restart", Y::B(restart)), ("required", Y::B(required))]);
                let plain = condition == Condition::ServiceStarted && !restart && required;
                deps.push((Dependency { condition, restart, required }, plain, doc));
            }
        }
    }
    maps(ctx, "depends_on", &deps, 4, |t| Some(t.depends_on.clone()));

    let schema = sc::service_network();
    let mut nets: Vec<(Option<network_config::Network>, bool, Y)> = vec![(None, true, Y::Null), (Some(network_config::Network::default()), true, m::<&str>([]))];
    for x in &schema.items {
        let mut n = network_config::Network::default();
        (x.set)(&mut n);
        if !nets.iter().any(|t| t.0.as_ref() == Some(&n)) {
            nets.push((Some(n), !x.nonempty, x.forms[0].clone()));
        }
    }
    maps(ctx, "networks", &nets, ctx.pick(3, 4), |t| match &t.network_config {
        Some(network_config::NetworkConfig::Networks(n)) => Some(n.clone()),
        _ => None,
    });
}

// ---- env_file ----

fn env_files(ctx: &Ctx) {
    type E = ShortOrLong<PathBuf, env_file::Config>;
    let long = |t: &str, required| -> (E, Y) {
        (
            ShortOrLong::Long(env_file::Config { path: pb(t), required }),
            m([("path", s(t)), ("required", Y::B(required))]),
        )
    };
    let short = |t: &str| -> (E, Y) { (ShortOrLong::Short(pb(t)), s(t)) };
    let pool = [short("a"), short("./b.env"), short(""), long("a", true), long("a", false), long("c", true), long("c", false)];
    for (e, y) in &pool {
        if let ShortOrLong::Short(p) = e {
            ctx.add_states(1);
            ctx.case(
                || format!("env_file {p:?}"),
                || {
                    let one = EnvFile::Single(p.clone());
                    same("From<PathBuf>", &EnvFile::from(p.clone()), &one)?;
                    same("From<String>", &EnvFile::from(p.to_str().expect("text").to_owned()), &one)?;
                    same("as_single", &one.as_single(), &Some(p))?;
                    same("into_list", &one.clone().into_list(), &vec![e.clone()])?;
                    same("read", &yaml::<Service>(&m([("env_file", y.clone())]))?.env_file, &Some(one))
                },
            );
        }
    }
    for depth in 0..=ctx.pick(4usize, 5) {
        let total = pool.len().pow(depth as u32);
        ctx.part(&format!("env_file lists of {depth}"), total as u64);
        let pool = &pool;
        ctx.par(total, |mut n| {
            let mut v = Vec::new();
            for _ in 0..depth {
                v.push(&pool[n % pool.len()]);
                n /= pool.len();
            }
            ctx.add_states(1);
            let doc = Y::L(v.iter().map(|t| t.1.clone()).collect());
            ctx.case(
                || format!("env_file {}", doc.flow()),
                || {
                    let list: Vec<E> = v.iter().map(|t| t.0.clone()).collect();
                    let e = EnvFile::List(list.clone());
                    same("From list", &EnvFile::from(list.clone()), &e)?;
                    same("collected", &list.iter().cloned().collect::<EnvFile>(), &e)?;
                    same("into_list", &e.clone().into_list(), &list)?;
                    let single = match &list[..] {
                        [ShortOrLong::Short(p) | ShortOrLong::Long(env_file::Config { path: p, required: true })] => Some(p),
                        _ => None,
                    };
                    same("as_single", &e.as_single(), &single)?;
                    same("read", &yaml::<Service>(&m([("env_file", doc.clone())]))?.env_file, &Some(e.clone()))?;
                    // as long configs
                    let want: Vec<env_file::Config> = list
                        .iter()
                        .map(|t| match t {
                            ShortOrLong::Short(p) => env_file::Config { path: p.clone(), required: true },
                            ShortOrLong::Long(c) => c.clone(),
                        })
                        .collect();
                    same("long list", &list.iter().cloned().map(ShortOrLong::into_long).collect::<Vec<_>>(), &want)
                },
            );
        });
    }
}

/// Short values of other types are wrapped as they are.
fn wrapped(ctx: &Ctx) {
    macro_rules! go {
        ($($t:ty: $v:expr),* $(,)?) => {$(
            ctx.add_states(1);
            ctx.case(|| format!("wrapped {}", stringify!($t)), || {
                let v: $t = $v;
                let w: ShortOrLong<$t, ()> = v.clone().into();
                chk(w == ShortOrLong::Short(v.clone()) && w.is_short() && !w.is_long() && w.as_long().is_none(), "Short")?;
                let d = ShortOrLong::<$t, ()>::Long(());
                chk(d.is_long() && !d.is_short() && d.as_long() == Some(&()), "Long")
            });
        )*};
    }
    go!(
        (): (), bool: true, u8: 1, u16: 2, u32: 3, u64: 4, u128: 5, i8: -1, i16: -2, i32: -3, i64: -4, i128: -5,
        f32: 1.5, f64: 2.5, char: 'é', String: "s".into(), Box<str>: "b".into(), PathBuf: "p".into(),
        Box<std::path::Path>: PathBuf::from("q").into(), std::ffi::OsString: "o".into(),
        Box<std::ffi::OsStr>: std::ffi::OsString::from("r").into(), Identifier: id("i"),
        IndexSet<Identifier>: [id("b"), id("a")].into(), Context: Context::Path("c".into()), ShortPort: 80.into(),
        ShortVolume: ShortVolume::new(ap("/v")),
    );
    ctx.add_states(1);
    ctx.case(
        || "default of a short or long".into(),
        || {
            same("u8", &ShortOrLong::<u8, u16>::default(), &ShortOrLong::Short(0))?;
            same("set", &ShortOrLong::<IndexSet<Identifier>, IndexMap<Identifier, Dependency>>::default(), &ShortOrLong::Short(IndexSet::new()))
        },
    );
    let _ = guard(|| ());
}

pub fn run(ctx: &Ctx) {
    singles(ctx);
    products(ctx);
    port_cases(ctx);
    volume_cases(ctx);
    name_cases(ctx);
    env_files(ctx);
    wrapped(ctx);
}
