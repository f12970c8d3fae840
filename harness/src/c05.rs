//! C05: exclusive options and required choices, in every order of the keys.
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

use compose_spec::{
    config, secret,
    service::{
        build::{self, Build, Dockerfile},
        healthcheck,
        network_config::{NetworkConfig, NetworkMode},
        volumes::{mount, Mount},
        CredentialSpec, CredentialSpecKind, Healthcheck,
    },
    Compose, Config, Extensions, Identifier, Network, Resource, Secret, Service, ShortOrLong, Volume, YamlValue,
};
use indexmap::{IndexMap, IndexSet};

use crate::{
    doc::{each, hosts, junk, mutants, orders, picks, Bounds, Doc, Visit},
    engine::Ctx,
    schema::{ap, ek, hp, id, pb, us, Schema},
    y::{i, l, ls, m, o, s as st, Y},
};

pub const ASSUME: &[&str] = &[
    "null for one of the competing keys, and keys written twice, are judged only for independence of the order",
    "a healthcheck with `disable: false` next to `test: [NONE]` is read as disabled, as documented",
];

/// What is chosen: keys with an index into their values.
type Chosen<'a> = [(&'a str, usize)];

/// A way of reading a mapping.
type Route<'a, T> = (&'static str, &'a (dyn Fn(&Y) -> Result<T, String> + Sync));

enum Want<T> {
    /// Accepted, with this value.
    Yes(T),
    No,
    /// Only the order must not matter.
    Any,
}

/// All subsets of the keys (up to `max` of them, and all of them), all values, all orders.
fn explore<T: Doc>(
    ctx: &Ctx,
    name: &str,
    keys: &[(&str, Vec<Y>)],
    max: usize,
    routes: &[Route<T>],
    judge: &(dyn Fn(&Chosen) -> Want<T> + Sync),
) {
    let n = keys.len();
    let mut sets: Vec<Vec<(usize, usize)>> = vec![];
    for bits in 0u32..1 << n {
        if bits.count_ones() as usize > max {
            continue;
        }
        let mut all: Vec<Vec<(usize, usize)>> = vec![vec![]];
        for k in (0..n).filter(|k| bits >> k & 1 == 1) {
            all = all
                .into_iter()
                .flat_map(|v| {
                    (0..keys[k].1.len()).map(move |x| {
                        let mut v = v.clone();
                        v.push((k, x));
                        v
                    })
                })
                .collect();
        }
        sets.extend(all);
    }
    ctx.part(name, sets.len() as u64);
    let yes = AtomicU64::new(0);
    ctx.par(sets.len(), |k| {
        let set = &sets[k];
        let chosen: Vec<(&str, usize)> = set.iter().map(|(k, x)| (keys[*k].0, *x)).collect();
        let want = judge(&chosen);
        let mut first: Option<Result<T, ()>> = None;
        for perm in orders(set.len(), 6) {
            let doc = m(perm.iter().map(|p| {
                let (k, x) = set[*p];
                (keys[k].0, keys[k].1[x].clone())
            }));
            ctx.add_states(1);
            for (route, read) in routes {
                ctx.case(
                    || format!("{name} {route} {}", doc.flow()),
                    || {
                        let got = read(&doc);
                        match (&want, &got) {
                            (Want::Yes(v), Ok(g)) if v == g => {}
                            (Want::Yes(v), Ok(g)) => return Err(format!("read as {g:?}, should be {v:?}")),
                            (Want::Yes(v), Err(e)) => return Err(format!("rejected: {e}, should be {v:?}")),
                            (Want::No, Ok(g)) => return Err(format!("accepted as {g:?}")),
                            _ => {}
                        }
                        if got.is_ok() {
                            yes.fetch_add(1, Relaxed);
                        }
                        let got = got.map_err(|_| ());
                        match &first {
                            None => first = Some(got),
                            Some(f) if *f == got => {}
                            Some(f) => return Err(format!("read as {got:?}, in another order as {f:?}")),
                        }
                        Ok(())
                    },
                );
            }
        }
    });
    ctx.outcome(&format!("{name}: accepted"), yes.into_inner());
    ctx.sample(|| {
        sets.last()
            .map(|set| m(set.iter().map(|(k, x)| (keys[*k].0, keys[*k].1[*x].clone()))).flow())
            .unwrap_or_default()
    });
}

fn has<'a>(c: &'a Chosen, key: &str) -> Option<usize> {
    c.iter().find(|(k, _)| *k == key).map(|(_, x)| *x)
}

fn e(t: impl std::fmt::Display) -> String {
    t.to_string()
}
fn flow<T: Doc>(y: &Y) -> Result<T, String> {
    serde_yaml::from_str(&y.flow()).map_err(e)
}
fn block<T: Doc>(y: &Y) -> Result<T, String> {
    serde_yaml::from_str(&y.block()).map_err(e)
}
fn value<T: Doc>(y: &Y) -> Result<T, String> {
    serde_yaml::from_value(y.value()).map_err(e)
}
fn compose(y: Y) -> Result<Compose, String> {
    Compose::options().from_yaml_str(&y.flow()).map_err(e)
}
/// Within a service of a document, with merging enabled.
fn service(y: Y) -> Result<Service, String> {
    let c = Compose::options()
        .apply_merge(true)
        .from_yaml_str(m([("services", o([("s", y)]))]).flow().as_str())
        .map_err(e)?;
    Ok(c.services["s"].clone())
}
fn ext(on: bool) -> Extensions {
    if on {
        [(ek("x-a"), YamlValue::from(1u64))].into_iter().collect()
    } else {
        Extensions::new()
    }
}

/// `x-a` with 1 or null.
fn exts(x: Option<usize>) -> Extensions {
    x.map(|x| (ek("x-a"), [YamlValue::from(1u64), YamlValue::Null][x].clone())).into_iter().collect()
}

fn sources(ctx: &Ctx) {
    let labels = |on: bool| {
        if on {
            serde_yaml::from_str("[a]").unwrap()
        } else {
            Default::default()
        }
    };
    let external = || ("external", vec![Y::B(true), Y::B(false), st("true"), Y::Null]);
    let config = |c: &Chosen| -> Want<Config> {
        let mut v: Vec<config::Source> = vec![];
        if let Some(x) = has(c, "file") {
            v.push(config::Source::File(pb(["./f", "/f", ""][x])));
        }
        if has(c, "environment").is_some() {
            v.push(config::Source::Environment(["V", ""][has(c, "environment").unwrap()].into()));
        }
        if let Some(x) = has(c, "content") {
            v.push(config::Source::Content(["c", ""][x].into()));
        }
        if has(c, "name").is_some() || has(c, "driver").is_some() || has(c, "external").is_some() {
            return Want::No;
        }
        match v.len() {
            1 => Want::Yes(Config {
                source: v.remove(0),
                labels: labels(has(c, "labels") == Some(0)),
                extensions: exts(has(c, "x-a")),
            }),
            _ => Want::No,
        }
    };
    let secret = |c: &Chosen| -> Want<Secret> {
        let mut v: Vec<secret::Source> = vec![];
        if let Some(x) = has(c, "file") {
            v.push(secret::Source::File(pb(["./f", "/f", ""][x])));
        }
        if has(c, "environment").is_some() {
            v.push(secret::Source::Environment(["V", ""][has(c, "environment").unwrap()].into()));
        }
        if has(c, "content").is_some() || has(c, "name").is_some() || has(c, "external").is_some() {
            return Want::No;
        }
        match v.len() {
            1 => Want::Yes(Secret {
                source: v.remove(0),
                labels: labels(has(c, "labels") == Some(0)),
                driver: has(c, "driver").map(|x| ["d", ""][x].into()),
                driver_opts: IndexMap::new(),
                extensions: exts(has(c, "x-a")),
            }),
            _ => Want::No,
        }
    };
    let keys = vec![
        ("file", vec![st("./f"), st("/f"), st("")]),
        ("environment", vec![st("V"), st("")]),
        ("content", vec![st("c"), st("")]),
        ("labels", vec![ls(["a"]), l([])]),
        ("driver", vec![st("d"), st("")]),
        ("name", vec![st("n"), st("")]),
        ("x-a", vec![i(1), Y::Null]),
    ];
    let max = ctx.pick(5, 7);
    explore::<Config>(ctx, "config", &keys, max, &[("flow", &flow), ("block", &block), ("value", &value)], &config);
    explore::<Secret>(ctx, "secret", &keys, max, &[("flow", &flow), ("block", &block), ("value", &value)], &secret);
    let mut keys = keys;
    keys.push(external());
    fn resource<T>(c: &Chosen, inner: impl Fn(&Chosen) -> Want<T>) -> Want<Resource<T>> {
        match has(c, "external") {
            Some(0) => {
                if c.iter().all(|(k, _)| matches!(*k, "external" | "name")) {
                    Want::Yes(Resource::External { name: has(c, "name").map(|x| ["n", ""][x].into()) })
                } else {
                    Want::No
                }
            }
            Some(1) | None => {
                let rest: Vec<(&str, usize)> = c.iter().filter(|(k, _)| *k != "external").copied().collect();
                match inner(&rest) {
                    Want::Yes(v) => Want::Yes(Resource::Compose(v)),
                    Want::No => Want::No,
                    Want::Any => Want::Any,
                }
            }
            Some(2) => Want::No,
            _ => Want::Any,
        }
    }
    let in_compose = |key: &'static str| {
        move |y: &Y| compose(m([("services", m::<&str>([])), (key, o([("r", y.clone())]))]))
    };
    explore::<Resource<Config>>(
        ctx,
        "config resource",
        &keys,
        max,
        &[
            ("flow", &flow),
            ("value", &value),
            ("compose", &|y| in_compose("configs")(y).map(|c| c.configs["r"].clone())),
        ],
        &|c| resource(c, config),
    );
    explore::<Resource<Secret>>(
        ctx,
        "secret resource",
        &keys,
        max,
        &[
            ("flow", &flow),
            ("value", &value),
            ("compose", &|y| in_compose("secrets")(y).map(|c| c.secrets["r"].clone())),
        ],
        &|c| resource(c, secret),
    );
    // networks and volumes
    let keys = vec![
        external(),
        ("name", vec![st("n"), st("")]),
        ("driver", vec![st("d"), st("host"), st("")]),
        ("labels", vec![ls(["a"]), l([])]),
        ("internal", vec![Y::B(false), Y::B(true)]),
        ("file", vec![st("./f")]),
        ("x-a", vec![i(1), Y::Null]),
    ];
    let network = |c: &Chosen| -> Want<Network> {
        if has(c, "file").is_some() {
            return Want::No;
        }
        Want::Yes(Network {
            name: has(c, "name").map(|x| ["n", ""][x].into()),
            driver: has(c, "driver")
                .map(|x| {
                    use compose_spec::network::Driver;
                    [Driver::Other("d".into()), Driver::Host, Driver::Other(String::new())][x].clone()
                }),
            labels: labels(has(c, "labels") == Some(0)),
            internal: has(c, "internal") == Some(1),
            extensions: exts(has(c, "x-a")),
            ..Default::default()
        })
    };
    let volume = |c: &Chosen| -> Want<Volume> {
        if has(c, "file").is_some() || has(c, "internal").is_some() {
            return Want::No;
        }
        Want::Yes(Volume {
            name: has(c, "name").map(|x| ["n", ""][x].into()),
            driver: has(c, "driver").map(|x| ["d", "host", ""][x].into()),
            labels: labels(has(c, "labels") == Some(0)),
            extensions: exts(has(c, "x-a")),
            ..Default::default()
        })
    };
    explore::<Resource<Network>>(
        ctx,
        "network resource",
        &keys,
        max,
        &[
            ("flow", &flow),
            ("value", &value),
            ("compose", &|y| in_compose("networks")(y).map(|c| c.networks["r"].clone().unwrap_or(Resource::Compose(Network::default())))),
        ],
        &|c| resource(c, network),
    );
    explore::<Resource<Volume>>(
        ctx,
        "volume resource",
        &keys,
        max,
        &[
            ("flow", &flow),
            ("value", &value),
            ("compose", &|y| in_compose("volumes")(y).map(|c| c.volumes["r"].clone().unwrap_or(Resource::Compose(Volume::default())))),
        ],
        &|c| resource(c, volume),
    );
}

fn credential(ctx: &Ctx) {
    let keys = [
        ("config", vec![st("a"), st("-bad")]),
        ("file", vec![st("f"), st("")]),
        ("registry", vec![st("r"), st("")]),
        ("x-a", vec![i(1)]),
        ("x-b", vec![Y::Null]),
        ("name", vec![st("n")]),
    ];
    explore::<CredentialSpec>(
        ctx,
        "credential_spec",
        &keys,
        6,
        &[
            ("flow", &flow),
            ("block", &block),
            ("value", &value),
            ("service", &|y| {
                service(m([("credential_spec", y.clone())]))?.credential_spec.ok_or_else(|| "absent".into())
            }),
        ],
        &|c| {
            let mut v = vec![];
            match has(c, "config") {
                Some(0) => v.push(CredentialSpecKind::Config(id("a"))),
                Some(_) => return Want::No,
                None => {}
            }
            if let Some(x) = has(c, "file") {
                v.push(CredentialSpecKind::File(pb(["f", ""][x])));
            }
            if let Some(x) = has(c, "registry") {
                v.push(CredentialSpecKind::Registry(["r", ""][x].into()));
            }
            if v.len() != 1 || has(c, "name").is_some() {
                return Want::No;
            }
            let mut extensions = ext(has(c, "x-a").is_some());
            if has(c, "x-b").is_some() {
                extensions.insert(ek("x-b"), YamlValue::Null);
            }
            Want::Yes(CredentialSpec { kind: v.remove(0), extensions })
        },
    );
}

fn network(ctx: &Ctx) {
    let modes = [st("host"), st("none"), st("service:a"), st("service:-"), st("bridge")];
    let nets = [ls(["a", "b"]), o([("a", Y::Null)]), l([]), m::<&str>([]), st("a"), o([("a", m([("x-a", i(1))]))])];
    let mode = |x: usize| -> Option<NetworkMode> {
        Some(match x {
            0 => NetworkMode::Host,
            1 => NetworkMode::None,
            2 => NetworkMode::Service(id("a")),
            4 => NetworkMode::Other("bridge".into()),
            _ => return None,
        })
    };
    let list = |x: usize| -> Option<ShortOrLong<IndexSet<Identifier>, IndexMap<Identifier, Option<_>>>> {
        Some(match x {
            0 => ShortOrLong::Short([id("a"), id("b")].into_iter().collect()),
            1 => ShortOrLong::Long([(id("a"), None)].into_iter().collect()),
            2 => ShortOrLong::Short(IndexSet::new()),
            3 => ShortOrLong::Long(IndexMap::new()),
            5 => ShortOrLong::Long(
                [(
                    id("a"),
                    Some(compose_spec::service::network_config::Network { extensions: ext(true), ..Default::default() }),
                )]
                .into_iter()
                .collect(),
            ),
            _ => return None,
        })
    };
    let config = |c: &Chosen| -> Result<Option<NetworkConfig>, ()> {
        match (has(c, "network_mode"), has(c, "networks")) {
            (None, None) => Ok(None),
            (Some(x), None) => mode(x).map(|m| Some(NetworkConfig::NetworkMode(m))).ok_or(()),
            (None, Some(x)) => list(x).map(|n| Some(NetworkConfig::Networks(n))).ok_or(()),
            _ => Err(()),
        }
    };
    let both = [("network_mode", modes.to_vec()), ("networks", nets.to_vec())];
    explore::<NetworkConfig>(
        ctx,
        "network configuration",
        &both,
        2,
        &[("flow", &flow), ("value", &value), ("block", &block)],
        &|c| match config(c) {
            Ok(Some(v)) => Want::Yes(v),
            _ => Want::No,
        },
    );
    let mut keys = both.to_vec();
    keys.extend([
        ("image", vec![st("i")]),
        ("mac_address", vec![st("01:02:03:04:05:06")]),
        ("x-a", vec![i(1)]),
        ("hostname", vec![st("h")]),
    ]);
    explore::<Service>(
        ctx,
        "networks of a service",
        &keys,
        ctx.pick(5, 6),
        &[("flow", &flow), ("value", &value), ("service", &|y| service(y.clone()))],
        &|c| {
            let Ok(network_config) = config(c) else { return Want::No };
            Want::Yes(Service {
                network_config,
                image: has(c, "image").map(|_| "i".parse().unwrap()),
                mac_address: has(c, "mac_address").map(|_| "01:02:03:04:05:06".parse().unwrap()),
                hostname: has(c, "hostname").map(|_| "h".parse().unwrap()),
                extensions: ext(has(c, "x-a").is_some()),
                ..Default::default()
            })
        },
    );
}

fn dockerfile(ctx: &Ctx) {
    let file = |c: &Chosen| -> Result<Option<Dockerfile>, ()> {
        match (has(c, "dockerfile"), has(c, "dockerfile_inline")) {
            (None, None) => Ok(None),
            (Some(x), None) if x < 3 => Ok(Some(Dockerfile::File(pb(["D", "./a/b", ""][x])))),
            (None, Some(x)) if x < 2 => Ok(Some(Dockerfile::Inline(["FROM a\n", ""][x].into()))),
            _ => Err(()),
        }
    };
    let both = [
        ("dockerfile", vec![st("D"), st("./a/b"), st(""), l([])]),
        ("dockerfile_inline", vec![st("FROM a\n"), st(""), m::<&str>([])]),
    ];
    explore::<Dockerfile>(
        ctx,
        "dockerfile",
        &both,
        2,
        &[("flow", &flow), ("value", &value), ("block", &block)],
        &|c| match file(c) {
            Ok(Some(v)) => Want::Yes(v),
            _ => Want::No,
        },
    );
    let mut keys = both.to_vec();
    keys.extend([
        ("context", vec![st("c")]),
        ("target", vec![st("t")]),
        ("no_cache", vec![Y::B(true), Y::B(false)]),
        ("x-a", vec![i(1)]),
    ]);
    explore::<Build>(
        ctx,
        "dockerfile of a build",
        &keys,
        6,
        &[
            ("flow", &flow),
            ("value", &value),
            ("service", &|y| match service(m([("build", y.clone())]))?.build {
                Some(ShortOrLong::Long(b)) => Ok(b),
                other => Err(format!("{other:?}")),
            }),
        ],
        &|c| {
            let Ok(dockerfile) = file(c) else { return Want::No };
            Want::Yes(Build {
                context: has(c, "context").map(|_| build::Context::Path(pb("c"))),
                dockerfile,
                target: has(c, "target").map(|_| "t".into()),
                no_cache: has(c, "no_cache") == Some(0),
                extensions: ext(has(c, "x-a").is_some()),
                ..Default::default()
            })
        },
    );
}

fn healthcheck(ctx: &Ctx) {
    let keys = [
        ("disable", vec![Y::B(true), Y::B(false), Y::Null, st("true")]),
        (
            "test",
            vec![
                ls(["NONE"]),
                ls(["CMD", "a", "b"]),
                ls(["CMD-SHELL", "a"]),
                st("c"),
                ls(["CMD", "NONE"]),
                ls(["NONE", "a"]),
                l([]),
                st("NONE"),
                Y::Null,
                ls(["none"]),
                ls(["cmd", "a"]),
            ],
        ),
        ("interval", vec![st("1s"), st("0s")]),
        ("timeout", vec![st("2s")]),
        ("retries", vec![i(3), i(0)]),
        ("start_period", vec![st("4s"), i(0)]),
        ("start_interval", vec![st("5s")]),
        ("x-a", vec![i(1), Y::Null]),
        ("name", vec![st("n")]),
    ];
    explore::<Healthcheck>(
        ctx,
        "healthcheck",
        &keys,
        ctx.pick(5, 7),
        &[
            ("flow", &flow),
            ("block", &block),
            ("value", &value),
            ("service", &|y| service(m([("healthcheck", y.clone())]))?.healthcheck.ok_or_else(|| "absent".into())),
        ],
        &|c| {
            use healthcheck::Test;
            if has(c, "name").is_some() {
                return Want::No;
            }
            let (disable, test) = (has(c, "disable"), has(c, "test"));
            if disable == Some(3) {
                return Want::No;
            }
            if disable == Some(2) || test == Some(8) || test == Some(5) || test == Some(6) {
                return Want::Any;
            }
            if let Some(9 | 10) = test {
                return Want::Any;
            }
            let off = disable == Some(0);
            let none = test == Some(0);
            let others = c.iter().any(|(k, _)| !matches!(*k, "disable" | "test"));
            if off && none {
                return Want::Any;
            }
            if off || none {
                if others || (off && test.is_some()) {
                    return Want::No;
                }
                return Want::Yes(Healthcheck::Disable);
            }
            let test = match test {
                None => None,
                Some(1) => Some(Test::Command(vec!["a".into(), "b".into()])),
                Some(2) => Some(Test::ShellCommand("a".into())),
                Some(3) => Some(Test::ShellCommand("c".into())),
                Some(4) => Some(Test::Command(vec!["NONE".into()])),
                Some(7) => Some(Test::ShellCommand("NONE".into())),
                _ => unreachable!(),
            };
            Want::Yes(Healthcheck::Command(healthcheck::Command {
                test,
                interval: has(c, "interval").and_then(|x| us([1_000_000, 0][x])),
                timeout: has(c, "timeout").and(us(2_000_000)),
                retries: has(c, "retries").map(|x| [3, 0][x]),
                start_period: has(c, "start_period").and_then(|x| us([4_000_000, 0][x])),
                start_interval: has(c, "start_interval").and(us(5_000_000)),
                extensions: exts(has(c, "x-a")),
            }))
        },
    );
}

fn mounts(ctx: &Ctx) {
    let kinds = ["volume", "bind", "tmpfs", "npipe", "cluster", "other", "Volume", ""];
    let mut types: Vec<Y> = kinds.iter().map(|k| st(*k)).collect();
    types.push(Y::Null);
    let keys = [
        ("type", types),
        ("source", vec![st("/a"), st("a"), st("a b"), st("")]),
        ("target", vec![st("/t"), st("t"), st("")]),
        ("read_only", vec![Y::B(true), Y::B(false)]),
        ("bind", vec![m([("propagation", st("rshared"))]), m([("nocopy", Y::B(true))]), m::<&str>([])]),
        ("volume", vec![m([("nocopy", Y::B(true))]), m([("size", i(1))]), m::<&str>([])]),
        ("tmpfs", vec![m([("size", st("1b"))]), m([("propagation", st("shared"))]), m::<&str>([])]),
        ("x-a", vec![i(1)]),
    ];
    explore::<Mount>(
        ctx,
        "mount",
        &keys,
        ctx.pick(4, 5),
        &[
            ("flow", &flow),
            ("value", &value),
            ("service", &|y| {
                let v = service(m([("volumes", l([y.clone()]))]))?.volumes;
                match v.into_iter().next() {
                    Some(ShortOrLong::Long(m)) => Ok(m),
                    other => Err(format!("{other:?}")),
                }
            }),
        ],
        &|c| {
            let Some(kind) = has(c, "type").filter(|x| *x < 5).map(|x| kinds[x]) else { return Want::No };
            if has(c, "target") != Some(0) {
                return Want::No;
            }
            for own in ["bind", "volume", "tmpfs"] {
                if let Some(x) = has(c, own) {
                    if own != kind || x == 1 {
                        return Want::No;
                    }
                }
            }
            let mut common = mount::Common::new(ap("/t"));
            common.read_only = has(c, "read_only") == Some(0);
            common.extensions = ext(has(c, "x-a").is_some());
            let source = has(c, "source");
            let x = match (kind, source) {
                ("volume", None) | ("volume", Some(1)) => Mount::Volume(mount::Volume {
                    source: source.map(|_| id("a")),
                    volume: has(c, "volume").map(|x| mount::VolumeOptions { nocopy: x == 0, ..Default::default() }),
                    common,
                }),
                ("bind", Some(0)) => Mount::Bind(mount::Bind {
                    source: hp("/a"),
                    bind: has(c, "bind").map(|x| mount::BindOptions {
                        propagation: (x == 0).then_some(mount::BindPropagation::RShared),
                        ..Default::default()
                    }),
                    common,
                }),
                ("tmpfs", None) => Mount::Tmpfs(mount::Tmpfs {
                    tmpfs: has(c, "tmpfs").map(|x| mount::TmpfsOptions {
                        size: (x == 0).then(|| "1b".parse().unwrap()),
                        ..Default::default()
                    }),
                    common,
                }),
                ("npipe", Some(0)) => Mount::NamedPipe(mount::NamedPipe { source: hp("/a"), common }),
                ("cluster", Some(x)) => Mount::Cluster(mount::Cluster { source: ["/a", "a", "a b", ""][x].into(), common }),
                _ => return Want::No,
            };
            Want::Yes(x)
        },
    );
}

/// The order of the keys of a mapping never matters, for any document.
struct Orders;

impl Visit for Orders {
    fn visit<T: Doc>(&self, ctx: &Ctx, s: &Schema<T>) {
        let big = matches!(s.name, "Service" | "Build" | "Deploy");
        let all = picks(
            s,
            &Bounds {
                pair_reps: if big { ctx.pick(1, 3) } else { ctx.pick(10, 40) },
                maximal: false,
                subsets: ctx.pick(6, 10),
                forms: false,
            },
        );
        ctx.part(&format!("orders of {}", s.name), all.len() as u64);
        let check = |doc: &Y, full: usize| {
            // every mapping of the document in other orders
            let first = serde_yaml::from_str::<T>(&doc.flow()).map_err(|_| ());
            for path in doc.paths() {
                let Y::M(v) = doc.at(&path) else { continue };
                if v.len() < 2 {
                    continue;
                }
                let all = orders(v.len(), full);
                let all = if v.len() > full { &all[..v.len() + 1] } else { &all[..] };
                for perm in &all[1..] {
                    // extensions are compared in order by the types which are hashed
                    if !perm.iter().filter(|n| v[**n].0.starts_with("x-")).is_sorted() {
                        continue;
                    }
                    let mut d = doc.clone();
                    *d.at_mut(&path) = Y::M(perm.iter().map(|n| v[*n].clone()).collect());
                    ctx.add_states(1);
                    ctx.case(
                        || format!("{} {} against {}", s.name, d.flow(), doc.flow()),
                        || {
                            let got = serde_yaml::from_str::<T>(&d.flow()).map_err(|_| ());
                            if got == first {
                                Ok(())
                            } else {
                                Err(format!("read as {got:?}, in another order as {first:?}"))
                            }
                        },
                    );
                }
            }
        };
        ctx.par(all.len(), |k| {
            let p = &all[k];
            check(&p.doc(s), if p.0.len() > 6 { 3 } else { 4 });
        });
        let junk = junk();
        let junk: Vec<Y> = if ctx.thorough() { junk } else { junk.into_iter().step_by(4).collect() };
        let hosts: Vec<Y> = hosts(s, false).into_iter().filter(|d| d.paths().len() < ctx.pick(8, 20)).collect();
        mutants(ctx, &hosts, &junk, |doc| {
            if !doc.flow().contains(['&', '*']) {
                check(doc, 3);
            }
        });
    }
}

pub fn run(ctx: &Ctx) {
    sources(ctx);
    credential(ctx);
    network(ctx);
    dockerfile(ctx);
    healthcheck(ctx);
    mounts(ctx);
    each(ctx, &Orders);
}
