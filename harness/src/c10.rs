//! C10: cross-reference validation against a model of uses and definitions.
use std::collections::{BTreeMap, BTreeSet};

use compose_spec::{service::Service, Compose, Identifier, ValidationError};
use indexmap::IndexMap;

use crate::{engine::Ctx, schema::id};

pub const ASSUME: &[&str] = &[
    "the resources a service uses are those of its networks, volumes, configs and secrets attributes (those of its build and its credential spec are not judged)",
    "a volume must be defined when at least two services use it by name",
];

const KINDS: [&str; 4] = ["network", "volume", "config", "secret"];

/// A service: its text, and the names it uses of each kind, in order.
#[derive(Clone)]
struct Svc {
    text: String,
    service: Service,
    uses: [Vec<String>; 4],
}

fn svc(text: &str, kind: usize, uses: &[&str]) -> Svc {
    let service = serde_yaml::from_str(text).unwrap_or_else(|x| panic!("{text}: {x}"));
    let mut all: [Vec<String>; 4] = Default::default();
    all[kind] = uses.iter().map(|s| (*s).to_owned()).collect();
    Svc { text: text.to_owned(), service, uses: all }
}

/// The definitions of one kind.
#[derive(Clone, Default)]
struct Defs(Vec<(String, &'static str)>);

impl Defs {
    fn text(&self) -> String {
        let v: Vec<String> = self.0.iter().map(|(k, v)| format!("{k}: {v}")).collect();
        format!("{{{}}}", v.join(", "))
    }
    fn has(&self, k: &str) -> bool {
        self.0.iter().any(|d| d.0 == k)
    }
}

fn resources(kind: usize, d: &Defs, c: &mut Compose) {
    let t = d.text();
    match kind {
        0 => c.networks = serde_yaml::from_str(&t).unwrap(),
        1 => c.volumes = serde_yaml::from_str(&t).unwrap(),
        2 => c.configs = serde_yaml::from_str(&t).unwrap(),
        _ => c.secrets = serde_yaml::from_str(&t).unwrap(),
    }
}

fn run_kind(c: &Compose, kind: usize) -> Result<(), ValidationError> {
    match kind {
        0 => c.validate_networks(),
        1 => c.validate_volumes(),
        2 => c.validate_configs(),
        _ => c.validate_secrets(),
    }
}

/// The (service, resource) pairs which are wrong, in document order.
fn wrong(kind: usize, services: &[(&str, &Svc)], defs: &Defs) -> Vec<(String, String)> {
    let mut v = vec![];
    for (name, s) in services {
        for u in &s.uses[kind] {
            if defs.has(u) {
                continue;
            }
            if kind == 1 {
                let by: BTreeSet<&str> = services.iter().filter(|(_, s)| s.uses[1].contains(u)).map(|(n, _)| *n).collect();
                if by.len() < 2 {
                    continue;
                }
            }
            v.push(((*name).to_owned(), u.clone()));
        }
    }
    v
}

fn message(kind: usize, service: &str, resource: &str) -> String {
    let k = KINDS[kind];
    if kind == 1 {
        format!("{k} `{resource}` is used across multiple services and is not defined in the top-level `{k}s` field")
    } else {
        format!("{k} `{resource}` (used in the `{service}` service) is not defined in the top-level `{k}s` field")
    }
}

fn check(c: &Compose, services: &[(&str, &Svc)], defs: &[&Defs; 4]) -> Result<(), String> {
    let mut first = None;
    for kind in 0..4 {
        let bad = wrong(kind, services, defs[kind]);
        let got = run_kind(c, kind);
        match (&got, bad.first()) {
            (Ok(()), None) => {}
            (Err(x), Some((s, r))) => {
                let text = x.to_string();
                let right = if kind == 1 {
                    bad.iter().any(|(s, r)| text == message(1, s, r))
                } else {
                    // the first one is documented to be listed
                    text == message(kind, s, r)
                };
                if !right {
                    return Err(format!("the error says {text:?}, but wrong are {bad:?}"));
                }
            }
            (got, want) => return Err(format!("{}: {got:?}, the model says {want:?}", KINDS[kind])),
        }
        if first.is_none() {
            first = got.err();
        }
    }
    let all = c.validate_all().err();
    if all != first {
        return Err(format!("validate_all: {all:?}, but the first failing one is {first:?}"));
    }
    Ok(())
}

fn compose(services: &[(&str, &Svc)]) -> Compose {
    Compose {
        services: services.iter().map(|(n, s)| (id(n), s.service.clone())).collect::<IndexMap<Identifier, Service>>(),
        ..Compose::default()
    }
}

fn describe(services: &[(&str, &Svc)], defs: &[&Defs; 4]) -> String {
    let s: Vec<String> = services.iter().map(|(n, s)| format!("{n}: {}", s.text)).collect();
    let d: Vec<String> = (0..4).map(|k| format!("{}s: {}", KINDS[k], defs[k].text())).collect();
    format!("services: {{{}}}, {}", s.join(", "), d.join(", "))
}

/// All ordered selections without repetition of up to `max` of `names`.
fn ordered<'a>(names: &[&'a str], max: usize) -> Vec<Vec<&'a str>> {
    let mut out: Vec<Vec<&str>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..max {
        let to = out.len();
        for k in from..to {
            for n in names {
                if !out[k].contains(n) {
                    let mut v = out[k].clone();
                    v.push(n);
                    out.push(v);
                }
            }
        }
        from = to;
    }
    out
}

fn networks(names: &[&str], max: usize) -> Vec<Svc> {
    let mut v = vec![svc("{}", 0, &[]), svc("{network_mode: host}", 0, &[]), svc("{network_mode: 'service:a'}", 0, &[]), svc("{network_mode: a}", 0, &[])];
    for sel in ordered(names, max) {
        v.push(svc(&format!("{{networks: [{}]}}", sel.join(", ")), 0, &sel));
        if sel.is_empty() {
            v.push(svc("{networks: {}}", 0, &[]));
            continue;
        }
        for value in ["", "{}", "{aliases: [zz]}", "{priority: 1, x-n: a}"] {
            let t: Vec<String> = sel.iter().map(|n| format!("{n}: {value}")).collect();
            v.push(svc(&format!("{{networks: {{{}}}}}", t.join(", ")), 0, &sel));
        }
        // one plain and one with settings
        if sel.len() == 2 {
            v.push(svc(&format!("{{networks: {{{}: , {}: {{aliases: [a]}}}}}}", sel[0], sel[1]), 0, &sel));
            v.push(svc(&format!("{{networks: {{{}: {{aliases: [a]}}, {}: }}}}", sel[0], sel[1]), 0, &sel));
        }
    }
    v
}

fn configs(kind: usize, names: &[&str], max: usize) -> Vec<Svc> {
    let key = ["", "", "configs", "secrets"][kind];
    let mut v = vec![svc("{}", kind, &[])];
    let mut seqs = ordered(names, max);
    seqs.push(vec![names[0], names[0]]);
    for sel in seqs {
        let forms = 3usize;
        for f in 0..forms.pow(sel.len() as u32) {
            let mut f = f;
            let items: Vec<String> = sel
                .iter()
                .map(|n| {
                    let k = f % forms;
                    f /= forms;
                    match k {
                        0 => (*n).to_owned(),
                        1 => format!("{{source: {n}}}"),
                        // other names in the long syntax are no uses
                        _ => format!("{{source: {n}, target: zz, uid: '1', x-a: {{source: zz}}}}"),
                    }
                })
                .collect();
            v.push(svc(&format!("{{{key}: [{}]}}", items.join(", ")), kind, &sel));
        }
    }
    v
}

/// One item of `volumes` and the volume it uses.
fn volume_items(names: &[&'static str]) -> Vec<(String, Option<&'static str>)> {
    let mut v: Vec<(String, Option<&str>)> = vec![
        ("/p".into(), None),
        ("./a:/p".into(), None),
        ("/a:/p".into(), None),
        ("../a:/p:ro".into(), None),
        (".:/p".into(), None),
        ("{type: volume, target: /p}".into(), None),
        ("{type: bind, source: ./a, target: /p}".into(), None),
        ("{type: tmpfs, target: /p}".into(), None),
        ("{type: cluster, source: a, target: /p}".into(), None),
        ("{type: npipe, source: ./a, target: /p}".into(), None),
    ];
    for n in names {
        for t in [
            format!("{n}:/p"),
            format!("{n}:/p:ro"),
            format!("{n}:/q:rw,z"),
            format!("{{type: volume, source: {n}, target: /p}}"),
            format!("{{type: volume, source: {n}, target: /p, read_only: true, volume: {{nocopy: true, subpath: zz}}}}"),
        ] {
            v.push((t, Some(n)));
        }
    }
    v
}

fn volumes(items: &[(String, Option<&'static str>)], max: usize) -> Vec<Svc> {
    let mut v = vec![svc("{}", 1, &[])];
    for (a, ua) in items {
        v.push(svc(&format!("{{volumes: [{}]}}", quote(a)), 1, &ua.iter().copied().collect::<Vec<_>>()));
        if max < 2 {
            continue;
        }
        for (b, ub) in items {
            if a == b {
                continue;
            }
            let uses: Vec<&str> = [ua, ub].into_iter().flatten().copied().collect();
            v.push(svc(&format!("{{volumes: [{}, {}]}}", quote(a), quote(b)), 1, &uses));
        }
    }
    v
}

fn quote(t: &str) -> String {
    if t.starts_with('{') {
        t.to_owned()
    } else {
        format!("'{t}'")
    }
}

/// All definitions of up to all the names, in several forms and orders.
fn definitions(kind: usize, names: &[&str], full: bool) -> Vec<Defs> {
    let forms: &[&str] = match kind {
        0 => &["", "{}", "{driver: a}", "{external: true}", "{external: true, name: zz}"],
        1 => &["", "{}", "{driver: a}", "{external: true}", "{external: true, name: zz}"],
        _ => &["{file: ./a}", "{external: true}", "{external: true, name: zz}"],
    };
    let mut v = vec![];
    for sel in ordered(names, names.len()) {
        if !full && !sel.is_sorted() {
            continue;
        }
        for f in 0..if sel.is_empty() { 1 } else { forms.len() } {
            if !full && f > 0 && f != 3.min(forms.len() - 1) {
                continue;
            }
            v.push(Defs(sel.iter().enumerate().map(|(k, n)| ((*n).to_owned(), forms[(f + k) % forms.len()])).collect()));
        }
    }
    v
}

/// Every tuple of services from `pool`, every set of definitions.
fn tuples(ctx: &Ctx, kind: usize, pool: &[Svc], defs: &[Defs], names: &[&str]) {
    let none = Defs::default();
    let n = names.len();
    let total = pool.len().pow(n as u32);
    ctx.part(&format!("tuples of {n} services using {}s", KINDS[kind]), total as u64);
    let first = pool.len();
    let rest = total / first;
    ctx.par(first, |a| {
        for r in 0..rest {
            let mut r = r;
            let mut pick = vec![&pool[a]];
            for _ in 1..n {
                pick.push(&pool[r % pool.len()]);
                r /= pool.len();
            }
            let services: Vec<(&str, &Svc)> = names.iter().copied().zip(pick).collect();
            let mut c = compose(&services);
            for d in defs {
                ctx.add_states(1);
                resources_into(kind, d, &mut c);
                let mut all = [&none; 4];
                all[kind] = d;
                ctx.case(|| describe(&services, &all), || check(&c, &services, &all));
            }
        }
    });
}

thread_local! {
    static CACHE: std::cell::RefCell<BTreeMap<(usize, String), Compose>> = const { std::cell::RefCell::new(BTreeMap::new()) };
}

/// As [`resources`], parsing each definition once.
fn resources_into(kind: usize, d: &Defs, c: &mut Compose) {
    CACHE.with_borrow_mut(|cache| {
        let e = cache.entry((kind, d.text())).or_insert_with(|| {
            let mut c = Compose::default();
            resources(kind, d, &mut c);
            c
        });
        match kind {
            0 => c.networks.clone_from(&e.networks),
            1 => c.volumes.clone_from(&e.volumes),
            2 => c.configs.clone_from(&e.configs),
            _ => c.secrets.clone_from(&e.secrets),
        }
    });
}

/// Whole documents: each kind uses and defines any of two names, in one or two services.
fn together(ctx: &Ctx) {
    let sets: [&[&str]; 4] = [&[], &["a"], &["b"], &["a", "b"]];
    let text = |uses: [usize; 4]| {
        let j = |k: usize| sets[uses[k]].join(", ");
        let vols: Vec<String> = sets[uses[1]].iter().map(|v| format!("'{v}:/{v}'")).collect();
        format!("{{networks: [{}], volumes: [{}], configs: [{}], secrets: [{}]}}", j(0), vols.join(", "), j(2), j(3))
    };
    let pool: Vec<Svc> = (0..256)
        .map(|n: usize| {
            let u = [n & 3, n >> 2 & 3, n >> 4 & 3, n >> 6 & 3];
            let t = text(u);
            let mut s = svc(&t, 0, &[]);
            for k in 0..4 {
                s.uses[k] = sets[u[k]].iter().map(|s| (*s).to_owned()).collect();
            }
            s
        })
        .collect();
    let defs: Vec<[Defs; 4]> = (0..256)
        .map(|n: usize| {
            let u = [n & 3, n >> 2 & 3, n >> 4 & 3, n >> 6 & 3];
            std::array::from_fn(|k| Defs(sets[u[k]].iter().map(|s| ((*s).to_owned(), if k < 2 { "" } else { "{file: ./a}" })).collect()))
        })
        .collect();
    let second: Vec<usize> = if ctx.thorough() { (0..256).collect() } else { vec![0, 0b01_01_01_01, 0b10_10_10_10, 0b11_11_11_11, 0b00_00_01_00, 0b00_00_10_01] };
    ctx.part("uses of all kinds", 256 * second.len() as u64);
    ctx.part("definitions of all kinds", 256);
    ctx.par(256, |a| {
        for d in &defs {
            let all: [&Defs; 4] = std::array::from_fn(|k| &d[k]);
            for b in &second {
                let services = [("s", &pool[a]), ("r", &pool[*b])];
                let mut c = compose(&services);
                for k in 0..4 {
                    resources_into(k, &d[k], &mut c);
                }
                ctx.add_states(1);
                ctx.case(|| describe(&services, &all), || check(&c, &services, &all));
            }
        }
    });
}

/// Names are compared exactly.
fn names(ctx: &Ctx) {
    let names = ["a", "A", "aa", "a.", "a-", "a_", "default", "0", "00", "'1'", "1", "s", "p_a", "s_a", "none", "host"];
    for kind in 0..4 {
        for used in names {
            for defined in names {
                let u = used.trim_matches('\'');
                let text = match kind {
                    0 => format!("{{networks: ['{u}']}}"),
                    1 => format!("{{volumes: ['{u}:/p']}}"),
                    2 => format!("{{configs: ['{u}']}}"),
                    _ => format!("{{secrets: ['{u}']}}"),
                };
                let doc = format!(
                    "{{name: p, services: {{s: {text}, t: {text}}}, {}s: {{'{}': {}}}}}",
                    KINDS[kind],
                    defined.trim_matches('\''),
                    if kind < 2 { "{name: '".to_owned() + u + "'}" } else { "{file: ./a}".to_owned() }
                );
                ctx.add_states(1);
                ctx.case(
                    || doc.clone(),
                    || {
                        let c: Compose = serde_yaml::from_str(&doc).map_err(|e| e.to_string())?;
                        let s = svc(&text, kind, &[u]);
                        let d = Defs(vec![(defined.trim_matches('\'').to_owned(), "")]);
                        let none = Defs::default();
                        let mut all = [&none; 4];
                        all[kind] = &d;
                        check(&c, &[("s", &s), ("t", &s)], &all)
                    },
                );
            }
        }
    }
    ctx.part("pairs of names", 4 * (names.len() * names.len()) as u64);
}

/// Many services which use many resources, of which one is not defined, at every place.
fn many(ctx: &Ctx) {
    let sizes: Vec<usize> = (1..=ctx.pick(24, 40)).chain([64, 65, 128, 129]).collect();
    // (services, uses of each): one use each, all uses in one, and both
    let shapes: Vec<(usize, usize)> = sizes.iter().flat_map(|n| [(*n, 1), (1, *n), (2, *n), ((*n).min(12), (*n).min(9))]).collect();
    ctx.par(shapes.len() * 4, |n| {
        let kind = n % 4;
        let (services, uses) = shapes[n / 4];
        // `shift` is 0: all use the same; 1: the next one begins with the second, and so on
        for shift in [0, 1, uses] {
            let name = |s: usize, u: usize| format!("r{}", s * shift + u);
            let pool: Vec<(String, Svc)> = (0..services)
                .map(|s| {
                    let names: Vec<String> = (0..uses).map(|u| name(s, u)).collect();
                    let items: Vec<String> = names.iter().map(|r| if kind == 1 { format!("'{r}:/{r}'") } else { r.clone() }).collect();
                    let refs: Vec<&str> = names.iter().map(String::as_str).collect();
                    (format!("s{s}"), svc(&format!("{{{}s: [{}]}}", KINDS[kind], items.join(", ")), kind, &refs))
                })
                .collect();
            let list: Vec<(&str, &Svc)> = pool.iter().map(|(n, s)| (n.as_str(), s)).collect();
            let mut c = compose(&list);
            let total = (services - 1) * shift + uses;
            for missing in 0..=total {
                let defined = (0..total).rev().filter(|k| *k != missing).map(|k| (format!("r{k}"), if kind < 2 { "" } else { "{file: ./a}" })).collect();
                let d = Defs(defined);
                let none = Defs::default();
                let mut all = [&none; 4];
                all[kind] = &d;
                resources_into(kind, &d, &mut c);
                ctx.add_states(1);
                ctx.case(
                    || format!("{services} services which use {uses} {}s each, beginning {shift} further on, all defined but r{missing}", KINDS[kind]),
                    || check(&c, &list, &all),
                );
            }
        }
    });
    ctx.part("shapes of many services", shapes.len() as u64 * 4);
}

pub fn run(ctx: &Ctx) {
    // networks
    let big = networks(&["a", "b", "c"], 3);
    let small = networks(&["a", "b"], 2);
    let d3 = definitions(0, &["a", "b", "c"], true);
    tuples(ctx, 0, &big, &d3, &["s"]);
    tuples(ctx, 0, if ctx.thorough() { &big } else { &small }, &definitions(0, &["a", "b", "c"], false), &["s", "r"]);
    tuples(ctx, 0, &small, &definitions(0, &["a", "b"], false), &["t", "s", "r"]);
    // configs and secrets
    for kind in [2, 3] {
        let big = configs(kind, &["a", "b", "c"], 3);
        let small = configs(kind, &["a", "b"], 2);
        tuples(ctx, kind, &big, &definitions(kind, &["a", "b", "c"], true), &["s"]);
        tuples(ctx, kind, if ctx.thorough() { &big } else { &small }, &definitions(kind, &["a", "b", "c"], false), &["s", "r"]);
        tuples(ctx, kind, &small, &definitions(kind, &["a", "b"], false), &["t", "s", "r"]);
    }
    // volumes
    let items = volume_items(&["a", "b"]);
    let two = volumes(&items, 2);
    let one = volumes(&items, 1);
    tuples(ctx, 1, &two, &definitions(1, &["a", "b"], true), &["s"]);
    tuples(ctx, 1, &two, &definitions(1, &["a", "b"], false), &["s", "r"]);
    tuples(ctx, 1, &one, &definitions(1, &["a", "b"], true), &["t", "s", "r"]);
    if ctx.thorough() {
        let few = volumes(&items[9..], 2);
        tuples(ctx, 1, &few, &definitions(1, &["a", "b"], false), &["t", "s", "r"]);
        tuples(ctx, 1, &one, &definitions(1, &["a", "b"], false), &["t", "s", "r", "q"]);
    }
    // no services
    tuples(ctx, 0, &small[..1], &d3, &["s"]);
    together(ctx);
    names(ctx);
    many(ctx);
}
