//! Long collections: every list and mapping of a document, with more entries than any example has.
//! Part of C03 (order, nothing lost) and of C10 (many services, one of them wrong).
use compose_spec::Compose;
use serde_yaml::Value;

use crate::engine::Ctx;

/// (where, how entry `i` is written). A mapping has entries `key: value`, a list `- item`.
const TABLE: &[(&str, &str)] = &[
    ("include", "- d#.yaml"),
    ("services", "s#: {}"),
    ("networks", "n#: {}"),
    ("volumes", "v#: {}"),
    ("configs", "c#: {file: f}"),
    ("secrets", "c#: {file: f}"),
    ("", "x-#: 1"),
    ("networks.a", "x-#: 1"),
    ("networks.a.driver_opts", "k#: v"),
    ("networks.a.labels", "k#: v"),
    ("networks.a.labels", "- k#=v"),
    ("networks.a.ipam", "x-#: 1"),
    ("networks.a.ipam.options", "k#: v"),
    ("networks.a.ipam.config", "- gateway: 10.0.@"),
    ("networks.a.ipam.config.-.aux_addresses", "h#: 10.0.@"),
    ("volumes.a", "x-#: 1"),
    ("volumes.a.driver_opts", "k#: v"),
    ("volumes.a.labels", "k#: v"),
    ("configs.a{file: f}", "x-#: 1"),
    ("configs.a{file: f}.labels", "k#: v"),
    ("secrets.a{file: f}", "x-#: 1"),
    ("secrets.a{file: f}.labels", "k#: v"),
    ("S", "x-#: 1"),
    ("S.annotations", "k#: v"),
    ("S.annotations", "- k#=v"),
    ("S.blkio_config.device_read_bps", "- {path: /d#, rate: 1b}"),
    ("S.blkio_config.device_write_iops", "- {path: /d#, rate: 1}"),
    ("S.blkio_config.weight_device", "- {path: /d#, weight: 10}"),
    ("S.build.additional_contexts", "k#: /v#"),
    ("S.build.args", "k#: v"),
    ("S.build.args", "- k#=v"),
    ("S.build.cache_from", "- a/b:t#"),
    ("S.build.cache_to", "- a/b:t#"),
    ("S.build.extra_hosts", "h#: 10.0.@"),
    ("S.build.labels", "k#: v"),
    ("S.build.secrets", "- s#"),
    ("S.build.ssh", "- k#=/p"),
    ("S.build.tags", "- a:t#"),
    ("S.build", "x-#: 1"),
    ("S.cap_add", "- C#"),
    ("S.cap_drop", "- C#"),
    ("S.command", "- C#"),
    ("S.configs", "- c#"),
    ("S.configs", "- {source: c#, target: /t}"),
    ("S.depends_on", "- d#"),
    ("S.depends_on", "d#: {condition: service_healthy}"),
    ("S.deploy", "x-#: 1"),
    ("S.deploy.labels", "k#: v"),
    ("S.deploy.placement.constraints", "- a#"),
    ("S.deploy.placement.preferences", "- spread: a#"),
    ("S.deploy.resources.reservations.devices", "- capabilities: [c#]"),
    ("S.deploy.resources.reservations.devices.-{count: 1}.capabilities", "- c#"),
    ("S.deploy.resources.reservations.devices.-{capabilities: [a]}.device_ids", "- i#"),
    ("S.deploy.resources.reservations.devices.-{capabilities: [a]}.options", "k#: v"),
    ("S.deploy.resources.reservations.generic_resources", "- discrete_resource_spec: {kind: k#, value: 1}"),
    ("S.develop.watch", "- {action: sync, path: p#, target: /t}"),
    ("S.develop.watch.-{action: rebuild, path: p}.ignore", "- i#"),
    ("S.develop.watch.-{action: rebuild, path: p}", "x-#: 1"),
    ("S.device_cgroup_rules", "- c #:1 r"),
    ("S.devices", "- /a#:/b"),
    ("S.dns", "- 10.0.@"),
    ("S.dns_opt", "- a#"),
    ("S.dns_search", "- a#.b"),
    ("S.entrypoint", "- a#"),
    ("S.env_file", "- a#"),
    ("S.env_file", "- {path: a#, required: false}"),
    ("S.environment", "k#: v"),
    ("S.environment", "- k#=v"),
    ("S.expose", "- '#'"),
    ("S.external_links", "- a#"),
    ("S.extra_hosts", "h#: 10.0.@"),
    ("S.group_add", "- a#"),
    ("S.healthcheck.test", "- CMD\n- a#"),
    ("S.healthcheck{test: a}", "x-#: 1"),
    ("S.labels", "k#: v"),
    ("S.labels", "- k#=v"),
    ("S.links", "- a#"),
    ("S.logging", "x-#: 1"),
    ("S.logging.options", "k#: v"),
    ("S.networks", "- n#"),
    ("S.networks", "n#: {priority: 1}"),
    ("S.networks.n{priority: 1}.aliases", "- n#.b"),
    ("S.networks.n{priority: 1}.link_local_ips", "- 10.0.@"),
    ("S.ports", "- 127.0.0.1:#:80/tcp"),
    ("S.ports", "- {target: #, name: n}"),
    ("S.profiles", "- a#"),
    ("S.secrets", "- c#"),
    ("S.security_opt", "- a#"),
    ("S.storage_opt", "k#: v"),
    ("S.sysctls", "k#: v"),
    ("S.sysctls", "- k#=v"),
    ("S.tmpfs", "- /a#"),
    ("S.volumes", "- v#:/c#"),
    ("S.volumes", "- {type: tmpfs, target: /c#, read_only: true}"),
    ("S.volumes_from", "- a#"),
    ("S.volumes_from", "- container:a#:ro"),
];

fn entry(pattern: &str, n: usize) -> String {
    pattern.replace('#', &(n + 1).to_string()).replace('@', &format!("{}.{}", n / 250 + 1, n % 250 + 1))
}

/// Is the entry put into a list?
fn is_list(pattern: &str) -> bool {
    pattern.starts_with('-')
}

fn collection(pattern: &str, order: &[usize]) -> Result<Value, String> {
    let (head, pattern) = match pattern.split_once('\n') {
        Some((h, p)) => (format!("{h}\n"), p),
        None => (String::new(), pattern),
    };
    if order.is_empty() && head.is_empty() {
        return Ok(if is_list(pattern) { Value::Sequence(vec![]) } else { Value::Mapping(Default::default()) });
    }
    let mut text = head;
    for n in order {
        text += &entry(pattern, *n);
        text.push('\n');
    }
    serde_yaml::from_str(&text).map_err(|e| format!("harness: {e} in {text}"))
}

/// The steps of a path: a key (or `-`) with the other entries of the mapping that holds what follows.
fn steps(path: &str) -> Vec<(String, Value)> {
    let path = match path.strip_prefix('S') {
        Some(rest) => format!("services.s{rest}"),
        None => path.into(),
    };
    let mut out = Vec::new();
    let mut rest = path.as_str();
    while !rest.is_empty() {
        let end = rest.find(['.', '{']).unwrap_or(rest.len());
        let key = rest[..end].to_owned();
        rest = &rest[end..];
        let mut with = Value::Mapping(Default::default());
        if rest.starts_with('{') {
            let close = rest.find('}').unwrap() + 1;
            with = serde_yaml::from_str(&rest[..close]).unwrap();
            rest = &rest[close..];
        }
        rest = rest.strip_prefix('.').unwrap_or(rest);
        out.push((key, with));
    }
    out
}

fn put(path: &[(String, Value)], inside: Value) -> Value {
    let Some(((key, with), rest)) = path.split_first() else {
        return inside;
    };
    let below = put(rest, inside);
    // the other entries stand beside what comes next
    let below = match (with, below) {
        (Value::Mapping(w), Value::Mapping(b)) => Value::Mapping(w.clone().into_iter().chain(b).collect()),
        (_, b) => b,
    };
    if key == "-" {
        Value::Sequence(vec![below])
    } else {
        Value::Mapping([(Value::String(key.clone()), below)].into_iter().collect())
    }
}

/// What the document has at the path, with the keys of the collection in order.
fn at<'a>(v: &'a Value, path: &[(String, Value)]) -> Option<&'a Value> {
    let mut v = v;
    for (key, _) in path {
        v = if key == "-" { v.as_sequence()?.first()? } else { v.get(key.as_str())? };
    }
    Some(v)
}

fn text(v: &Value) -> String {
    match v {
        Value::String(s) => s.clone(),
        Value::Number(n) => n.to_string(),
        // the order of the fields of an entry is not judged
        Value::Mapping(m) => {
            let mut v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", text(k), text(v))).collect();
            v.sort_unstable();
            format!("{{{}}}", v.join(", "))
        }
        v => serde_yaml::to_string(v).unwrap_or_default(),
    }
}

/// The entries, each as text, of those which belong to the collection.
fn entries(v: &Value, list: bool, skip: &Value) -> Option<Vec<String>> {
    Some(match v {
        Value::Sequence(l) if list => l.iter().map(text).collect(),
        Value::Mapping(m) if !list => m
            .iter()
            .filter(|(k, _)| k.as_str().is_some_and(|k| skip.get(k).is_none()))
            .map(|(k, v)| format!("{}: {}", text(k), text(v)))
            .collect(),
        _ => return None,
    })
}

fn check(path: &str, pattern: &str, order: &[usize]) -> Result<(), String> {
    let steps = steps(path);
    let body = collection(pattern, order)?;
    let list = is_list(pattern);
    let nothing = Value::Null;
    let skip = steps.last().map_or(&nothing, |s| &s.1);
    let mut want = entries(&body, list, &nothing).ok_or("harness: the collection is no collection")?;
    let mut doc = put(&steps, body);
    if let Value::Mapping(m) = &mut doc {
        if m.get("services").is_none() {
            m.insert("services".into(), Value::Mapping(Default::default()));
        }
    }
    let source = serde_yaml::to_string(&doc).map_err(|e| format!("harness: {e}"))?;
    let c: Compose = serde_yaml::from_str(&source).map_err(|e| format!("rejected: {e}"))?;
    let out = serde_yaml::to_string(&c).map_err(|e| format!("cannot be written: {e}"))?;
    let back: Value = serde_yaml::from_str(&out).map_err(|e| format!("wrote no YAML: {e}"))?;
    let top;
    let found = match at(&back, &steps) {
        Some(Value::Mapping(m)) if path.is_empty() => {
            top = Value::Mapping(m.iter().filter(|(k, _)| k.as_str() != Some("services")).map(|(k, v)| (k.clone(), v.clone())).collect());
            Some(&top)
        }
        f => f,
    };
    let got = match found {
        None | Some(Value::Null) => vec![],
        // one entry may be written without its list
        Some(v) => match entries(v, list, skip) {
            Some(e) => e,
            None if want.len() == 1 => return Ok(()),
            None => return Err(format!("is not written as it was: {}", text(v).chars().take(200).collect::<String>())),
        },
    };
    if got != want {
        // an entry which is there twice may be there once
        let mut seen = std::collections::HashSet::new();
        want.retain(|e| seen.insert(e.clone()));
        if got != want {
            let n = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
            return Err(format!("{} of {} entries come out, and entry {n} is {:?} instead of {:?}", got.len(), want.len(), got.get(n), want.get(n)));
        }
    }
    let again: Compose = serde_yaml::from_str(&out).map_err(|e| format!("does not read what it wrote: {e}"))?;
    if again != c || serde_yaml::to_string(&again).ok().as_ref() != Some(&out) {
        return Err("reading back what it wrote gives something else".into());
    }
    Ok(())
}

/// Lengths around those at which something may change.
pub fn lengths(ctx: &Ctx) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=ctx.pick(70, 140)).collect();
    v.extend([99, 100, 101, 127, 128, 129, 130, 199, 200, 255, 256, 257, 258, 511, 512, 513, 999, 1000, 1023, 1024, 1025]);
    if ctx.thorough() {
        v.extend([2047, 2048, 2049, 4095, 4096, 4097, 9999, 10_000, 16_384, 16_385]);
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// The orders of `n` entries: as named, reversed, from the middle, and with the first once more at the end.
fn arrangements(n: usize) -> Vec<(&'static str, Vec<usize>)> {
    let up: Vec<usize> = (0..n).collect();
    let mut turned = up.clone();
    turned.rotate_left(n / 2);
    let mut inner: Vec<usize> = (0..n).step_by(2).chain((0..n).skip(1).step_by(2)).collect();
    inner.reverse();
    vec![("upwards", up.clone()), ("downwards", up.iter().rev().copied().collect()), ("turned", turned), ("interleaved", inner)]
}

pub fn run(ctx: &Ctx) {
    let table = TABLE;
    let lengths = lengths(ctx);
    ctx.par(table.len() * lengths.len(), |n| {
        let (path, pattern) = table[n / lengths.len()];
        let len = lengths[n % lengths.len()];
        // ports end
        if len > 60_000 {
            return;
        }
        let mut all = arrangements(len);
        if is_list(pattern) && len > 1 {
            for (name, at) in [("the first again", 0), ("the middle again", len / 2)] {
                let mut v: Vec<usize> = (0..len).collect();
                v.push(at);
                all.push((name, v));
            }
        }
        for (name, order) in all {
            ctx.add_states(1);
            let twice = order.len() > len;
            ctx.case(
                || format!("{path} with {len} times {pattern:?} {name}"),
                || match check(path, pattern, &order) {
                    // a list may refuse repeated entries
                    Err(e) if twice && e.starts_with("rejected") => Ok(()),
                    r => r,
                },
            );
        }
    });
    ctx.part("long collections", table.len() as u64);
}
