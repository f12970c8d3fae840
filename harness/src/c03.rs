//! C03: the order of a document is kept, sets keep first occurrences, and output is deterministic.
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

use compose_spec::service::build::{Cache, CacheOption};

use crate::{
    doc::{each, orders, picks, Bounds, Doc, Pick, Table, Visit},
    engine::Ctx,
    schema::Schema,
    y::{s as st, Y},
};

pub const ASSUME: &[&str] = &[
    "the order in which the fields of a struct are written is not judged, that of their contents is",
    "the order of the words of a healthcheck test is not permuted: its first word is its kind",
];

struct Order;

fn write<T: Doc>(doc: &Y) -> Result<serde_yaml::Value, String> {
    let v: T = serde_yaml::from_str(&doc.flow()).map_err(|e| format!("rejected: {e}"))?;
    let out = serde_yaml::to_value(&v).map_err(|e| format!("cannot write: {e}"))?;
    // the same from a value, and again: byte for byte
    let w: T = serde_yaml::from_value(doc.value()).map_err(|e| format!("rejected as a value: {e}"))?;
    let a = serde_yaml::to_string(&v).map_err(|e| format!("cannot write: {e}"))?;
    let b = serde_yaml::to_string(&w).map_err(|e| format!("cannot write: {e}"))?;
    if a != b {
        return Err(format!("wrote {a:?} and then {b:?}"));
    }
    if serde_yaml::to_string(&v).ok().as_ref() != Some(&a) || serde_yaml::to_string(&v.clone()).ok().as_ref() != Some(&a) {
        return Err(format!("wrote {a:?}, but not again"));
    }
    Ok(out)
}

/// Permuting the list changes what it says.
fn fixed(doc: &Y, path: &[usize]) -> bool {
    doc.path_text(path).ends_with(".test") || doc.path_text(path) == ".test"
}

fn permute(doc: &Y, path: &[usize], perm: &[usize]) -> Y {
    let mut d = doc.clone();
    match d.at_mut(path) {
        Y::L(v) => *v = perm.iter().map(|n| v[*n].clone()).collect(),
        Y::M(v) | Y::O(v) => *v = perm.iter().map(|n| v[*n].clone()).collect(),
        _ => {}
    }
    d
}

fn len(y: &Y) -> usize {
    match y {
        Y::L(v) => v.len(),
        Y::M(v) | Y::O(v) => v.len(),
        _ => 0,
    }
}

fn everywhere(doc: &Y, f: impl Fn(usize) -> Vec<usize>) -> Y {
    let mut d = doc.clone();
    let mut paths: Vec<Vec<usize>> = doc.paths();
    // the deepest first, so that paths stay right
    paths.sort_by_key(|p| std::cmp::Reverse(p.len()));
    for p in paths {
        let n = len(d.at(&p));
        if n > 1 && !fixed(doc, &p) {
            d = permute(&d, &p, &f(n));
        }
    }
    d
}

impl Visit for Order {
    fn visit<T: Doc>(&self, ctx: &Ctx, s: &Schema<T>) {
        let big = matches!(s.name, "Service" | "Build" | "Deploy");
        let all = picks(
            s,
            &Bounds {
                pair_reps: if big { ctx.pick(1, 4) } else { ctx.pick(12, 60) },
                maximal: !big || ctx.thorough(),
                subsets: ctx.pick(6, 9),
                forms: false,
            },
        );
        ctx.part(&format!("documents of {}", s.name), all.len() as u64);
        let sets = AtomicU64::new(0);
        let lists = AtomicU64::new(0);
        let check = |d: &Y, want: &Y| {
            ctx.add_states(1);
            ctx.case(|| format!("{} {}", s.name, d.flow()), || want.matches(&write::<T>(d)?));
        };
        ctx.par(all.len(), |k| {
            let p = &all[k];
            let doc = p.out(s);
            if serde_yaml::from_str::<T>(&doc.flow()).is_err() {
                return; // C01 judges that
            }
            check(&doc, &doc);
            let rev = everywhere(&doc, |n| (0..n).rev().collect());
            check(&rev, &rev);
            for by in 1..3 {
                let rot = everywhere(&doc, |n| (0..n).map(|k| (k + by) % n).collect());
                check(&rot, &rot);
            }
            let large = p.0.len() > 3;
            for path in doc.paths() {
                let node = doc.at(&path);
                let n = len(node);
                if n < 2 || fixed(&doc, &path) {
                    continue;
                }
                if large && !path.is_empty() {
                    continue;
                }
                let perms = orders(n, if large { 3 } else { ctx.pick(4, 6) });
                let most = if large { if n > 20 { ctx.pick(4, n + 1) } else { n + 1 } } else { perms.len() };
                for perm in &perms[1..most.min(perms.len())] {
                    let d = permute(&doc, &path, perm);
                    check(&d, &d);
                }
            }
        });
        // doubled entries of lists, and large lists and mappings
        let t = Table::new(&s.items);
        let n = s.items.len();
        let mut docs: Vec<Y> = (0..n).map(|k| Pick(vec![(k, 0)]).out(s)).collect();
        docs.push(Pick(t.complete(&[], 0..n).into_iter().map(|x| (x, 0)).collect()).out(s));
        let docs: Vec<Y> = docs.into_iter().filter(|d| serde_yaml::from_str::<T>(&d.flow()).is_ok()).collect();
        let count = ctx.pick(17, 40);
        ctx.par(docs.len(), |k| {
            let doc = &docs[k];
            if k + 1 == docs.len() && doc.paths().len() > 400 && !ctx.thorough() {
                return;
            }
            for path in doc.paths() {
                if fixed(doc, &path) {
                    continue;
                }
                match doc.at(&path) {
                    Y::L(v) if !v.is_empty() => {
                        let mut is_set: Option<bool> = None;
                        for a in 0..v.len() {
                            for b in a + 1..=v.len() {
                                let mut d = doc.clone();
                                let mut w = v.clone();
                                w.insert(b, v[a].clone());
                                *d.at_mut(&path) = Y::L(w);
                                ctx.add_states(1);
                                ctx.case(
                                    || format!("{} doubled {}", s.name, d.flow()),
                                    || {
                                        let Ok(x) = serde_yaml::from_str::<T>(&d.flow()) else { return Ok(()) };
                                        let out = serde_yaml::to_value(&x).map_err(|e| e.to_string())?;
                                        let kept = d.matches(&out);
                                        let set = doc.matches(&out);
                                        match (kept, set, is_set) {
                                            (Ok(()), _, None | Some(false)) => is_set = Some(false),
                                            (_, Ok(()), None | Some(true)) => is_set = Some(true),
                                            (Ok(()), _, _) | (_, Ok(()), _) => {
                                                return Err("sometimes kept and sometimes not".into());
                                            }
                                            (Err(a), Err(b), _) => {
                                                return Err(format!("neither as a list ({a}) nor as a set ({b})"));
                                            }
                                        }
                                        Ok(())
                                    },
                                );
                            }
                        }
                        match is_set {
                            Some(true) => sets.fetch_add(1, Relaxed),
                            Some(false) => lists.fetch_add(1, Relaxed),
                            None => 0,
                        };
                        // many entries, in an order which is not sorted
                        let first = v[0].clone();
                        let scheme: [&dyn Fn(usize) -> Y; 6] = [
                            &|n| st(format!("n{n}")),
                            &|n| st(format!("/n{n}")),
                            &|n| st(format!("N{n}=1")),
                            &|n| Y::I(n as i128 + 1),
                            &|n| match &first {
                                Y::S(t) => {
                                    let mut t = t.clone();
                                    t.pop();
                                    st(format!("{t}{n}"))
                                }
                                y => y.clone(),
                            },
                            &|n| {
                                // the first text or number of a mapping
                                let mut y = first.clone();
                                let paths = y.paths();
                                for p in paths {
                                    match y.at_mut(&p) {
                                        Y::S(t) => {
                                            t.push_str(&n.to_string());
                                            break;
                                        }
                                        Y::I(k) => {
                                            *k += n as i128;
                                            break;
                                        }
                                        _ => {}
                                    }
                                }
                                y
                            },
                        ];
                        for f in scheme {
                            let w: Vec<Y> = (0..count).map(|k| f((k * 7 + 3) % count)).collect();
                            if w[0] == w[1] {
                                continue;
                            }
                            let mut d = doc.clone();
                            *d.at_mut(&path) = Y::L(w);
                            let Ok(x) = serde_yaml::from_str::<T>(&d.flow()) else { continue };
                            ctx.add_states(1);
                            ctx.case(
                                || format!("{} many {}", s.name, d.flow()),
                                || {
                                    let out = serde_yaml::to_value(&x).map_err(|e| e.to_string())?;
                                    // only the order is judged here: such an entry may be normalised
                                    let Some(w) = at(&out, doc, &path) else { return Ok(()) };
                                    let Y::L(want) = d.at(&path) else { unreachable!() };
                                    let got: Option<Vec<usize>> = w
                                        .as_sequence()
                                        .filter(|g| g.len() == want.len())
                                        .map(|g| g.iter().map(|g| want.iter().position(|y| y.matches(g).is_ok()).unwrap_or(usize::MAX)).collect());
                                    match got {
                                        Some(g) if g.iter().all(|n| *n != usize::MAX) && !g.is_sorted() => {
                                            Err(format!("written in another order: {w:?}"))
                                        }
                                        _ => Ok(()),
                                    }
                                },
                            );
                        }
                    }
                    Y::O(v) if !v.is_empty() => {
                        for prefix in ["k", "x-", "K_", "/"] {
                            let w: Vec<(String, Y)> = (0..count)
                                .map(|k| {
                                    let n = (k * 7 + 3) % count;
                                    (format!("{prefix}{n}"), v[n % v.len()].1.clone())
                                })
                                .collect();
                            let mut d = doc.clone();
                            *d.at_mut(&path) = Y::O(w);
                            if serde_yaml::from_str::<T>(&d.flow()).is_ok() {
                                check(&d, &d);
                            }
                        }
                    }
                    Y::M(v) if s.extensible && path.is_empty() => {
                        let mut w = v.clone();
                        for k in 0..count {
                            w.push((format!("x-{}", (k * 7 + 3) % count), Y::I(k as i128)));
                        }
                        w.rotate_left(count / 2);
                        let d = Y::M(w);
                        if serde_yaml::from_str::<T>(&d.flow()).is_ok() {
                            check(&d, &d);
                        }
                    }
                    _ => {}
                }
            }
        });
        ctx.outcome("lists which keep repetitions", lists.into_inner());
        ctx.outcome("lists which are sets", sets.into_inner());
    }
}

/// The written value at a path of the document.
fn at<'a>(v: &'a serde_yaml::Value, doc: &Y, path: &[usize]) -> Option<&'a serde_yaml::Value> {
    let Some((n, rest)) = path.split_first() else { return Some(v) };
    match doc {
        Y::L(d) => at(v.as_sequence()?.get(*n)?, &d[*n], rest),
        Y::M(d) | Y::O(d) => at(v.get(d[*n].0.as_str())?, &d[*n].1, rest),
        _ => None,
    }
}

/// The options of a cache keep the order in which they are written, wherever its ref is.
fn caches(ctx: &Ctx) {
    let opts = ["mode=max", "a=1", "zz=0", "ref=q/w", "compression=zstd", "B=x", "scope=s"];
    let k = opts.len();
    let depth = ctx.pick(5, 7);
    let mut total = 0;
    for len in 1..=depth {
        let all: Vec<Vec<usize>> = arrangements(k, len);
        total += all.len();
        ctx.par(all.len(), |n| {
            for kind in ["registry", "gha"] {
                let own: Vec<&str> = all[n].iter().map(|i| opts[*i]).collect();
                if kind == "registry" && !own.contains(&"ref=q/w") {
                    continue;
                }
                let text = format!("type={kind},{}", own.join(","));
                ctx.add_states(1);
                ctx.case(|| format!("cache {text}"), || cache(kind, &own, &text));
            }
        });
    }
    ctx.part("caches", total as u64);
}

fn cache(kind: &str, own: &[&str], text: &str) -> Result<(), String> {
    let registry = kind == "registry";
    let pair = |o: &str| {
        let (k, v) = o.split_once('=').unwrap();
        (k.to_owned(), v.to_owned())
    };
    let want: Vec<(String, String)> =
        own.iter().map(|o| pair(o)).filter(|(k, _)| !registry || k != "ref").collect();
    let mut all = want.clone();
    if registry {
        all.insert(0, pair("ref=q/w"));
    }
    all.insert(0, pair(&format!("type={kind}")));
    let list = |o: &indexmap::IndexMap<CacheOption, CacheOption>| -> Vec<(String, String)> {
        o.iter().map(|(k, v)| (k.as_str().to_owned(), v.as_str().to_owned())).collect()
    };
    let same = |what: &str, a: &[(String, String)], b: &[(String, String)]| {
        if a == b { Ok(()) } else { Err(format!("{what}: {a:?}, written {b:?}")) }
    };
    let e = |e: &dyn std::fmt::Display| format!("rejected: {e}");
    let c: Cache = text.parse().map_err(|x| e(&x))?;
    same("options", &list(&c.options), &want)?;
    same("into_options", &list(&c.clone().into_options()), &all)?;
    let d: Cache = serde_yaml::from_value(text.into()).map_err(|x| e(&x))?;
    same("options of a value", &list(&d.options), &want)?;
    let out = c.to_string();
    let again: Vec<(String, String)> = if out.starts_with("type=") {
        out.split(',').map(|o| o.split_once('=').map_or((o.to_owned(), String::new()), |_| pair(o))).collect()
    } else {
        vec![pair("type=registry"), ("ref".into(), out.clone())]
    };
    same("printed", &again, &all)?;
    let wrote = serde_yaml::to_value(&c).map_err(|x| e(&x))?;
    if wrote.as_str() == Some(&out) { Ok(()) } else { Err(format!("written as {wrote:?}, printed as {out}")) }
}

/// All ordered selections of `len` out of `k`.
fn arrangements(k: usize, len: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..len {
        out = out
            .iter()
            .flat_map(|p| (0..k).filter(|n| !p.contains(n)).map(|n| [p.as_slice(), &[n]].concat()).collect::<Vec<_>>())
            .collect();
    }
    out
}

pub fn run(ctx: &Ctx) {
    each(ctx, &Order);
    caches(ctx);
    crate::long::run(ctx);
}
