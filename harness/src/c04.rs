//! C04: every key of every mapping is recognised, kept as an extension, or makes the document be
//! rejected.
use std::{collections::{BTreeMap, BTreeSet}, sync::Mutex};

use crate::{
    doc::{each, hosts, junk, Doc, Pick, Table, Visit},
    engine::Ctx,
    schema::Schema,
    y::{i, l, m, o, s as st, Y},
};

pub const ASSUME: &[&str] = &[
    "the attributes of each mapping are those of the schema table in harness/src/schema.rs",
    "keys written twice in one mapping are not judged",
];

fn known<T>(s: &Schema<T>) -> BTreeSet<String> {
    let mut v: BTreeSet<String> = s.base_doc.entries().iter().map(|(k, _)| k.clone()).collect();
    for x in &s.items {
        for f in &x.forms {
            v.extend(f.entries().iter().map(|(k, _)| k.clone()));
        }
    }
    for r in &s.rejects {
        v.extend(r.doc.entries().iter().map(|(k, _)| k.clone()));
    }
    v.extend(s.required.iter().map(|k| (*k).to_owned()));
    v.retain(|k| !k.starts_with("x-"));
    v
}

/// Keys almost like `k`.
fn near(k: &str) -> Vec<String> {
    let mut v = vec![
        k.to_uppercase(),
        k.replace('_', "-"),
        k.replace('-', "_"),
        k.replace(['_', '-'], ""),
        format!("{k}s"),
        format!("{k}_"),
        format!(" {k}"),
        format!("{k} "),
        format!("x{k}"),
        format!("X-{k}"),
        format!("x_{k}"),
        format!("_{k}"),
        format!("r#{k}"),
        format!("{k}\n"),
        format!("{k}\u{0}"),
        format!("{k}.{k}"),
    ];
    // camel case
    let mut camel = String::new();
    let mut up = false;
    for c in k.chars() {
        if c == '_' || c == '-' {
            up = true;
        } else if up {
            camel.extend(c.to_uppercase());
            up = false;
        } else {
            camel.push(c);
        }
    }
    v.push(camel.clone());
    let mut pascal = camel.clone();
    if let Some(c) = pascal.get(..1) {
        let c = c.to_uppercase();
        pascal.replace_range(..1, &c);
    }
    v.push(pascal);
    let c: Vec<char> = k.chars().collect();
    for n in 0..c.len() {
        let mut w = c.clone();
        w.remove(n);
        v.push(w.iter().collect());
        let mut w = c.clone();
        w.insert(n, c[n]);
        v.push(w.iter().collect());
        if n > 0 {
            let mut w = c.clone();
            w.swap(n, n - 1);
            v.push(w.iter().collect());
        }
    }
    v
}

const FIXED: &[&str] = &[
    "", "x", "X-a", "X-", "xa", "x_a", "x", "-", "-x-a", " x-a", "\u{feff}x-a", "х-a", "x‐a", "unknown", "<<", "null", "~", "1",
    "extensions", "extension", "x", "x:a", "x.a", "x a", "*", "type", "name", "external",
];

/// Words which look like field or variant names in a debug representation.
fn debug_words(text: &str, out: &mut BTreeSet<String>) {
    let mut quoted = false;
    let mut w = String::new();
    for c in text.chars() {
        if c == '"' {
            quoted = !quoted;
        }
        if !quoted && (c.is_ascii_alphanumeric() || c == '_' || c == '#') {
            w.push(c);
        } else if !w.is_empty() {
            if w.starts_with(|c: char| c.is_ascii_alphabetic()) {
                out.insert(w.trim_start_matches("r#").to_owned());
            }
            w.clear();
        }
    }
}

/// The type, without the variant: `Config` for `Config (file)`.
fn family(name: &str) -> String {
    name.split(" (").next().unwrap_or(name).to_owned()
}

struct Collect<'a>(&'a Mutex<BTreeSet<String>>, &'a Mutex<BTreeMap<String, BTreeSet<String>>>);
impl Visit for Collect<'_> {
    fn visit<T: Doc>(&self, _: &Ctx, s: &Schema<T>) {
        let t = Table::new(&s.items);
        let n = s.items.len();
        let mut all = self.0.lock().unwrap();
        all.extend(known(s));
        self.1.lock().unwrap().entry(family(s.name)).or_default().extend(known(s));
        for v in [t.complete(&[], 0..n), t.complete(&[], (0..n).rev())] {
            let p = Pick(v.into_iter().map(|x| (x, 0)).collect());
            debug_words(&format!("{:?}", p.value(s)), &mut all);
        }
    }
}

struct Keys<'a> {
    words: &'a BTreeSet<String>,
    families: &'a BTreeMap<String, BTreeSet<String>>,
}

fn with_key(doc: &Y, pos: usize, key: &str, val: &Y) -> Y {
    let mut d = doc.clone();
    if let Y::M(v) | Y::O(v) = &mut d {
        v.insert(pos.min(v.len()), (key.to_owned(), val.clone()));
    }
    d
}

impl Visit for Keys<'_> {
    fn visit<T: Doc>(&self, ctx: &Ctx, s: &Schema<T>) {
        let known = known(s);
        let mut keys: BTreeSet<String> = self.words.clone();
        keys.extend(FIXED.iter().map(|k| (*k).to_owned()));
        for k in &known {
            keys.extend(near(k));
        }
        keys.retain(|k| !known.contains(k));
        let t = Table::new(&s.items);
        let n = s.items.len();
        let mut hosts_: Vec<Pick> = vec![Pick(vec![])];
        for v in [t.complete(&[], 0..n), t.complete(&[], (0..n).rev())] {
            hosts_.push(Pick(v.into_iter().map(|x| (x, 0)).collect()));
        }
        let singles: Vec<Pick> = t.reps(ctx.pick(1, 3)).into_iter().map(|x| Pick(vec![(x, 0)])).collect();
        let vals = [Y::Null, Y::B(true), i(1), st("a"), l([]), m::<&str>([]), o([("a", st("b"))])];
        // keys which mean nothing here
        let bad: Vec<&String> = keys.iter().filter(|k| !k.starts_with("x-") || !s.extensible).collect();
        let mut bad: Vec<String> = bad.into_iter().cloned().collect();
        if !s.extensible {
            bad.extend(["x-a", "x-"].map(str::to_owned));
        }
        ctx.part(&format!("foreign keys of {}", s.name), bad.len() as u64);
        ctx.par(bad.len(), |k| {
            let key = &bad[k];
            let general = FIXED.contains(&key.as_str()) || key.starts_with("x-");
            let mut all: Vec<(Y, usize)> = vec![];
            for (h, p) in hosts_.iter().enumerate() {
                let d = p.doc(s);
                let len = d.entries().len();
                all.push((d.clone(), len));
                if h == 0 {
                    all.push((d, 0));
                } else if general {
                    for pos in 0..len {
                        all.push((d.clone(), pos));
                    }
                }
            }
            if general || ctx.thorough() {
                for p in &singles {
                    let d = p.doc(s);
                    all.push((d.clone(), 0));
                    all.push((d.clone(), d.entries().len()));
                }
            }
            for (d, pos) in all {
                if d.get(key).is_some() {
                    continue;
                }
                for val in &vals {
                    // null is as good as absent where another variant has the key
                    if *val == Y::Null && self.families[&family(s.name)].contains(key) {
                        continue;
                    }
                    let doc = with_key(&d, pos, key, val);
                    ctx.add_states(1);
                    ctx.case(
                        || format!("{} {key:?} in {}", s.name, doc.flow()),
                        || match serde_yaml::from_str::<T>(&doc.flow()) {
                            Ok(v) => Err(format!("accepted as {v:?}")),
                            Err(_) => Ok(()),
                        },
                    );
                    if d.entries().len() > 6 {
                        break;
                    }
                }
            }
        });
        // extension keys, at every position, with every value
        if s.extensible {
            let ext: Vec<String> = ["x-", "x-a", "x-A", "x-é", "x- ", "x-x-a", "x--", "x-1", "x-zz.y/z", "x-\u{0}"]
                .iter()
                .map(|k| (*k).to_owned())
                .chain(known.iter().map(|k| format!("x-{k}")))
                .collect();
            let junk: Vec<Y> = junk()
                .into_iter()
                .filter(|y| match y {
                    Y::Raw(t) => {
                        !t.contains(['*', '!'])
                            && !t.contains('\n')
                            && serde_yaml::from_str::<serde_yaml::Value>(t).is_ok()
                    }
                    _ => true,
                })
                .collect();
            ctx.part(&format!("extension keys of {}", s.name), ext.len() as u64);
            ctx.par(ext.len(), |k| {
                let key = &ext[k];
                for (h, p) in hosts_.iter().chain(&singles).enumerate() {
                    let d = p.doc(s);
                    let out = p.out(s);
                    if d.get(key).is_some() {
                        continue;
                    }
                    for pos in 0..=d.entries().len() {
                        let full = h == 0 || (h < 3 && pos == 0 && k < 2);
                        for val in if full { &junk[..] } else { &junk[17..19] } {
                            let doc = with_key(&d, pos, key, val);
                            // among the extensions it keeps its place
                            let before = d.entries()[..pos].iter().filter(|(k, _)| k.starts_with("x-")).count();
                            let mut want = out.clone();
                            if let Y::M(v) | Y::O(v) = &mut want {
                                let mut seen = 0;
                                let mut at = v.len();
                                for (n, (k, _)) in v.iter().enumerate() {
                                    if k.starts_with("x-") {
                                        if seen == before {
                                            at = n;
                                            break;
                                        }
                                        seen += 1;
                                    }
                                }
                                v.insert(at, (key.clone(), val.clone()));
                            }
                            ctx.add_states(1);
                            ctx.case(
                                || format!("{} extension {key:?} in {}", s.name, doc.flow()),
                                || {
                                    let v: T = serde_yaml::from_str(&doc.flow()).map_err(|e| format!("rejected: {e}"))?;
                                    let got = serde_yaml::to_value(&v).map_err(|e| format!("cannot write: {e}"))?;
                                    want.matches(&got)
                                },
                            );
                        }
                    }
                }
            });
        }
        // a fresh key in every mapping of every document
        let mut hosts = hosts(s, ctx.thorough());
        let first = hosts.len();
        // the other ways to write each attribute
        for (k, x) in s.items.iter().enumerate() {
            if ctx.thorough() || !x.name.contains('<') {
                hosts.extend((1..x.forms.len()).map(|form| Pick(vec![(k, form)]).doc(s)));
            }
        }
        let all: Vec<(usize, Vec<usize>)> = hosts
            .iter()
            .enumerate()
            .flat_map(|(n, h)| {
                let maps = h.paths().into_iter().filter(|p| h.at(p).is_map());
                maps.filter(move |p| n < first || !p.is_empty()).map(move |p| (n, p))
            })
            .collect();
        ctx.part(&format!("mappings in documents of {}", s.name), all.len() as u64);
        let vals = [
            Y::Null,
            Y::B(false),
            i(0),
            st(""),
            l([]),
            m::<&str>([]),
            st("a"),
            o([("a", st("b"))]),
            l([st("a")]),
            Y::F(0.0),
        ];
        ctx.par(all.len(), |k| {
            let (h, path) = &all[k];
            let host = &hosts[*h];
            for (key, text, mark) in [
                ("zzkey", "zzkey", "zzkey"),
                ("x-zzkey", "x-zzkey", "zzkey"),
                ("@@", "99123", "99123"),
                ("@@", "true", "true"),
                ("@@", "[zzkey]", "zzkey"),
                ("@@", "!t zzkey", "zzkey"),
            ] {
                for val in &vals {
                    for pos in [0, usize::MAX] {
                        let mut doc = host.clone();
                        let sub = with_key(doc.at(path), pos, key, val);
                        *doc.at_mut(path) = sub;
                        let doc = doc.flow().replace("\"@@\"", text);
                        ctx.add_states(1);
                        ctx.case(
                            || format!("{} fresh key in {doc}", s.name),
                            || {
                                let Ok(v) = serde_yaml::from_str::<T>(&doc) else { return Ok(()) };
                                let out = serde_yaml::to_string(&v).map_err(|e| format!("cannot write: {e}"))?;
                                if out.contains(mark) {
                                    Ok(())
                                } else {
                                    Err(format!("{text} is dropped: {v:?}"))
                                }
                            },
                        );
                    }
                }
            }
        });
    }
}

pub fn run(ctx: &Ctx) {
    let words = Mutex::new(BTreeSet::new());
    let families = Mutex::new(BTreeMap::new());
    each(ctx, &Collect(&words, &families));
    let families = families.into_inner().unwrap();
    let words = words.into_inner().unwrap();
    ctx.part("words of the specification and of the types", words.len() as u64);
    each(ctx, &Keys { words: &words, families: &families });
}
