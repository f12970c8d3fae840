//! C02: documents are accepted exactly when well formed and are read faithfully. C16 shares the
//! enumeration.
use serde_yaml::Value;

use crate::{
    doc::{each, picks, Bounds, Doc, Pick, Visit},
    engine::Ctx,
    schema::{groups_conflict, Schema},
    y::Y,
};

pub const ASSUME: &[&str] = &[
    "the schema table in harness/src/schema.rs states the documented forms of every attribute",
    "documents with plain numbers or booleans for text attributes, null for a set attribute, and duplicate keys are not judged",
];

pub fn bounds(ctx: &Ctx, name: &str) -> Bounds {
    let big = matches!(name, "Service" | "Build" | "Deploy");
    Bounds {
        pair_reps: if big { ctx.pick(2, 12) } else { ctx.pick(40, 10_000) },
        maximal: true,
        subsets: ctx.pick(10, 16),
        forms: true,
    }
}

struct Read;

fn same<T: Doc, E: std::fmt::Display>(got: &Result<T, E>, want: &T, route: &str) -> Result<(), String> {
    match got {
        Err(e) => Err(format!("{route}: rejected: {e}")),
        Ok(v) if v != want => Err(format!("{route}: read as {v:?}, should be {want:?}")),
        Ok(_) => Ok(()),
    }
}

impl Visit for Read {
    fn visit<T: Doc>(&self, ctx: &Ctx, s: &Schema<T>) {
        let all = picks(s, &bounds(ctx, s.name));
        ctx.part(&format!("documents of {}", s.name), all.len() as u64);
        ctx.add_states(all.len() as u64);
        let routes = |p: &Pick| -> Result<(), String> {
            let doc = p.doc(s);
            let want = p.value(s);
            same(&serde_yaml::from_str::<T>(&doc.flow()), &want, "flow")?;
            same(&serde_yaml::from_str::<T>(&doc.block()), &want, "block")?;
            if !doc.has_raw() {
                same(&serde_yaml::from_value::<T>(doc.value()), &want, "value")?;
            }
            if let Some(json) = doc.json() {
                same(&serde_json::from_str::<T>(&json), &want, "JSON")?;
                same(&serde_json::from_reader::<_, T>(json.as_bytes()), &want, "JSON from a reader")?;
            }
            Ok(())
        };
        ctx.par(all.len(), |k| {
            let p = &all[k];
            ctx.case(|| p.name(s), || routes(p));
        });
        ctx.sample(|| all.last().map(|p| p.name(s)).unwrap_or_default());
        // rejected fragments: alone, next to every representative, and inside full documents
        let t = crate::doc::Table::new(&s.items);
        let n = s.items.len();
        let reps = t.reps(1);
        ctx.part(&format!("bad fragments of {}", s.name), s.rejects.len() as u64);
        ctx.par(s.rejects.len(), |k| {
            let r = &s.rejects[k];
            let mut hosts: Vec<Vec<usize>> = vec![vec![]];
            let free = |x: &usize| !groups_conflict(&s.items[*x].groups, &r.groups);
            hosts.extend(reps.iter().filter(|x| free(x)).map(|x| vec![*x]));
            hosts.push(t.complete(&[], (0..n).filter(free)));
            hosts.push(t.complete(&[], (0..n).rev().filter(free)));
            for (h, v) in hosts.into_iter().enumerate() {
                if h > 1 && h + 2 < reps.len() && s.rejects.len() * reps.len() > 40_000 && !ctx.thorough() && h % 8 != k % 8 {
                    continue;
                }
                let p = Pick(v.into_iter().map(|x| (x, 0)).collect());
                for first in [true, false] {
                    let mut doc = p.doc(s);
                    for (key, y) in r.doc.entries() {
                        if let Y::M(v) = &mut doc {
                            v.retain(|(j, _)| j != key);
                            if first {
                                v.insert(0, (key.clone(), y.clone()));
                            } else {
                                v.push((key.clone(), y.clone()));
                            }
                        }
                    }
                    ctx.add_states(1);
                    ctx.case(
                        || format!("bad {} {}", s.name, doc.flow()),
                        || {
                            if let Ok(v) = serde_yaml::from_str::<T>(&doc.flow()) {
                                return Err(format!("{}: accepted as {v:?}", r.name));
                            }
                            if !doc.has_raw() && serde_yaml::from_value::<T>(doc.value()).is_ok() {
                                return Err(format!("{}: accepted as a value", r.name));
                            }
                            Ok(())
                        },
                    );
                    if p.0.is_empty() {
                        break;
                    }
                }
            }
        });
        // attributes which exclude each other, in every form and both orders
        let disjoint = |a: &Y, b: &Y| a.entries().iter().all(|(k, _)| b.get(k).is_none());
        let mut pairs = vec![];
        for a in 0..n {
            for b in (0..n).filter(|b| *b != a && t.conflict(a, *b)) {
                for (x, f) in s.items[a].forms.iter().enumerate() {
                    for (y, g) in s.items[b].forms.iter().enumerate() {
                        if disjoint(f, g) {
                            pairs.push((a, x, b, y));
                        }
                    }
                }
            }
        }
        if !pairs.is_empty() {
            ctx.part(&format!("exclusive attributes of {}", s.name), pairs.len() as u64);
        }
        ctx.par(pairs.len(), |k| {
            let (a, x, b, y) = pairs[k];
            let mut doc = Pick(vec![(a, x)]).doc(s);
            if let Y::M(v) = &mut doc {
                v.extend(s.items[b].forms[y].entries().iter().cloned());
            }
            ctx.add_states(1);
            ctx.case(
                || format!("exclusive attributes: {} {}", s.name, doc.flow()),
                || match serde_yaml::from_str::<T>(&doc.flow()) {
                    Ok(v) => Err(format!("accepted as {v:?}")),
                    Err(_) => Ok(()),
                },
            );
        });
        // required keys
        for key in &s.required {
            for p in [Pick(vec![]), Pick(t.complete(&[], 0..n).into_iter().map(|x| (x, 0)).collect())] {
                let mut doc = p.doc(s);
                if let Y::M(v) = &mut doc {
                    v.retain(|(k, _)| k != key);
                }
                ctx.case(
                    || format!("without {key}: {} {}", s.name, doc.flow()),
                    || match serde_yaml::from_str::<T>(&doc.flow()) {
                        Ok(v) => Err(format!("accepted without {key} as {v:?}")),
                        Err(_) => Ok(()),
                    },
                );
            }
        }
        // no mapping at all
        for y in [Y::B(true), Y::I(1), Y::F(1.5), Y::L(vec![]), Y::L(vec![s.base_doc.clone()])] {
            let text = y.flow();
            ctx.case(
                || format!("no mapping: {} {text}", s.name),
                || match serde_yaml::from_str::<T>(&text) {
                    Ok(v) => Err(format!("accepted as {v:?}")),
                    Err(_) => Ok(()),
                },
            );
        }
    }
}

pub fn run(ctx: &Ctx) {
    each(ctx, &Read);
}

// ---------------------------------------------------------------------------------------------

pub mod c16 {
    use super::*;

    pub const ASSUME: &[&str] = super::ASSUME;

    struct Empty;

    impl Visit for Empty {
        fn visit<T: Doc>(&self, ctx: &Ctx, s: &Schema<T>) {
            let all = picks(s, &super::bounds(ctx, s.name));
            ctx.part(&format!("values of {}", s.name), all.len() as u64);
            ctx.add_states(all.len() as u64);
            ctx.par(all.len(), |k| {
                let p = &all[k];
                ctx.case(
                    || p.name(s),
                    || {
                        let v = p.value(s);
                        if let Some(is_empty) = s.is_empty {
                            let want = !p.nonempty(s);
                            if is_empty(&v) != want {
                                return Err(format!("is_empty is {}, should be {want}", !want));
                            }
                        }
                        let out: Value = serde_yaml::to_value(&v).map_err(|e| format!("cannot write: {e}"))?;
                        p.out(s).matches(&out)
                    },
                );
            });
            // defaults of absent attributes
            ctx.case(
                || format!("{} absent attributes", s.name),
                || {
                    let v: T = serde_yaml::from_str(&s.base_doc.flow()).map_err(|e| e.to_string())?;
                    let want = (s.base)();
                    if v != want {
                        return Err(format!("defaults are {v:?}, should be {want:?}"));
                    }
                    Ok(())
                },
            );
        }
    }

    pub fn run(ctx: &Ctx) {
        each(ctx, &Empty);
        super::super::c16::extra(ctx);
    }
}
