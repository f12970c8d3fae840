//! C01: whatever is accepted survives being written and read back, and the second writing is the
//! same text.
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

use crate::{
    doc::{each, hosts, junk, mutants, picks, Doc, Visit},
    engine::Ctx,
    schema::Schema,
};

pub const ASSUME: &[&str] = &[
    "values which are not equal to themselves (NaN) and values which YAML cannot write are not judged",
    "documents whose mappings have keys that are not text are judged only when accepted",
];

pub fn round<T: Doc>(v: &T) -> Result<(), String> {
    #[allow(clippy::eq_op)]
    if v != v {
        return Ok(());
    }
    let text = serde_yaml::to_string(v).map_err(|e| format!("cannot write {v:?}: {e}"))?;
    let back: T = serde_yaml::from_str(&text).map_err(|e| format!("wrote {text:?} which is rejected: {e}"))?;
    if back != *v {
        return Err(format!("wrote {text:?} which reads as {back:?}, was {v:?}"));
    }
    let again = serde_yaml::to_string(&back).map_err(|e| format!("cannot write again: {e}"))?;
    if again != text {
        return Err(format!("wrote {text:?}, then {again:?}"));
    }
    let value = serde_yaml::to_value(v).map_err(|e| format!("cannot write as a value: {e}"))?;
    let back: T = serde_yaml::from_value(value.clone()).map_err(|e| format!("the value {value:?} is rejected: {e}"))?;
    if back != *v {
        return Err(format!("the value {value:?} reads as {back:?}, was {v:?}"));
    }
    let again = serde_yaml::to_value(&back).map_err(|e| format!("cannot write as a value again: {e}"))?;
    if again != value {
        return Err(format!("the value {value:?} becomes {again:?}"));
    }
    Ok(())
}

/// The same through JSON, for values which JSON can hold.
fn round_json<T: Doc>(v: &T) -> Result<(), String> {
    let text = serde_json::to_string(v).map_err(|e| format!("cannot write {v:?} as JSON: {e}"))?;
    let back: T = serde_json::from_str(&text).map_err(|e| format!("wrote JSON {text} which is rejected: {e}"))?;
    if back != *v {
        return Err(format!("wrote JSON {text} which reads as {back:?}, was {v:?}"));
    }
    let again = serde_json::to_string(&back).map_err(|e| format!("cannot write JSON again: {e}"))?;
    if again != text {
        return Err(format!("wrote JSON {text}, then {again}"));
    }
    Ok(())
}

struct Round;

impl Visit for Round {
    fn visit<T: Doc>(&self, ctx: &Ctx, s: &Schema<T>) {
        let all = picks(s, &crate::c02::bounds(ctx, s.name));
        ctx.part(&format!("documents of {}", s.name), all.len() as u64);
        ctx.add_states(all.len() as u64);
        ctx.par(all.len(), |k| {
            let p = &all[k];
            ctx.case(
                || p.name(s),
                || {
                    let v: T = serde_yaml::from_str(&p.doc(s).flow()).map_err(|e| format!("rejected: {e}"))?;
                    round(&v)?;
                    round(&p.value(s))?;
                    if p.doc(s).json().is_some() {
                        round_json(&v)?;
                    }
                    Ok(())
                },
            );
        });
        let junk = junk();
        let hosts = hosts(s, ctx.thorough());
        let accepted = AtomicU64::new(0);
        let tried = mutants(ctx, &hosts, &junk, |doc| {
            let text = doc.flow();
            ctx.case(
                || format!("{} {text}", s.name),
                || {
                    let Ok(v) = serde_yaml::from_str::<T>(&text) else { return Ok(()) };
                    accepted.fetch_add(1, Relaxed);
                    round(&v)?;
                    if doc.json().is_some() {
                        round_json(&v)?;
                    }
                    Ok(())
                },
            );
        });
        let accepted = accepted.into_inner();
        ctx.add_states(tried);
        ctx.part(&format!("mutated documents of {}", s.name), tried);
        ctx.outcome("mutated documents accepted", accepted);
        ctx.outcome("mutated documents rejected", tried - accepted);
    }
}

pub fn run(ctx: &Ctx) {
    each(ctx, &Round);
}
