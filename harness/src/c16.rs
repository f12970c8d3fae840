//! C16: emptiness tests and defaults, the part which is not in the schema table: composite values
//! which hold lists of composite values, with the empty ones at every place.
use compose_spec::{
    network::Ipam,
    service::deploy::{
        resources::{Reservations, Resources},
        Deploy, Placement,
    },
    Network,
};

use crate::{
    engine::Ctx,
    y::{i, l, ls, m, s, Y},
};

/// Is nothing set in a document of attributes which are all optional?
fn nothing(y: &Y) -> bool {
    match y {
        Y::Null | Y::B(false) => true,
        Y::L(v) => v.iter().all(nothing),
        Y::M(v) | Y::O(v) => v.iter().all(|(_, y)| nothing(y)),
        _ => false,
    }
}

/// All lists of the items, up to a length.
fn lists(items: &[Y], max: usize) -> Vec<Y> {
    let mut all = vec![vec![]];
    let mut at = 0;
    for _ in 0..max {
        let end = all.len();
        for k in at..end {
            for y in items {
                let mut v: Vec<Y> = all[k].clone();
                v.push(y.clone());
                all.push(v);
            }
        }
        at = end;
    }
    all.into_iter().map(Y::L).collect()
}

/// Mappings with each combination of the choices for each key.
fn maps(keys: &[(&str, &[Y])]) -> Vec<Y> {
    let mut all: Vec<Vec<(String, Y)>> = vec![vec![]];
    for (key, choices) in keys {
        let mut next = vec![];
        for v in &all {
            next.push(v.clone());
            for y in *choices {
                let mut v = v.clone();
                v.push(((*key).to_owned(), y.clone()));
                next.push(v);
            }
        }
        all = next;
    }
    all.into_iter().map(Y::M).collect()
}

fn judge<T: serde::de::DeserializeOwned + serde::Serialize>(ctx: &Ctx, name: &str, docs: &[Y], is_empty: fn(&T) -> bool) {
    ctx.part(&format!("nested values of {name}"), docs.len() as u64);
    ctx.add_states(docs.len() as u64);
    ctx.par(docs.len(), |k| {
        let y = &docs[k];
        ctx.case(
            || format!("{name} {}", y.flow()),
            || {
                let v: T = serde_yaml::from_str(&y.flow()).map_err(|e| format!("rejected: {e}"))?;
                let want = nothing(y);
                if is_empty(&v) != want {
                    return Err(format!("is_empty is {}, should be {want}", !want));
                }
                // what is set is visible in the output
                let out = serde_yaml::to_string(&v).map_err(|e| format!("cannot write: {e}"))?;
                let again: T = serde_yaml::from_str(&out).map_err(|e| format!("{out} rejected: {e}"))?;
                if is_empty(&again) != want {
                    return Err(format!("written as {out}, of which is_empty is {}", !want));
                }
                Ok(())
            },
        );
    });
}

pub fn extra(ctx: &Ctx) {
    let none = || m::<&str>([]);
    let len = ctx.pick(2, 3);
    let ext = [i(1)];

    let config = lists(
        &[
            none(),
            m([("subnet", s("10.0.0.0/8"))]),
            m([("ip_range", s("10.0.0.0/16"))]),
            m([("gateway", s("10.0.0.1"))]),
            m([("aux_addresses", none())]),
            m([("aux_addresses", m([("a", s("10.0.0.2"))]))]),
            m([("x-a", i(1))]),
        ],
        len,
    );
    let ipam = maps(&[("driver", &[s("d")]), ("config", &config), ("options", &[none(), m([("a", s("b"))])]), ("x-a", &ext)]);
    judge(ctx, "Ipam", &ipam, Ipam::is_empty);
    let some: Vec<Y> = ipam.iter().take(ctx.pick(200, 2_000)).cloned().collect();
    judge(ctx, "Network", &maps(&[("internal", &[Y::B(false), Y::B(true)]), ("labels", &[l([]), none(), ls(["a"])]), ("ipam", &some)]), Network::is_empty);

    let preferences = lists(&[none(), m([("spread", s("a"))]), m([("x-a", i(1))])], len + 1);
    let placement = maps(&[
        ("constraints", &[l([]), ls(["a==b"])]),
        ("preferences", &preferences),
        ("max_replicas_per_node", &[i(1)]),
        ("x-a", &ext),
    ]);
    judge(ctx, "Placement", &placement, Placement::is_empty);

    let caps = |v: &[(&str, Y)]| {
        let mut all = vec![("capabilities", l([]))];
        all.extend(v.iter().cloned());
        m(all)
    };
    let devices = lists(
        &[
            caps(&[]),
            m([("capabilities", ls(["gpu"]))]),
            caps(&[("driver", s("a"))]),
            caps(&[("count", i(1))]),
            caps(&[("device_ids", ls(["a"]))]),
            caps(&[("device_ids", l([])), ("options", none())]),
            caps(&[("options", ls(["a"]))]),
            caps(&[("x-a", i(1))]),
        ],
        2,
    );
    let generic = lists(
        &[
            none(),
            m([("discrete_resource_spec", none())]),
            m([("discrete_resource_spec", m([("kind", s("a"))]))]),
            m([("discrete_resource_spec", m([("value", i(1))]))]),
            m([("discrete_resource_spec", m([("x-a", i(1))]))]),
            m([("x-a", i(1))]),
        ],
        2,
    );
    let reservations = maps(&[
        ("cpus", &[s("0.5")]),
        ("memory", &[s("1b")]),
        ("devices", &devices),
        ("generic_resources", &generic),
        ("x-a", &ext),
    ]);
    judge(ctx, "Reservations", &reservations, Reservations::is_empty);
    let few: Vec<Y> = reservations.iter().filter(|y| y.entries().len() < ctx.pick(2, 3)).cloned().collect();
    let limits = [none(), m([("cpus", s("1"))]), m([("memory", s("1b"))]), m([("pids", i(1))]), m([("x-a", i(1))])];
    let resources = maps(&[("limits", &limits), ("reservations", &few), ("x-a", &ext)]);
    judge(ctx, "Resources", &resources, Resources::is_empty);
    let few: Vec<Y> = resources.iter().filter(|y| y.entries().len() < 3).cloned().collect();
    let place: Vec<Y> = placement.iter().filter(|y| y.entries().len() < 2).take(ctx.pick(4, 12)).cloned().collect();
    let policy = [none(), m([("condition", s("any"))])];
    judge(
        ctx,
        "Deploy",
        &maps(&[("labels", &[l([]), ls(["a"])]), ("placement", &place), ("resources", &few), ("restart_policy", &policy)]),
        Deploy::is_empty,
    );
}
