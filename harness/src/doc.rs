//! Enumeration of documents from the schema table.
use std::{collections::HashMap, fmt::Debug};

use serde::{de::DeserializeOwned, Serialize};

use crate::{
    engine::Ctx,
    schema::{self as sc, Item, Schema},
    y::{m, Y},
};

pub trait Doc: DeserializeOwned + Serialize + PartialEq + Debug + Clone + Send + Sync + 'static {}
impl<T: DeserializeOwned + Serialize + PartialEq + Debug + Clone + Send + Sync + 'static> Doc for T {}

/// Something done for every type of the schema.
pub trait Visit {
    fn visit<T: Doc>(&self, ctx: &Ctx, s: &Schema<T>);
}

/// Visit every type. The visitor runs its parts in parallel itself.
pub fn each(ctx: &Ctx, v: &impl Visit) {
    let only = std::env::var("MC_TYPE").ok();
    let time = std::env::var("MC_TIME").is_ok();
    macro_rules! go {
        ($($e:expr),* $(,)?) => {$(
            {
                let s = $e;
                if only.as_deref().is_none_or(|o| o == s.name) && !ctx.enough() {
                    let t = std::time::Instant::now();
                    v.visit(ctx, &s);
                    if time {
                        eprintln!("{:>8.2}s {}", t.elapsed().as_secs_f64(), s.name);
                    }
                }
            }
        )*};
    }
    macro_rules! all {
        ($($e:expr),* $(,)?) => {$( for s in $e { go!(s); } )*};
    }
    go!(
        sc::blkio(),
        sc::config_or_secret(),
        sc::build(),
        sc::resources_limits(),
        sc::resources_device(),
        sc::discrete_resource(),
        sc::generic_resource(),
        sc::reservations(),
        sc::resources_(),
        sc::update_config(),
        sc::restart_policy(),
        sc::preference(),
        sc::placement(),
        sc::deploy_(),
        sc::watch_rule(),
        sc::develop_(),
        sc::healthcheck_command(),
        sc::logging(),
        sc::service_network(),
        sc::port(),
        sc::volume_options(),
        sc::bind_options(),
        sc::tmpfs_options(),
        sc::mount_volume(),
        sc::mount_bind(),
        sc::mount_tmpfs(),
        sc::mount_npipe(),
        sc::mount_cluster(),
        sc::env_file_config(),
        sc::extends(),
        sc::dependency(),
        sc::include(),
        sc::ipam_config(),
        sc::ipam(),
        sc::network_(),
        sc::volume(),
    );
    all!(
        sc::ulimit_all(),
        sc::credential_spec(),
        sc::mount_(),
        sc::config_(),
        sc::secret_(),
        sc::network_resource(),
        sc::volume_resource(),
        sc::config_resource(),
        sc::secret_resource(),
    );
    go!(sc::service_(), sc::compose());
}

/// Which items, in which forms, in document order.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Pick(pub Vec<(usize, usize)>);

impl Pick {
    pub fn doc<T>(&self, s: &Schema<T>) -> Y {
        let mut y = s.base_doc.clone();
        for (n, f) in &self.0 {
            y.merge(&s.items[*n].forms[*f]);
        }
        y
    }
    pub fn out<T>(&self, s: &Schema<T>) -> Y {
        let mut y = s.base_out.clone();
        for (n, _) in &self.0 {
            y.merge(&s.items[*n].out);
        }
        y
    }
    pub fn value<T>(&self, s: &Schema<T>) -> T {
        let mut t = (s.base)();
        for (n, _) in &self.0 {
            (s.items[*n].set)(&mut t);
        }
        t
    }
    pub fn nonempty<T>(&self, s: &Schema<T>) -> bool {
        self.0.iter().any(|(n, _)| s.items[*n].nonempty)
    }
    pub fn name<T>(&self, s: &Schema<T>) -> String {
        format!("{} {}", s.name, self.doc(s).flow())
    }
    pub fn groups<T>(&self, s: &Schema<T>) -> Vec<(String, String)> {
        self.0.iter().flat_map(|(n, _)| s.items[*n].groups.clone()).collect()
    }
}

/// Conflicts of all items, as bits.
pub struct Table {
    n: usize,
    bits: Vec<u64>,
    pub top: Vec<String>,
}
impl Table {
    pub fn new<T>(items: &[Item<T>]) -> Self {
        let n = items.len();
        let w = n.div_ceil(64);
        let mut bits = vec![0u64; n * w];
        // by group, who chooses what
        let mut groups: HashMap<&str, HashMap<&str, Vec<usize>>> = HashMap::new();
        for (k, x) in items.iter().enumerate() {
            for (g, v) in &x.groups {
                groups.entry(g).or_default().entry(v).or_default().push(k);
            }
        }
        for variants in groups.values() {
            for (v, a) in variants {
                for (u, b) in variants {
                    if v != u {
                        for x in a {
                            for y in b {
                                bits[x * w + y / 64] |= 1 << (y % 64);
                            }
                        }
                    }
                }
            }
        }
        let top = items
            .iter()
            .map(|x| x.groups.first().map(|(g, _)| g.clone()).unwrap_or_default())
            .collect();
        Self { n, bits, top }
    }
    pub fn conflict(&self, a: usize, b: usize) -> bool {
        let w = self.n.div_ceil(64);
        self.bits[a * w + b / 64] >> (b % 64) & 1 == 1
    }
    /// Add as many items as possible, going through them in the order given.
    pub fn complete(&self, start: &[usize], order: impl Iterator<Item = usize>) -> Vec<usize> {
        let mut v = start.to_vec();
        for k in order {
            if !v.contains(&k) && v.iter().all(|x| !self.conflict(*x, k)) {
                v.push(k);
            }
        }
        v
    }
    /// The first `k` items of each top level key.
    pub fn reps(&self, k: usize) -> Vec<usize> {
        let mut seen: HashMap<&str, usize> = HashMap::new();
        (0..self.n)
            .filter(|n| {
                let c = seen.entry(&self.top[*n]).or_default();
                *c += 1;
                *c <= k
            })
            .collect()
    }
}

fn canon(v: Vec<usize>) -> Pick {
    Pick(v.into_iter().map(|n| (n, 0)).collect())
}

pub struct Bounds {
    /// Items of each top level key in pairs.
    pub pair_reps: usize,
    /// Do all items become a maximal document of their own?
    pub maximal: bool,
    /// All subsets of the representatives when there are at most so many.
    pub subsets: usize,
    pub forms: bool,
}

/// The documents explored for a type: nothing, every item in every form, pairs in both orders,
/// maximal documents around every item, maximal documents without one, and all subsets of
/// representatives.
pub fn picks<T>(s: &Schema<T>, b: &Bounds) -> Vec<Pick> {
    let t = Table::new(&s.items);
    let n = s.items.len();
    let mut out = vec![Pick(vec![])];
    for k in 0..n {
        for f in 0..if b.forms { s.items[k].forms.len() } else { 1 } {
            out.push(Pick(vec![(k, f)]));
        }
    }
    let reps = if b.pair_reps >= n { (0..n).collect() } else { t.reps(b.pair_reps) };
    for a in &reps {
        for c in &reps {
            if a != c && !t.conflict(*a, *c) {
                out.push(canon(vec![*a, *c]));
            }
        }
    }
    let mut max = Vec::new();
    if b.maximal {
        for k in 0..n {
            max.push(t.complete(&[k], 0..n));
        }
        for k in (0..n).rev() {
            max.push(t.complete(&[k], (0..n).rev()));
        }
    } else {
        max.push(t.complete(&[], 0..n));
        max.push(t.complete(&[], (0..n).rev()));
    }
    // leave one out
    for v in [t.complete(&[], 0..n), t.complete(&[], (0..n).rev())] {
        for k in 0..v.len() {
            let mut w = v.clone();
            w.remove(k);
            max.push(w);
        }
    }
    out.extend(max.into_iter().map(canon));
    // every form inside maximal documents
    if b.forms {
        for k in 0..n {
            for f in 1..s.items[k].forms.len() {
                let v = t.complete(&[k], 0..n);
                out.push(Pick(v.into_iter().map(|x| (x, if x == k { f } else { 0 })).collect()));
            }
        }
    }
    let reps = t.reps(1);
    if reps.len() <= b.subsets {
        for bits in 0u32..1 << reps.len() {
            let v: Vec<usize> = (0..reps.len()).filter(|k| bits >> k & 1 == 1).map(|k| reps[k]).collect();
            if v.iter().all(|a| v.iter().all(|c| !t.conflict(*a, *c))) {
                out.push(canon(v));
            }
        }
    }
    let mut seen = std::collections::HashSet::new();
    out.retain(|p| seen.insert(p.clone()));
    out
}

pub fn small_err(e: impl std::fmt::Display) -> String {
    e.to_string()
}

/// All orders of `n` things, or for more than `full` only those which tell every pair apart
/// (all rotations, the reversal, all single swaps).
pub fn orders(n: usize, full: usize) -> Vec<Vec<usize>> {
    let id: Vec<usize> = (0..n).collect();
    if n <= full {
        let mut out = vec![];
        fn go(rest: &mut Vec<usize>, at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
            if rest.is_empty() {
                out.push(at.clone());
                return;
            }
            for k in 0..rest.len() {
                let x = rest.remove(k);
                at.push(x);
                go(rest, at, out);
                at.pop();
                rest.insert(k, x);
            }
        }
        go(&mut id.clone(), &mut vec![], &mut out);
        return out;
    }
    let mut out = vec![id.clone(), id.iter().rev().copied().collect()];
    for k in 1..n {
        let mut v = id.clone();
        v.rotate_left(k);
        out.push(v);
    }
    for a in 0..n {
        for b in a + 1..n {
            let mut v = id.clone();
            v.swap(a, b);
            out.push(v);
        }
    }
    out
}

pub fn empty_map() -> Y {
    m::<&str>([])
}

/// Values put in place of any node of a document.
pub fn junk() -> Vec<Y> {
    use crate::y::{i, l, ls, o, raw, s};
    vec![
        Y::Null,
        Y::B(true),
        Y::B(false),
        i(0),
        i(1),
        i(-1),
        i(100),
        i(65_536),
        i(u64::MAX),
        i(i64::MIN),
        raw("18446744073709551616"),
        Y::F(1.5),
        Y::F(-0.0),
        raw(".inf"),
        raw("1e400"),
        raw("0x10"),
        s(""),
        s("a"),
        s("A-b_c.1"),
        s("/a"),
        s("./a"),
        s("a=b"),
        s("a=b=c"),
        s("="),
        s("1"),
        s("-1"),
        s("007"),
        s("1.50"),
        s("1e3"),
        s("true"),
        s("null"),
        s("~"),
        s("x-a"),
        s("é\u{1F600}"),
        s(" a "),
        s("a\nb"),
        s("\0"),
        s("\u{feff}"),
        s("- a"),
        s("{a: b}"),
        s("1s"),
        s("90m"),
        s("1b"),
        s("2048k"),
        s("a:b"),
        s("a:/b:ro"),
        s("/a:/b"),
        s("1-2"),
        s("1-2:3-4/udp"),
        s("127.0.0.1:80:80"),
        s("::1"),
        s("10.0.0.0/8"),
        s("service:a"),
        s("NONE"),
        s("none"),
        s("host"),
        s("https://a.b/c?d#e"),
        s("linux/amd64"),
        s("c 1:2 r"),
        s("2:3:4:5:6:7"),
        raw("3.10"),
        raw("2001-01-01"),
        raw("no"),
        raw("|\n  "),
        l([]),
        l([Y::Null]),
        ls(["a"]),
        ls(["a", "a"]),
        ls(["A=1", "A=2", "A"]),
        ls(["CMD"]),
        ls(["NONE"]),
        ls(["/a", "./b"]),
        l([i(1)]),
        l([Y::B(true), s("b")]),
        l([l([])]),
        l([empty_map()]),
        l([o([("source", s("a"))])]),
        l([o([("path", s("a"))])]),
        l([o([("target", i(1))])]),
        empty_map(),
        o([("a", Y::Null)]),
        o([("a", s("b"))]),
        o([("a", i(1))]),
        o([("a", Y::B(true))]),
        o([("a", empty_map())]),
        o([("x-a", i(1))]),
        o([("", i(1))]),
        o([("<<", o([("a", i(1))]))]),
        o([("external", Y::B(true))]),
        o([("context", s("a"))]),
        raw("{1: 2}"),
        raw("{~: a}"),
        raw("{[a]: b}"),
        raw("!t a"),
        raw("!t {a: b}"),
        raw("&a [b]"),
        raw("*a"),
    ]
}

pub struct Mutant {
    pub doc: Y,
    pub what: String,
}

/// Documents in which the junk is put, for mutation.
pub fn hosts<T>(s: &Schema<T>, full: bool) -> Vec<Y> {
    let t = Table::new(&s.items);
    let n = s.items.len();
    let mut out = vec![s.base_doc.clone()];
    for k in 0..n {
        // nested types are mutated on their own
        if full || !s.items[k].name.contains("<") {
            out.push(Pick(vec![(k, 0)]).doc(s));
        }
    }
    let big = out.len() > 200;
    if !big || full {
        out.push(canon(t.complete(&[], 0..n)).doc(s));
        out.push(canon(t.complete(&[], (0..n).rev())).doc(s));
    }
    out
}

/// Every mutant of the documents: each node replaced by each junk, each node removed, each list
/// entry doubled, each key doubled under another name. In parallel.
pub fn mutants(ctx: &Ctx, hosts: &[Y], junk: &[Y], f: impl Fn(&Y) + Sync) -> u64 {
    let all: Vec<(usize, Vec<usize>)> =
        hosts.iter().enumerate().flat_map(|(n, h)| h.paths().into_iter().map(move |p| (n, p))).collect();
    let count = std::sync::atomic::AtomicU64::new(0);
    ctx.par(all.len(), |k| {
        let (h, path) = &all[k];
        let host = &hosts[*h];
        for j in junk {
            let mut doc = host.clone();
            *doc.at_mut(path) = j.clone();
            f(&doc);
        }
        let mut n = junk.len();
        if let Some((last, rest)) = path.split_last() {
            let mut doc = host.clone();
            match doc.at_mut(rest) {
                Y::L(v) => {
                    v.remove(*last);
                }
                Y::M(v) | Y::O(v) => {
                    v.remove(*last);
                }
                _ => unreachable!(),
            }
            f(&doc);
            let mut doc = host.clone();
            match doc.at_mut(rest) {
                Y::L(v) => {
                    let x = v[*last].clone();
                    v.push(x);
                }
                Y::M(v) | Y::O(v) => {
                    let (k, x) = v[*last].clone();
                    v.insert(*last, (format!("{k}2"), x));
                }
                _ => unreachable!(),
            }
            f(&doc);
            n += 2;
        }
        count.fetch_add(n as u64, std::sync::atomic::Ordering::Relaxed);
    });
    count.into_inner()
}
