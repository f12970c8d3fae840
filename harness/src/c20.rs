//! C20: absolute and host paths under all sequences of edits.
use std::{
    borrow::{Borrow, Cow},
    collections::{HashMap, HashSet},
    hash::{Hash, Hasher},
    path::{Path, PathBuf},
    sync::Mutex,
};

use compose_spec::{
    service::volumes::{AbsolutePath, HostPath, Source},
    Identifier,
};
use serde_yaml::Value as Y;

use crate::engine::Ctx;

pub const ASSUME: &[&str] = &[
    "the model of an edit is the same edit of a std::path::PathBuf (unix paths)",
    "paths are valid UTF-8",
];

/// Unix-only, text-level definition of the two kinds of path.
fn is_abs(s: &str) -> bool {
    s.starts_with('/')
}
fn is_host(s: &str) -> bool {
    is_abs(s) || s == "." || s == ".." || s.starts_with("./") || s.starts_with("../")
}

/// Model of `PathBuf::push` on text.
fn push(s: &str, p: &str) -> String {
    if is_abs(p) {
        p.to_owned()
    } else if s.is_empty() || s.ends_with('/') {
        format!("{s}{p}")
    } else {
        format!("{s}/{p}")
    }
}

/// Model of the documented `pop`: truncate to the parent.
fn pop(s: &str, host: bool) -> Option<String> {
    let parent = Path::new(s).parent()?;
    if host && parent.as_os_str().is_empty() {
        return None;
    }
    Some(parent.to_str().expect("utf-8").to_owned())
}

trait Kind: Clone + PartialEq + std::fmt::Debug + AsRef<Path> + Hash + Ord + Sized + serde::Serialize {
    const NAME: &'static str;
    const HOST: bool;
    fn valid(s: &str) -> bool;
    fn routes(s: &str) -> Vec<(&'static str, Option<Self>)>;
    fn push_(&mut self, p: &str);
    fn push_buf(&mut self, p: &str);
    fn pop_(&mut self) -> bool;
    fn text(&self) -> String;
    fn checks(&self, s: &str) -> Result<(), String>;
}

macro_rules! kind {
    ($Ty:ident, $host:expr, $valid:ident) => {
        impl Kind for $Ty {
            const NAME: &'static str = stringify!($Ty);
            const HOST: bool = $host;
            fn valid(s: &str) -> bool {
                $valid(s)
            }
            fn routes(s: &str) -> Vec<(&'static str, Option<Self>)> {
                vec![
                    ("new(&str)", $Ty::new(s).ok()),
                    ("new(String)", $Ty::new(s.to_owned()).ok()),
                    ("new(PathBuf)", $Ty::new(PathBuf::from(s)).ok()),
                    ("FromStr", s.parse().ok()),
                    ("TryFrom<&str>", $Ty::try_from(s).ok()),
                    ("TryFrom<String>", $Ty::try_from(s.to_owned()).ok()),
                    ("TryFrom<PathBuf>", $Ty::try_from(PathBuf::from(s)).ok()),
                    ("TryFrom<&Path>", $Ty::try_from(Path::new(s)).ok()),
                    ("TryFrom<Box<Path>>", $Ty::try_from(Box::<Path>::from(Path::new(s))).ok()),
                    ("TryFrom<Cow<Path>> borrowed", $Ty::try_from(Cow::Borrowed(Path::new(s))).ok()),
                    ("TryFrom<Cow<Path>> owned", $Ty::try_from(Cow::<Path>::Owned(PathBuf::from(s))).ok()),
                    ("Deserialize value", serde_yaml::from_value(Y::from(s)).ok()),
                    ("Deserialize text", serde_yaml::from_str(&format!("{s:?}")).ok()),
                ]
            }
            fn push_(&mut self, p: &str) {
                self.push(p);
            }
            fn push_buf(&mut self, p: &str) {
                self.push(PathBuf::from(p));
            }
            fn pop_(&mut self) -> bool {
                self.pop()
            }
            fn text(&self) -> String {
                self.as_path().to_str().expect("utf-8").to_owned()
            }
            fn checks(&self, s: &str) -> Result<(), String> {
                let p = Path::new(s);
                let b: &Path = self.borrow();
                if b.as_os_str() != p.as_os_str()
                    || AsRef::<Path>::as_ref(self).as_os_str() != p.as_os_str()
                    || AsRef::<PathBuf>::as_ref(self).as_os_str() != p.as_os_str()
                    || self.as_inner().as_os_str() != p.as_os_str()
                    || self.clone().into_inner().as_os_str() != p.as_os_str()
                    || PathBuf::from(self.clone()).as_os_str() != p.as_os_str()
                    || Box::<Path>::from(self.clone()).as_os_str() != p.as_os_str()
                {
                    return Err(format!("a view of {self:?} is not {s:?}"));
                }
                if *self != *p {
                    return Err("is not equal to its path".into());
                }
                let mut set = HashSet::new();
                set.insert(self.clone());
                if !set.contains(p) {
                    return Err("is not found by its path".into());
                }
                if serde_yaml::to_value(self).ok() != Some(Y::from(s)) {
                    return Err(format!("serialized as {:?}", serde_yaml::to_value(self)));
                }
                Ok(())
            }
        }
    };
}
kind!(AbsolutePath, false, is_abs);
kind!(HostPath, true, is_host);

fn explore<K: Kind + Send + Sync>(ctx: &Ctx, starts: &[String], frags: &[&str], depth: usize, max_len: usize) {
    // construction by every route
    for s in starts {
        ctx.case(
            || format!("{} {s:?}", K::NAME),
            || {
                let want = K::valid(s);
                for (route, v) in K::routes(s) {
                    match (v, want) {
                        (Some(v), true) => {
                            if v.text() != *s {
                                return Err(format!("{route} makes {:?}", v.text()));
                            }
                            v.checks(s)?;
                        }
                        (None, false) => {}
                        (v, w) => return Err(format!("{route} gives {v:?}, valid: {w}")),
                    }
                }
                Ok(())
            },
        );
    }
    // breadth first over the states reachable by edits
    let mut seen: HashSet<String> = starts.iter().filter(|s| K::valid(s)).cloned().collect();
    let mut frontier: Vec<String> = seen.iter().cloned().collect();
    frontier.sort();
    for _ in 0..depth {
        let next = Mutex::new(Vec::new());
        ctx.par(frontier.len(), |i| {
            let s = &frontier[i];
            let mut out = Vec::new();
            ctx.case(
                || format!("{} {s:?}", K::NAME),
                || {
                    for (route, v) in K::routes(s) {
                        if v.as_ref().map(K::text).as_ref() != Some(s) {
                            return Err(format!("reached by edits, but {route} gives {v:?}"));
                        }
                    }
                    Ok(())
                },
            );
            let Some((_, Some(start))) = K::routes(s).into_iter().next() else { return };
            for f in frags {
                let want = push(s, f);
                // the model keeps the promise or the edit must not happen
                let want = if K::valid(&want) { want } else { s.clone() };
                ctx.case(
                    || format!("{} {s:?} push {f:?}", K::NAME),
                    || {
                        let mut v = start.clone();
                        v.push_(f);
                        let mut w = start.clone();
                        w.push_buf(f);
                        if v.text() != want || w.text() != want {
                            return Err(format!("is {v:?} / {w:?}, should be {want:?}"));
                        }
                        v.checks(&want)
                    },
                );
                if want.len() <= max_len {
                    out.push(want);
                }
            }
            let want = pop(s, K::HOST);
            ctx.case(
                || format!("{} {s:?} pop", K::NAME),
                || {
                    let mut v = start.clone();
                    let r = v.pop_();
                    let (wr, ws) = match &want {
                        Some(w) => (true, w),
                        None => (false, s),
                    };
                    if r != wr || v.text() != *ws {
                        return Err(format!("returned {r} leaving {v:?}, should be {wr} {ws:?}"));
                    }
                    if !K::valid(&v.text()) {
                        return Err(format!("{v:?} breaks the promise"));
                    }
                    v.checks(ws)
                },
            );
            out.extend(want);
            ctx.add_transitions(out.len() as u64);
            next.lock().unwrap().extend(out);
        });
        let mut new = next.into_inner().unwrap();
        new.sort();
        new.dedup();
        frontier = new.into_iter().filter(|s| seen.insert(s.clone())).collect();
        if frontier.is_empty() {
            break;
        }
    }
    ctx.add_states(seen.len() as u64);
    ctx.part(&format!("{} states", K::NAME), seen.len() as u64);

    // all sequences of edits on one value (state is carried by the implementation)
    let ops = frags.len() + 1;
    let len = ctx.pick(4, 5);
    let first: Vec<&String> = starts.iter().filter(|s| K::valid(s) && s.len() <= ctx.pick(2, 3)).collect();
    let n = first.len() * ops;
    ctx.par(n, |i| {
        let (s, op0) = (first[i / ops], i % ops);
        let total = ops.pow(len - 1);
        for mut k in 0..total {
            let mut v = K::routes(s).swap_remove(0).1.expect("valid");
            let mut m = s.clone();
            let mut hist = Vec::new();
            let seq: Vec<usize> = std::iter::once(op0)
                .chain((1..len).map(|_| {
                    let o = k % ops;
                    k /= ops;
                    o
                }))
                .collect();
            ctx.case(
                || format!("{} {s:?} edits {seq:?}", K::NAME),
                || {
                    for &o in &seq {
                        if o == frags.len() {
                            v.pop_();
                            if let Some(p) = pop(&m, K::HOST) {
                                m = p;
                            }
                            hist.push("pop");
                        } else {
                            v.push_(frags[o]);
                            let p = push(&m, frags[o]);
                            if K::valid(&p) {
                                m = p;
                            }
                            hist.push(frags[o]);
                        }
                        if v.text() != m {
                            return Err(format!("after {hist:?} is {v:?}, should be {m:?}"));
                        }
                    }
                    Ok(())
                },
            );
        }
        ctx.add_transitions((total * len as usize) as u64);
    });
    ctx.part(&format!("{} edit sequences", K::NAME), (n * ops.pow(len - 1)) as u64);
}

fn words(alphabet: &[&str], len: usize) -> Vec<String> {
    let mut all = vec![String::new()];
    let mut last = all.clone();
    for _ in 0..len {
        last = last
            .iter()
            .flat_map(|w| alphabet.iter().map(move |a| format!("{w}{a}")))
            .collect();
        all.extend(last.iter().cloned());
    }
    all
}

fn ident_ok(s: &str) -> bool {
    s.starts_with(|c: char| c.is_ascii_alphanumeric())
        && s.chars().all(|c| c.is_ascii_alphanumeric() || "._-".contains(c))
}

pub fn run(ctx: &Ctx) {
    let starts = words(&["/", ".", "a", "~", " "], ctx.pick(5, 6));
    let frags = ["", ".", "..", "a", "/", "/b", "./c", "../d", "a/b", "a/", "//", "...", ".h", "/.", "/.."];
    let host_starts: Vec<String> = starts.clone();
    explore::<AbsolutePath>(ctx, &host_starts, &frags, ctx.pick(3, 4), ctx.pick(9, 11));
    explore::<HostPath>(ctx, &host_starts, &frags, ctx.pick(3, 4), ctx.pick(9, 11));

    // sources: path or volume name, as documented
    let srcs = words(&["/", ".", "a", "Z", "0", "_", "-", "~", "\\", ":", " "], ctx.pick(4, 5));
    ctx.part("source strings", srcs.len() as u64);
    ctx.par(srcs.len(), |i| {
        let s = &srcs[i];
        ctx.case(
            || format!("source {s:?}"),
            || {
                let want = if is_abs(s) || s.starts_with('.') {
                    is_host(s).then(|| Source::HostPath(HostPath::new(s.as_str()).expect("host path")))
                } else {
                    ident_ok(s).then(|| Source::Volume(Identifier::new(s.as_str()).expect("identifier")))
                };
                for (route, got) in [
                    ("FromStr", s.parse::<Source>().ok()),
                    ("TryFrom<&str>", Source::try_from(s.as_str()).ok()),
                    ("TryFrom<String>", Source::try_from(s.clone()).ok()),
                    ("parse", Source::parse(s.as_str()).ok()),
                    ("parse(String)", Source::parse(s.clone()).ok()),
                ] {
                    if got != want {
                        return Err(format!("{route}: {got:?}, should be {want:?}"));
                    }
                }
                let host = is_host(s).then(|| s.clone());
                let text = |v: Option<Source>| match v {
                    Some(Source::HostPath(p)) => p.as_path().to_str().map(str::to_owned),
                    Some(Source::Volume(v)) => Some(format!("volume {v}")),
                    None => None,
                };
                let p = Path::new(s);
                for (route, got) in [
                    ("PathBuf", Source::try_from(p.to_owned()).ok()),
                    ("&Path", Source::try_from(p).ok()),
                    ("Box<Path>", Source::try_from(Box::<Path>::from(p)).ok()),
                    ("Cow<Path>", Source::try_from(Cow::Borrowed(p)).ok()),
                ] {
                    if text(got.clone()) != host {
                        return Err(format!("TryFrom<{route}>: {got:?}, should be {host:?}"));
                    }
                }
                if let Some(w) = want {
                    if w.to_string() != *s {
                        return Err(format!("printed as {w}"));
                    }
                }
                if is_abs(s) {
                    let a = AbsolutePath::new(s.as_str()).expect("absolute");
                    let h = HostPath::from(a.clone());
                    let src = Source::from(a);
                    if h.as_path().to_str() != Some(s) || src != Source::HostPath(h) {
                        return Err("conversion from an absolute path changed it".into());
                    }
                }
                Ok(())
            },
        );
    });

    // equal values (as paths) hash alike and order alike
    let small = words(&["/", ".", "a"], 4);
    let abs: Vec<(String, AbsolutePath)> = small
        .iter()
        .filter_map(|s| Some((s.clone(), AbsolutePath::new(s.as_str()).ok()?)))
        .collect();
    let hash = |v: &dyn Fn(&mut std::collections::hash_map::DefaultHasher)| {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        v(&mut h);
        h.finish()
    };
    for (s, a) in &abs {
        for (t, b) in &abs {
            ctx.case(
                || format!("compare {s:?} {t:?}"),
                || {
                    let (p, q) = (Path::new(s), Path::new(t));
                    if (a == b) != (p == q) || a.cmp(b) != p.cmp(q) {
                        return Err("differs from comparing the paths".into());
                    }
                    if hash(&|h| a.hash(h)) != hash(&|h| p.hash(h)) {
                        return Err("hashes unlike its path".into());
                    }
                    Ok(())
                },
            );
        }
    }
    // look-up through the borrowed form
    let map: HashMap<AbsolutePath, usize> = abs.iter().enumerate().map(|(i, a)| (a.1.clone(), i)).collect();
    for s in &small {
        ctx.case(
            || format!("look up {s:?}"),
            || {
                let want = abs.iter().any(|a| Path::new(&a.0) == Path::new(s));
                if map.contains_key(Path::new(s)) == want {
                    Ok(())
                } else {
                    Err(format!("found: {}", !want))
                }
            },
        );
    }
    ctx.sample(|| "HostPath \"./a\" pop -> \".\"; pop -> false; push \"/b\" -> \"/b\"".into());
}
