//! C09: the image editing state machine.
//!
//! Model state: (registry, rest of the name, tag or digest) as strings. Every edit is a transition.
//! Breadth-first search over the model's reachable states checks every edit in every state on the
//! real `Image`; a second exploration runs every sequence of edits up to a depth without merging
//! states, since the offsets inside an `Image` are hidden state.
use std::{
    collections::{HashSet, VecDeque},
    hash::{DefaultHasher, Hash, Hasher},
};

use compose_spec::service::image::{Digest, Image, Name, Tag, TagOrDigest};

use crate::engine::Ctx;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Tod {
    None,
    Tag(&'static str),
    Digest(&'static str),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Model {
    registry: Option<&'static str>,
    /// Rest of the name; `None` if the registry is the entire name.
    rest: Option<&'static str>,
    tod: Tod,
}

impl Model {
    fn name(&self) -> String {
        match (self.registry, self.rest) {
            (Some(a), Some(b)) => format!("{a}/{b}"),
            (Some(a), None) | (None, Some(a)) => a.to_owned(),
            (None, None) => unreachable!(),
        }
    }
    fn text(&self) -> String {
        match self.tod {
            Tod::None => self.name(),
            Tod::Tag(t) => format!("{}:{t}", self.name()),
            Tod::Digest(d) => format!("{}@{d}", self.name()),
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    SetRegistry(Option<&'static str>),
    SetName(Option<&'static str>, Option<&'static str>),
    SetTag(Option<&'static str>),
    SetDigest(Option<&'static str>),
    SetTagOrDigestTag(&'static str),
    SetTagOrDigestDigest(&'static str),
    SetTagOrDigestNone,
    /// `Image::from_parts(image.as_parts())`
    Rebuild,
    /// `Image::from((image.as_name(), tag or digest of the image))` without the tag or digest
    KeepName,
    /// Clone, then drop the original.
    Clone,
    /// Parse the text again.
    Reparse,
}

const LONG_TAG: &str = "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx";
const SHA: &str = "sha256:075975296016084fc66b59c35c9d4504765d95aadcd5469f28d2b75750348fc5";

const REGS: &[&str] = &["quay.io", "docker.io", "a.b", "registry.example-host.com:5000", "quay.io:443"];
const RESTS: &[&str] = &["hello", "podman/hello", "a", "a__b/c-d/e---f"];
const TAGS: &[&str] = &["latest", "v", "1.2.3_A-b", LONG_TAG, "443"];
const DIGS: &[&str] = &[SHA, "a:b", "sha512+x:AB=_-9"];

fn ops() -> Vec<Op> {
    let mut v = vec![Op::SetRegistry(None)];
    v.extend(REGS.iter().map(|r| Op::SetRegistry(Some(r))));
    for rest in RESTS {
        v.push(Op::SetName(None, Some(rest)));
    }
    for (r, t) in [(0, 0), (3, 1), (2, 2), (4, 3)] {
        v.push(Op::SetName(Some(REGS[r]), Some(RESTS[t])));
    }
    v.push(Op::SetName(Some("a.b"), None));
    v.push(Op::SetTag(None));
    v.extend(TAGS.iter().map(|t| Op::SetTag(Some(t))));
    v.push(Op::SetDigest(None));
    v.extend(DIGS.iter().map(|t| Op::SetDigest(Some(t))));
    v.push(Op::SetTagOrDigestTag("latest"));
    v.push(Op::SetTagOrDigestTag("v"));
    v.push(Op::SetTagOrDigestDigest("a:b"));
    v.push(Op::SetTagOrDigestDigest(SHA));
    v.extend([Op::SetTagOrDigestNone, Op::Rebuild, Op::KeepName, Op::Clone, Op::Reparse]);
    v
}

fn step(m: &Model, op: Op) -> Option<Model> {
    let mut n = m.clone();
    match op {
        Op::SetRegistry(None) => {
            if n.rest.is_some() {
                n.registry = None;
            }
            // a registry which is the entire name cannot be removed
        }
        Op::SetRegistry(Some(r)) => {
            // a bare registry with a port cannot be told from a tag: outside of the domain
            if n.rest.is_none() && r.contains(':') {
                return None;
            }
            n.registry = Some(r);
        }
        Op::SetName(r, t) => {
            n.registry = r;
            n.rest = t;
        }
        Op::SetTag(None) | Op::SetDigest(None) | Op::SetTagOrDigestNone | Op::KeepName => {
            n.tod = Tod::None;
        }
        Op::SetTag(Some(t)) | Op::SetTagOrDigestTag(t) => n.tod = Tod::Tag(t),
        Op::SetDigest(Some(d)) | Op::SetTagOrDigestDigest(d) => n.tod = Tod::Digest(d),
        Op::Rebuild | Op::Clone | Op::Reparse => {}
    }
    Some(n)
}

fn apply(image: &mut Image, op: Op) -> Result<(), String> {
    match op {
        Op::SetRegistry(r) => {
            image.set_registry(r.map(|r| Name::new(r).expect("registry")));
        }
        Op::SetName(r, t) => {
            let name = match (r, t) {
                (Some(a), Some(b)) => format!("{a}/{b}"),
                (Some(a), None) | (None, Some(a)) => a.to_owned(),
                (None, None) => unreachable!(),
            };
            image.set_name(Name::new(&name).map_err(|e| format!("{name}: {e}"))?);
        }
        Op::SetTag(t) => image.set_tag(t.map(|t| Tag::new(t).expect("tag"))),
        Op::SetDigest(d) => image.set_digest(d.map(|d| Digest::new(d).expect("digest"))),
        Op::SetTagOrDigestTag(t) => {
            image.set_tag_or_digest(Some(TagOrDigest::from(Tag::new(t).expect("tag"))));
        }
        Op::SetTagOrDigestDigest(d) => {
            image.set_tag_or_digest(Some(TagOrDigest::from(Digest::new(d).expect("digest"))));
        }
        Op::SetTagOrDigestNone => image.set_tag_or_digest(None),
        Op::Rebuild => {
            let (name, tod) = image.as_parts();
            let new = Image::from_parts(name, tod);
            let (name, tod) = image.as_parts();
            let new2 = Image::from((name, tod));
            if new2 != new {
                return Err("From<(Name, Option<TagOrDigest>)> differs from from_parts".into());
            }
            *image = new;
        }
        Op::KeepName => *image = Image::from(image.as_name()),
        Op::Clone => {
            let c = image.clone();
            *image = c;
        }
        Op::Reparse => {
            *image = Image::parse(image.as_str()).map_err(|e| format!("reparse: {e}"))?;
        }
    }
    Ok(())
}

fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn parts_agree(what: &str, image: &Image, m: &Model) -> Result<(), String> {
    let text = m.text();
    let (tag, digest) = match m.tod {
        Tod::None => (None, None),
        Tod::Tag(t) => (Some(t), None),
        Tod::Digest(d) => (None, Some(d)),
    };
    macro_rules! eq {
        ($name:expr, $got:expr, $want:expr) => {
            let (g, w) = ($got, $want);
            if g != w {
                return Err(format!("{what}: {} is {g:?}, should be {w:?}", $name));
            }
        };
    }
    eq!("as_str", image.as_str(), text.as_str());
    eq!("registry", image.registry(), m.registry);
    let m_name = m.name();
    eq!("name", image.name(), m_name.as_str());
    eq!("tag", image.tag(), tag);
    eq!("digest", image.digest(), digest);
    eq!("as_tag", image.as_tag().map(Tag::into_inner), tag);
    eq!("as_digest", image.as_digest().map(Digest::into_inner), digest);
    eq!("as_name", image.as_name().into_inner(), m.name());
    let as_name = image.as_name();
    eq!("as_name().registry()", as_name.registry(), m.registry);
    let tod = image.as_tag_or_digest();
    eq!("as_tag_or_digest tag", tod.and_then(TagOrDigest::into_tag).map(Tag::into_inner), tag);
    eq!(
        "as_tag_or_digest digest",
        tod.and_then(TagOrDigest::into_digest).map(Digest::into_inner),
        digest
    );
    eq!(
        "as_tag_or_digest text",
        tod.as_ref().map(|t| AsRef::<str>::as_ref(t).to_owned()),
        tag.or(digest).map(str::to_owned)
    );
    eq!("separator", tod.map(|t| t.separator()), match m.tod {
        Tod::None => None,
        Tod::Tag(_) => Some(':'),
        Tod::Digest(_) => Some('@'),
    });
    let (name, tod2) = image.as_parts();
    eq!("as_parts name", name.into_inner(), m.name());
    eq!("as_parts tag or digest", tod2, tod);
    eq!("Display", image.to_string(), text.clone());
    eq!("AsRef", AsRef::<str>::as_ref(image), text.as_str());
    eq!("into_inner", image.clone().into_inner(), text.clone());
    eq!("into String", String::from(image.clone()), text.clone());
    Ok(())
}

fn agree(image: &Image, m: &Model) -> Result<(), String> {
    parts_agree("image", image, m)?;
    let text = m.text();
    let parsed = Image::parse(text.as_str()).map_err(|e| format!("{text:?} does not parse: {e}"))?;
    parts_agree("parsed text", &parsed, m)?;
    if parsed != *image || parsed.cmp(image).is_ne() || hash(&parsed) != hash(image) {
        return Err(format!("{image:?} is not equal to {parsed:?}"));
    }
    if hash(image) != hash(text.as_str()) || *image != *text.as_str() {
        return Err("image is not equal to its text".into());
    }
    // the same parts from scratch
    let name = m.name();
    let name = Name::new(&name).map_err(|e| e.to_string())?;
    let tod = match m.tod {
        Tod::None => None,
        Tod::Tag(t) => Some(TagOrDigest::Tag(Tag::new(t).map_err(|e| e.to_string())?)),
        Tod::Digest(d) => Some(TagOrDigest::Digest(Digest::new(d).map_err(|e| e.to_string())?)),
    };
    let built = Image::from_parts(name, tod);
    parts_agree("from_parts", &built, m)
}

fn inits() -> Vec<Model> {
    let mut v = Vec::new();
    for registry in [None, Some("quay.io"), Some("registry.example-host.com:5000"), Some("a.b")] {
        for rest in [None, Some("hello"), Some("podman/hello")] {
            for tod in [Tod::None, Tod::Tag("latest"), Tod::Digest(SHA), Tod::Tag("443")] {
                if rest.is_none() && registry.map_or(true, |r: &str| r.contains(':')) {
                    continue;
                }
                v.push(Model { registry, rest, tod });
            }
        }
    }
    v
}

pub fn run(ctx: &Ctx) {
    let ops = ops();
    // 1: reachable states of the model
    let mut seen: HashSet<Model> = HashSet::new();
    let mut queue: VecDeque<Model> = VecDeque::new();
    let mut order = Vec::new();
    for m in inits() {
        if seen.insert(m.clone()) {
            queue.push_back(m);
        }
    }
    let mut transitions = 0;
    while let Some(m) = queue.pop_front() {
        for op in &ops {
            if let Some(n) = step(&m, *op) {
                transitions += 1;
                if seen.insert(n.clone()) {
                    queue.push_back(n);
                }
            }
        }
        order.push(m);
    }
    ctx.add_states(order.len() as u64);
    ctx.add_transitions(transitions);
    ctx.part("reachable model states", order.len() as u64);
    ctx.sample(|| format!("{:?}", order.iter().map(Model::text).take(6).collect::<Vec<_>>()));
    // each edge on the implementation, from a parsed and from a built image
    ctx.par(order.len() * ops.len(), |i| {
        let (m, op) = (&order[i / ops.len()], ops[i % ops.len()]);
        let Some(n) = step(m, op) else { return };
        ctx.case(
            || format!("{:?} then {op:?}", m.text()),
            || {
                let mut image = Image::parse(m.text()).map_err(|e| format!("{}: {e}", m.text()))?;
                agree(&image, m)?;
                apply(&mut image, op)?;
                agree(&image, &n)
            },
        );
    });
    // 2: all sequences of edits up to a depth, states not merged
    let depth = ctx.pick(3, 4);
    let starts = inits();
    let k = ops.len();
    let n = starts.len() * k * k;
    ctx.part("sequence depth", depth);
    let leaves = std::sync::atomic::AtomicU64::new(0);
    ctx.par(n, |i| {
        let m0 = &starts[i / (k * k)];
        let prefix = [ops[i / k % k], ops[i % k]];
        let mut m = m0.clone();
        for op in prefix {
            let Some(next) = step(&m, op) else { return };
            m = next;
        }
        // the prefix on the implementation
        let key = |tail: &[Op]| format!("{:?} then {prefix:?} {tail:?}", m0.text());
        let run = |tail: &[Op], want: &Model, full: bool| {
            leaves.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            ctx.case(
                || key(tail),
                || {
                    let mut image = Image::parse(m0.text()).map_err(|e| e.to_string())?;
                    for op in prefix.iter().chain(tail) {
                        apply(&mut image, *op)?;
                    }
                    if full {
                        agree(&image, want)
                    } else {
                        parts_agree("image", &image, want)
                    }
                },
            );
        };
        run(&[], &m, true);
        for a in &ops {
            let Some(ma) = step(&m, *a) else { continue };
            run(&[*a], &ma, true);
            if depth > 3 {
                for b in &ops {
                    let Some(mb) = step(&ma, *b) else { continue };
                    run(&[*a, *b], &mb, false);
                }
            }
        }
    });
    let l = leaves.into_inner();
    ctx.part("edit sequences executed", l);
    ctx.add_transitions(l);
    ctx.outcome("distinct texts reached", order.iter().map(Model::text).collect::<HashSet<_>>().len() as u64);
}
