//! C06: validated names accept exactly their documented grammar on every route.
//!
//! Each grammar is a regular language written from the documentation, turned into a minimal DFA.
//! Exploration is the W-method: from every state (by its access word), every word over the whole
//! alphabet up to depth 1 and over the character classes up to depth 2/3, followed by every word of
//! the characterising set, is executed on the implementation through every construction route. On
//! top of it, all words over the classes up to a length bound and pumped words through every loop.
use std::{borrow::Cow, path::Path, path::PathBuf};

use compose_spec::{
    service::{
        image, user, volumes,
        Hostname, Image,
    },
    ExtensionKey, Identifier, MapKey, Name,
};
use serde::de::{
    value::{BorrowedStrDeserializer, Error as ValueError, StrDeserializer, StringDeserializer},
    Deserialize, IntoDeserializer,
};

use crate::{
    engine::Ctx,
    rx::{self, alt, and, any, cat, lit, neg, not, opt, plus, rep, seq, set, star, Dfa, Rx},
};

type Obs = Option<String>;

pub struct NameType {
    pub name: &'static str,
    rx: Rx,
    /// Words whose verdict is not specified.
    unspec: fn(&str) -> bool,
    /// All routes: the accepted text.
    routes: fn(&str, &mut Vec<(&'static str, Obs)>),
    /// Longest words over classes to enumerate (quick, thorough).
    depth: (usize, usize),
    /// Extra words to enumerate, for grammars with long counters.
    pump: bool,
}

fn de<'a, T: Deserialize<'a>>(s: &'a str) -> [Option<T>; 3] {
    let d: StrDeserializer<ValueError> = s.into_deserializer();
    let e: StringDeserializer<ValueError> = s.to_owned().into_deserializer();
    let f: BorrowedStrDeserializer<ValueError> = BorrowedStrDeserializer::new(s);
    [
        T::deserialize(d).ok(),
        T::deserialize(e).ok(),
        T::deserialize(f).ok(),
    ]
}

macro_rules! str_routes {
    ($T:ty, $text:expr, $s:expr, $out:expr; $($route:ident),*) => {{
        let s: &str = $s;
        let text = $text;
        $( str_routes!(@one $route, $T, text, s, $out); )*
        let [a, b, c] = de::<$T>(s);
        $out.push(("deserialize str", a.map(text)));
        $out.push(("deserialize string", b.map(text)));
        $out.push(("deserialize borrowed", c.map(text)));
    }};
    (@one new, $T:ty, $text:expr, $s:expr, $out:expr) => {
        $out.push(("new(&str)", <$T>::new($s).ok().map($text)));
        $out.push(("new(String)", <$T>::new($s.to_owned()).ok().map($text)));
    };
    (@one parse, $T:ty, $text:expr, $s:expr, $out:expr) => {
        $out.push(("parse(&str)", <$T>::parse($s).ok().map($text)));
        $out.push(("parse(String)", <$T>::parse($s.to_owned()).ok().map($text)));
    };
    (@one from_str, $T:ty, $text:expr, $s:expr, $out:expr) => {
        $out.push(("from_str", $s.parse::<$T>().ok().map($text)));
    };
    (@one str, $T:ty, $text:expr, $s:expr, $out:expr) => {
        $out.push(("try_from(&str)", <$T>::try_from($s).ok().map($text)));
    };
    (@one string, $T:ty, $text:expr, $s:expr, $out:expr) => {
        $out.push(("try_from(String)", <$T>::try_from($s.to_owned()).ok().map($text)));
    };
    (@one boxed, $T:ty, $text:expr, $s:expr, $out:expr) => {
        $out.push(("try_from(Box<str>)", <$T>::try_from(Box::<str>::from($s)).ok().map($text)));
    };
    (@one cow, $T:ty, $text:expr, $s:expr, $out:expr) => {
        $out.push(("try_from(Cow::Borrowed)", <$T>::try_from(Cow::Borrowed($s)).ok().map($text)));
        $out.push(("try_from(Cow::Owned)", <$T>::try_from(Cow::<str>::Owned($s.to_owned())).ok().map($text)));
    };
}

macro_rules! key_text {
    ($T:ident) => {
        |v: $T| {
            let s = v.as_str().to_owned();
            let d = v.to_string();
            let a: &str = v.as_ref();
            if d != s || a != s {
                return format!("<<as_str {s:?} display {d:?} as_ref {a:?}>>");
            }
            let b = String::from(Box::<str>::from(v.clone()));
            let o = String::from(v);
            if b != s || o != s {
                return format!("<<as_str {s:?} box {b:?} into {o:?}>>");
            }
            s
        }
    };
}

fn uname_text(v: user::Name) -> String {
    let s = v.as_str().to_owned();
    let d = v.to_string();
    let o = String::from(v);
    if d != s || o != s {
        return format!("<<as_str {s:?} display {d:?} into {o:?}>>");
    }
    s
}

fn path_text(p: &Path) -> String {
    p.to_str().map_or_else(|| "<<not utf-8>>".to_owned(), str::to_owned)
}

macro_rules! path_routes {
    ($T:ty, $s:expr, $out:expr) => {{
        let s: &str = $s;
        let text = |p: $T| {
            let t = path_text(p.as_path());
            let u = path_text(p.as_inner());
            let r: &Path = p.as_ref();
            let u2 = path_text(r);
            let u3 = path_text(&PathBuf::from(p.clone()));
            let u4 = path_text(&Box::<Path>::from(p.clone()));
            let u5 = path_text(&p.into_inner());
            if u != t || u2 != t || u3 != t || u4 != t || u5 != t {
                return format!("<<{t:?} {u:?} {u2:?} {u3:?} {u4:?} {u5:?}>>");
            }
            t
        };
        $out.push(("new(&str)", <$T>::new(s).ok().map(text)));
        $out.push(("new(PathBuf)", <$T>::new(PathBuf::from(s)).ok().map(text)));
        $out.push(("from_str", s.parse::<$T>().ok().map(text)));
        $out.push(("try_from(&str)", <$T>::try_from(s).ok().map(text)));
        $out.push(("try_from(String)", <$T>::try_from(s.to_owned()).ok().map(text)));
        $out.push(("try_from(PathBuf)", <$T>::try_from(PathBuf::from(s)).ok().map(text)));
        $out.push(("try_from(&Path)", <$T>::try_from(Path::new(s)).ok().map(text)));
        $out.push(("try_from(Box<Path>)", <$T>::try_from(Box::<Path>::from(Path::new(s))).ok().map(text)));
        $out.push(("try_from(Cow<Path>)", <$T>::try_from(Cow::Borrowed(Path::new(s))).ok().map(text)));
        $out.push(("try_from(Cow<Path> owned)", <$T>::try_from(Cow::<Path>::Owned(PathBuf::from(s))).ok().map(text)));
        let [a, b, c] = de::<$T>(s);
        $out.push(("deserialize str", a.map(text)));
        $out.push(("deserialize string", b.map(text)));
        $out.push(("deserialize borrowed", c.map(text)));
    }};
}

/// Port number 0..=65535, with any leading zeros.
fn port_rx() -> Rx {
    let d = set("0-9");
    cat(
        star(lit("0")),
        alt([
            lit("0"),
            cat(set("1-9"), rep(&d, 0, 3)),
            cat(set("1-5"), rep(&d, 4, 4)),
            seq([lit("6"), set("0-4"), rep(&d, 3, 3)]),
            seq([lit("65"), set("0-4"), rep(&d, 2, 2)]),
            seq([lit("655"), set("0-2"), rep(&d, 1, 1)]),
            cat(lit("6553"), set("0-5")),
        ]),
    )
}

pub fn image_name_rx() -> Rx {
    let an = set("a-z0-9");
    let sep = alt([lit("."), lit("_"), lit("__"), plus(lit("-"))]);
    let part = cat(plus(an.clone()), star(cat(sep, plus(an))));
    let has_dot = seq([star(any()), lit("."), star(any())]);
    let first = alt([
        part.clone(),
        seq([and([part.clone(), has_dot]), lit(":"), port_rx()]),
    ]);
    cat(first, star(cat(lit("/"), part)))
}

pub fn tag_rx() -> Rx {
    rep(&set("a-zA-Z0-9._-"), 1, 128)
}

pub fn digest_rx() -> Rx {
    let an = plus(set("a-z0-9"));
    seq([
        an.clone(),
        star(cat(set("+._-"), an)),
        lit(":"),
        plus(set("a-zA-Z0-9=_-")),
    ])
}

pub fn identifier_rx() -> Rx {
    cat(set("a-zA-Z0-9"), star(set("a-zA-Z0-9._-")))
}

fn host_path_rx() -> Rx {
    alt([
        cat(lit("/"), star(any())),
        lit("."),
        lit(".."),
        cat(lit("./"), star(any())),
        cat(lit("../"), star(any())),
    ])
}

fn plus_sign(s: &str) -> bool {
    s.contains(":+")
}

/// A name which is only a registry with a port, followed by a tag or digest: whether the port is a
/// tag is ambiguous.
pub fn bare_registry_port(s: &str) -> bool {
    let (name, digest) = s.split_once('@').map_or((s, false), |(n, _)| (n, true));
    !name.contains('/')
        && name.contains('.')
        && name.matches(':').count() + usize::from(digest) >= 2
}

/// Whether an otherwise valid image has a tag which is longer than 128 characters.
fn long_tag(t: &NameType, s: &str) -> bool {
    t.name == "Image"
        && !s.contains('@')
        && s.rsplit_once(':')
            .is_some_and(|(_, tag)| !tag.contains('/') && tag.len() > 128)
}

pub fn types() -> Vec<NameType> {
    let never: fn(&str) -> bool = |_| false;
    vec![
        NameType {
            name: "Name",
            rx: cat(set("a-z0-9"), star(set("a-z0-9_-"))),
            unspec: never,
            routes: |s, out| {
                fn text(v: Name) -> String {
                    let s = v.as_str().to_owned();
                    let d = v.to_string();
                    let b = String::from(Box::<str>::from(v.clone()));
                    let o = String::from(v);
                    if d != s || o != s || b != s {
                        return format!("<<{s:?} {d:?} {o:?} {b:?}>>");
                    }
                    s
                }
                str_routes!(Name, text, s, out; new, from_str, str, string, boxed);
            },
            depth: (5, 6),
            pump: true,
        },
        NameType {
            name: "Identifier",
            rx: identifier_rx(),
            unspec: never,
            routes: |s, out| str_routes!(Identifier, key_text!(Identifier), s, out; new, from_str, str, string, boxed, cow),
            depth: (6, 7),
            pump: true,
        },
        NameType {
            name: "MapKey",
            rx: plus(not("\n")),
            unspec: never,
            routes: |s, out| str_routes!(MapKey, key_text!(MapKey), s, out; new, from_str, str, string, boxed, cow),
            depth: (8, 10),
            pump: true,
        },
        NameType {
            name: "ExtensionKey",
            rx: cat(lit("x-"), star(not("\n"))),
            unspec: never,
            routes: |s, out| {
                fn text(v: ExtensionKey) -> String {
                    if format!("x-{}", v.strip_prefix()) != v.as_str() {
                        return format!("<<strip_prefix {:?}>>", v.strip_prefix());
                    }
                    key_text!(ExtensionKey)(v)
                }
                str_routes!(ExtensionKey, text, s, out; new, from_str, str, string, boxed, cow);
            },
            depth: (6, 7),
            pump: true,
        },
        NameType {
            name: "Hostname",
            rx: {
                let an = set("a-zA-Z0-9");
                let label = cat(an.clone(), opt(cat(star(set("a-zA-Z0-9-")), an)));
                cat(label.clone(), star(cat(lit("."), label)))
            },
            unspec: never,
            routes: |s, out| str_routes!(Hostname, key_text!(Hostname), s, out; new, from_str, str, string, boxed, cow),
            depth: (7, 9),
            pump: true,
        },
        NameType {
            name: "user::Name",
            rx: and([
                cat(star(set("a-zA-Z0-9_-")), opt(lit("$"))),
                neg(cat(lit("-"), star(any()))),
                neg(star(set("0-9"))),
                rep(&any(), 1, 32),
            ]),
            unspec: never,
            routes: |s, out| str_routes!(user::Name, uname_text, s, out; new, from_str, str, string, boxed, cow),
            depth: (6, 7),
            pump: false,
        },
        NameType {
            name: "image::Name",
            rx: image_name_rx(),
            unspec: plus_sign,
            routes: |s, out| {
                let text = |v: image::Name| v.into_inner().to_owned();
                out.push(("new", image::Name::new(s).ok().map(text)));
                out.push(("try_from", image::Name::try_from(s).ok().map(text)));
            },
            depth: (5, 6),
            pump: true,
        },
        NameType {
            name: "image::Tag",
            rx: tag_rx(),
            unspec: never,
            routes: |s, out| {
                let text = |v: image::Tag| v.into_inner().to_owned();
                out.push(("new", image::Tag::new(s).ok().map(text)));
                out.push(("try_from", image::Tag::try_from(s).ok().map(text)));
            },
            depth: (6, 7),
            pump: false,
        },
        NameType {
            name: "image::Digest",
            rx: digest_rx(),
            unspec: never,
            routes: |s, out| {
                let text = |v: image::Digest| v.into_inner().to_owned();
                out.push(("new", image::Digest::new(s).ok().map(text)));
                out.push(("try_from", image::Digest::try_from(s).ok().map(text)));
            },
            depth: (6, 7),
            pump: true,
        },
        NameType {
            name: "Image",
            rx: {
                // a name which is only a registry cannot have a port here, it would be the tag
                let an = set("a-z0-9");
                let sep = alt([lit("."), lit("_"), lit("__"), plus(lit("-"))]);
                let part = cat(plus(an.clone()), star(cat(sep, plus(an))));
                let has_dot = seq([star(any()), lit("."), star(any())]);
                let more = cat(lit("/"), part.clone());
                let name = alt([
                    cat(part.clone(), star(more.clone())),
                    seq([and([part, has_dot]), lit(":"), port_rx(), plus(more)]),
                ]);
                cat(
                    name,
                    // the length of the tag is counted apart, see `long_tag`
                    opt(alt([
                        cat(lit(":"), plus(set("a-zA-Z0-9._-"))),
                        cat(lit("@"), digest_rx()),
                    ])),
                )
            },
            unspec: |s| plus_sign(s) || bare_registry_port(s),
            routes: |s, out| {
                let text = |v: Image| v.into_inner();
                str_routes!(Image, text, s, out; parse, from_str, str, string, boxed, cow);
            },
            depth: (4, 5),
            pump: true,
        },
        NameType {
            name: "AbsolutePath",
            rx: cat(lit("/"), star(any())),
            unspec: never,
            routes: |s, out| path_routes!(compose_spec::service::AbsolutePath, s, out),
            depth: (8, 10),
            pump: true,
        },
        NameType {
            name: "HostPath",
            rx: host_path_rx(),
            unspec: never,
            routes: |s, out| path_routes!(volumes::HostPath, s, out),
            depth: (7, 9),
            pump: true,
        },
        NameType {
            name: "volumes::Source",
            rx: alt([host_path_rx(), identifier_rx()]),
            unspec: never,
            routes: |s, out| {
                let text = |v: volumes::Source| v.to_string();
                out.push(("parse", volumes::Source::parse(s).ok().map(text)));
                out.push(("from_str", s.parse::<volumes::Source>().ok().map(text)));
                out.push(("try_from(&str)", volumes::Source::try_from(s).ok().map(text)));
                out.push((
                    "try_from(String)",
                    volumes::Source::try_from(s.to_owned()).ok().map(text),
                ));
            },
            depth: (6, 7),
            pump: true,
        },
    ]
}

fn check(ctx: &Ctx, t: &NameType, dfa: &Dfa, word: &str) {
    if (t.unspec)(word) {
        return;
    }
    let want = dfa.run(word) && !long_tag(t, word);
    ctx.case(
        || format!("{} {:?}", t.name, word),
        || {
            let mut out = Vec::with_capacity(16);
            (t.routes)(word, &mut out);
            for (route, got) in &out {
                match (want, got) {
                    (true, None) => return Err(format!("{route} rejects a valid {}", t.name)),
                    (false, Some(_)) => {
                        return Err(format!("{route} accepts an invalid {}", t.name))
                    }
                    (true, Some(g)) if g != word => {
                        return Err(format!("{route} stores {g:?} for {word:?}"))
                    }
                    _ => {}
                }
            }
            Ok(())
        },
    );
}

pub fn run(ctx: &Ctx) {
    let alphabet = rx::alphabet();
    for t in types() {
        let dfa = match t.name {
            // counting languages: keep the alphabet of the automaton the same
            _ => Dfa::new(&t.rx, &alphabet),
        };
        let ns = dfa.next.len();
        if std::env::var_os("MC_TIME").is_some() { eprintln!("  dfa {ns} w {} cl {} {:?}", dfa.w.len(), dfa.classes.len(), ctx.elapsed()); }
        ctx.add_states(ns as u64);
        ctx.add_transitions((ns * dfa.alphabet.len()) as u64);
        ctx.part(&format!("{}: automaton states", t.name), ns as u64);
        let acc = dfa.accept.iter().filter(|a| **a).count();
        ctx.outcome(&format!("{}: accepting states", t.name), acc as u64);
        let before = ctx.traces.load(std::sync::atomic::Ordering::Relaxed);
        let big = ns > 60;
        // W-method, depth 1 over the whole alphabet; the characterising set of a counting
        // automaton has about as many words as states
        ctx.par(ns, |s| {
            let a = &dfa.access[s];
            if ns > 300 && !ctx.thorough() && (14..125).contains(&a.len()) {
                return; // in the middle of counting the length of a tag
            }
            for w in &dfa.w {
                if ns > 300 && !ctx.thorough() && (14..123).contains(&w.len()) {
                    continue;
                }
                check(ctx, &t, &dfa, &format!("{a}{w}"));
                for c in &dfa.alphabet {
                    if big && w.len() > 1 && !dfa.classes.contains(c) {
                        continue;
                    }
                    check(ctx, &t, &dfa, &format!("{a}{c}{w}"));
                }
            }
        });
        // depth 2 (and 3 in the thorough tier) over class representatives
        if !big || ctx.thorough() || ns < 300 {
            let cl = &dfa.classes;
            let k = cl.len();
            ctx.par(ns * k, |i| {
                let (s, c) = (i / k, cl[i % k]);
                let a = &dfa.access[s];
                for d in cl {
                    for w in &dfa.w {
                        if big && w.len() > 2 {
                            continue;
                        }
                        check(ctx, &t, &dfa, &format!("{a}{c}{d}{w}"));
                        if ctx.thorough() && !big {
                            for e in cl {
                                check(ctx, &t, &dfa, &format!("{a}{c}{d}{e}{w}"));
                            }
                        }
                    }
                }
            });
        }
        // all words over class representatives up to the depth bound
        let depth = ctx.pick(t.depth.0, t.depth.1);
        let k = dfa.classes.len();
        for len in 0..=depth {
            let n = k.pow(u32::try_from(len).unwrap());
            if n > ctx.pick(1_500_000, 30_000_000) {
                break;
            }
            ctx.part(&format!("{}: all words over {k} classes to length", t.name), u64::from(len > 0));
            ctx.par(n, |mut i| {
                let mut w = String::new();
                for _ in 0..len {
                    w.push(dfa.classes[i % k]);
                    i /= k;
                }
                check(ctx, &t, &dfa, &w);
            });
        }
        // all words over a finer set of characters, which the model does not tell apart
        let fine: Vec<char> = "az09AZ._-:/@+=$x \n\r\té".chars().collect();
        let k = fine.len();
        for len in 1..=ctx.pick(4, 5) {
            ctx.par(k.pow(len), |mut i| {
                let mut w = String::new();
                for _ in 0..len {
                    w.push(fine[i % k]);
                    i /= k;
                }
                check(ctx, &t, &dfa, &w);
            });
        }
        // all characters of Unicode in first, middle and last position of a valid word
        let base: Vec<String> = (0..ns)
            .filter(|s| dfa.accept[*s])
            .map(|s| dfa.access[s].clone())
            .take(3)
            .collect();
        let step = ctx.pick(1usize, 1);
        let extended: usize = ctx.pick(0x3000, 0x11_0000);
        ctx.par(extended / step, |i| {
            let Some(c) = char::from_u32((i * step) as u32) else {
                return;
            };
            // characters outside the automaton's alphabet act as U+0080 there
            let model = if dfa.alphabet.contains(&c) { c } else { '\u{80}' };
            for b in &base {
                for pos in [0, b.len() / 2, b.len()] {
                    if !b.is_char_boundary(pos) {
                        continue;
                    }
                    let (x, y) = b.split_at(pos);
                    let word = format!("{x}{c}{y}");
                    if (t.unspec)(&word) {
                        continue;
                    }
                    let want = dfa.run(&format!("{x}{model}{y}")) && !long_tag(&t, &word);
                    ctx.case(
                        || format!("{} {:?}", t.name, word),
                        || {
                            let mut out = Vec::with_capacity(16);
                            (t.routes)(&word, &mut out);
                            for (route, got) in &out {
                                if got.is_some() != want {
                                    return Err(format!("{route} accepts={} model={want}", got.is_some()));
                                }
                                if got.as_ref().is_some_and(|g| *g != word) {
                                    return Err(format!("{route} stores {got:?}"));
                                }
                            }
                            Ok(())
                        },
                    );
                }
            }
        });
        // pumping every short loop
        if t.pump {
            let mut lens: Vec<usize> = (2..=ctx.pick(40, 140)).collect();
            lens.extend([
                62, 63, 64, 65, 66, 126, 127, 128, 129, 130, 252, 253, 254, 255, 256, 257, 258, 511,
                512, 513, 1023, 1024, 1025,
            ]);
            if big && !ctx.thorough() {
                lens.retain(|n| *n < 5 || *n > 60);
            }
            if ctx.thorough() {
                lens.extend([4095, 4096, 4097, 65534, 65535, 65536, 65537]);
            }
            let mut jobs = Vec::new();
            for s in 0..ns {
                for c in &dfa.classes {
                    for d in &dfa.classes {
                        let ci = dfa.alphabet.iter().position(|x| x == c).unwrap();
                        let di = dfa.alphabet.iter().position(|x| x == d).unwrap();
                        let m = dfa.next[s][ci];
                        let r = if c == d { m } else { dfa.next[m][di] };
                        if r == s && live(&dfa, s) && (!big || dfa.access[s].len() < 6) {
                            jobs.push((s, *c, *d));
                        }
                    }
                }
            }
            ctx.part(&format!("{}: pumped loops", t.name), jobs.len() as u64);
            ctx.par(jobs.len() * lens.len(), |i| {
                let (s, c, d) = jobs[i / lens.len()];
                let n = lens[i % lens.len()];
                let mut body = dfa.access[s].clone();
                for j in 0..n {
                    body.push(if j % 2 == 0 || c == d { c } else { d });
                }
                if c != d && !ctx.thorough() && n > 9 && ![17, 32, 33, 64, 65, 128, 129, 255, 257].contains(&n) {
                    return;
                }
                for w in &dfa.w {
                    check(ctx, &t, &dfa, &format!("{body}{w}"));
                }
                if c == d || ctx.thorough() {
                    for w in dfa.w.iter().take(ctx.pick(4, 100)) {
                        for x in &dfa.classes {
                            check(ctx, &t, &dfa, &format!("{body}{x}{w}"));
                        }
                    }
                }
                if c == d {
                    for x in &dfa.alphabet {
                        check(ctx, &t, &dfa, &format!("{body}{x}"));
                        check(ctx, &t, &dfa, &format!("{body}{x}{c}"));
                    }
                }
            });
        }
        if std::env::var_os("MC_TIME").is_some() {
            eprintln!("{}: {:?}", t.name, ctx.elapsed());
        }
        let after = ctx.traces.load(std::sync::atomic::Ordering::Relaxed);
        ctx.part(&format!("{}: words executed", t.name), after - before);
        ctx.sample(|| {
            format!(
                "{}: {} states, {} classes, W = {:?}, access words {:?}",
                t.name,
                ns,
                dfa.classes.len(),
                dfa.w.iter().take(4).collect::<Vec<_>>(),
                dfa.access.iter().take(5).collect::<Vec<_>>()
            )
        });
    }
}

fn live(dfa: &Dfa, s: usize) -> bool {
    let mut seen = vec![false; dfa.next.len()];
    let mut st = vec![s];
    while let Some(x) = st.pop() {
        if dfa.accept[x] {
            return true;
        }
        if !std::mem::replace(&mut seen[x], true) {
            st.extend(dfa.next[x].iter().copied());
        }
    }
    false
}
