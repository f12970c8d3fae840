//! C11: merge keys mean their expansion, and all routes of reading agree.
use std::io::{self, Read};

use compose_spec::Compose;
use serde_yaml::Value;

use crate::{
    doc::{hosts, junk, mutants, Table},
    engine::{guard, Ctx},
    schema as sc,
    y::{i, l, m, o, s as st, Y},
};

pub const ASSUME: &[&str] = &[
    "where merged keys stand among each other is not judged, the order of the keys written explicitly is",
    "a plain number or boolean for a text attribute, and null for a mapping or list, are judged through the known findings only: YAML values treat them differently",
];

type R = Result<Compose, String>;

fn e(t: impl std::fmt::Display) -> String {
    t.to_string()
}

/// A reader which gives few bytes at a time and is sometimes interrupted.
struct Chunks<'a> {
    rest: &'a [u8],
    size: usize,
    turn: usize,
    /// Fails when so many bytes are left.
    fail_at: Option<usize>,
}

impl Read for Chunks<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.turn += 1;
        if self.turn % 3 == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = self.size.min(buf.len()).min(self.rest.len());
        if let Some(f) = self.fail_at {
            if self.rest.len() <= f {
                return Err(io::Error::new(io::ErrorKind::Other, "fault"));
            }
            n = n.min(self.rest.len() - f);
        }
        buf[..n].copy_from_slice(&self.rest[..n]);
        self.rest = &self.rest[n..];
        Ok(n)
    }
}

fn chunks(text: &str, size: usize) -> Chunks<'_> {
    Chunks { rest: text.as_bytes(), size, turn: 0, fail_at: None }
}

/// All ways of reading the text. The value route only where it says the same as the text.
fn routes(text: &str, merge: bool) -> Vec<(&'static str, R)> {
    let mut o = Compose::options();
    o.apply_merge(merge);
    let mut v = vec![
        ("str", o.from_yaml_str(text).map_err(e)),
        ("slice", o.from_yaml_slice(text.as_bytes()).map_err(e)),
        ("reader", o.from_yaml_reader(text.as_bytes()).map_err(e)),
        ("reader by 1", o.from_yaml_reader(chunks(text, 1)).map_err(e)),
    ];
    if merge {
        v.push((
            "value",
            serde_yaml::from_str::<Value>(text).map_err(e).and_then(|v| o.from_yaml_value(v).map_err(e)),
        ));
    } else {
        v.push(("Deserialize", serde_yaml::from_str(text).map_err(e)));
    }
    v
}

fn agree(v: &[(&'static str, R)]) -> Result<(), String> {
    for (name, r) in &v[1..] {
        match (&v[0].1, r) {
            (Ok(a), Ok(b)) if a == b => {}
            (Err(_), Err(_)) => {}
            (a, b) => return Err(format!("{}: {a:?}, {name}: {b:?}", v[0].0)),
        }
    }
    Ok(())
}

/// Does every scalar of the document mean the same as text and as a value?
fn quoted(y: &Y) -> bool {
    match y {
        Y::S(_) => true,
        Y::Null | Y::I(_) | Y::B(_) | Y::F(_) | Y::Raw(_) => false,
        Y::L(v) => v.iter().all(quoted),
        Y::M(v) | Y::O(v) => v.iter().all(|(_, y)| quoted(y)),
    }
}

fn values(ctx: &Ctx) {
    let s = sc::compose();
    let svc = sc::service_();
    let mut all = hosts(&s, true);
    all.extend(hosts(&svc, true).into_iter().map(|d| m([("services", o([("s", d)]))])));
    ctx.part("documents read by all routes", all.len() as u64);
    let judge = |text: &str, faithful: bool| -> Result<(), String> {
        let plain = routes(text, false);
        agree(&plain)?;
        let merged = routes(text, true);
        agree(&merged)?;
        let v: Result<Value, String> = serde_yaml::from_str(text).map_err(e);
        let value = v.and_then(|v| Compose::options().from_yaml_value(v).map_err(e));
        if text.contains("<<") {
            return Ok(());
        }
        let merged = &merged[0].1;
        match (&value, merged) {
            (Ok(a), Ok(b)) if a == b => {}
            (Err(_), Err(_)) => {}
            (a, b) => return Err(format!("value: {a:?}, with merging: {b:?}")),
        }
        match (&plain[0].1, &value) {
            (Ok(a), Ok(b)) if a == b => Ok(()),
            (Err(_), Err(_)) => Ok(()),
            (Ok(_), Err(_)) if !faithful => Ok(()),
            // null for a mapping or a list
            (Err(_), Ok(_)) if !faithful && text.contains("null") => Ok(()),
            (a, b) => Err(format!("text: {a:?}, value: {b:?}")),
        }
    };
    ctx.par(all.len(), |k| {
        for text in [all[k].flow(), all[k].block()] {
            ctx.add_states(1);
            ctx.case(|| format!("routes {text}"), || judge(&text, true));
        }
    });
    let junk = junk();
    let small: Vec<Y> = all.iter().filter(|d| d.paths().len() < ctx.pick(6, 12)).cloned().collect();
    let n = mutants(ctx, &small, &junk, |doc| {
        let text = doc.flow();
        // junk which is not text is not the same as a value
        let faithful = quoted(doc);
        ctx.case(|| format!("routes {text}"), || judge(&text, faithful));
    });
    ctx.add_states(n);
    ctx.part("mutated documents read by all routes", n);
}

/// Text which is no YAML, or not UTF-8, or stops early, or comes from a failing reader.
fn streams(ctx: &Ctx) {
    let s = sc::compose();
    let t = Table::new(&s.items);
    let doc = m([
        ("name", st("n")),
        ("services", o([("a", m([("image", st("i")), ("command", l([st("x"), st("é")]))])), ("b", Y::Null)])),
        ("x-a", o([("<<", o([("k", i(1))]))])),
    ]);
    let mut big = s.base_doc.clone();
    for k in t.complete(&[], 0..s.items.len()) {
        big.merge(&s.items[k].forms[0]);
    }
    let texts = [doc.block(), doc.flow(), big.block(), s.base_doc.block()];
    for text in &texts {
        let step = if text.len() > 4000 { ctx.pick(97, 7) } else { 1 };
        let cuts: Vec<usize> = (0..=text.len()).step_by(step).collect();
        ctx.part("faults of readers", cuts.len() as u64);
        ctx.par(cuts.len(), |k| {
            let cut = cuts[k];
            for merge in [false, true] {
                let mut opt = Compose::options();
                opt.apply_merge(merge);
                ctx.add_states(1);
                ctx.case(
                    || format!("reader failing at {cut} of {text:?}"),
                    || {
                        let r = opt.from_yaml_reader(Chunks {
                            rest: text.as_bytes(),
                            size: 16,
                            turn: 0,
                            fail_at: Some(text.len() - cut),
                        });
                        match r {
                            Ok(c) => Err(format!("accepted as {c:?}")),
                            Err(_) => Ok(()),
                        }
                    },
                );
                // cut short: all routes agree on what is left
                let Some(part) = text.get(..cut) else {
                    let bytes = &text.as_bytes()[..cut];
                    ctx.case(
                        || format!("bytes {bytes:?}"),
                        || {
                            if opt.from_yaml_slice(bytes).is_ok() || opt.from_yaml_reader(bytes).is_ok() {
                                return Err("not UTF-8, but accepted".into());
                            }
                            Ok(())
                        },
                    );
                    continue;
                };
                ctx.case(|| format!("cut {part:?}"), || agree(&routes(part, merge)));
            }
        });
        for size in 1..ctx.pick(9, 65) {
            ctx.case(
                || format!("reader by {size} of {text:?}"),
                || {
                    for merge in [false, true] {
                        let mut opt = Compose::options();
                        opt.apply_merge(merge);
                        let a = opt.from_yaml_str(text).map_err(e);
                        let b = opt.from_yaml_reader(chunks(text, size)).map_err(e);
                        if a.is_ok() != b.is_ok() || a.as_ref().ok() != b.as_ref().ok() {
                            return Err(format!("str {a:?}, reader {b:?}"));
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // several documents, none, comments, byte order marks
    for text in [
        "", " ", "\n", "---\n", "...\n", "# a\n", "null", "~", "{}", "[]", "a", "services: {}\n---\nservices: {}\n",
        "---\nservices: {}\n...\n", "\u{feff}services: {}\n", "services: {}\n# c", "services: {}\r\nx-a: 1\r\n", "%YAML 1.2\n---\nservices: {}\n",
        "services: {}\n\t", "services: {}\nservices: {}\n", "? services\n: {}\n", "!t {services: {}}", "&a {services: {}}", "{services: {}, x-a: &a {<<: *a}}",
        "services: {}\nx-a: &a [*a]\n", "services: {}\n<<: {name: n}\n", "<<: {services: {}}\n", "services: {<<: {a: {}}}", "services: {}\nx-a: {<<: 1}",
        "services: {}\nx-a: {<<: null}", "services: {}\nx-a: {<<: []}", "services: {}\nx-a: {<<: {}}", "services: {}\nx-a: {<<: [1]}",
        "services: {}\nx-a: {<<: [[]]}", "services: {}\nx-a: {<<: !t {a: 1}}", "services: {}\nx-a: {<<: [!t {a: 1}]}", "services: {}\nx-a: !t {<<: {a: 1}}",
    ] {
        for merge in [false, true] {
            ctx.add_states(1);
            ctx.case(|| format!("merging {merge}: {text:?}"), || agree(&routes(text, merge)));
        }
    }
    // merges of what is no mapping are errors, of empty lists and mappings nothing
    for (merge, ok) in [
        ("1", false), ("null", false), ("a", false), ("true", false), ("[1]", false), ("[null]", false), ("[[]]", false),
        ("[{}, 1]", false), ("!t {a: 1}", false), ("{}", true), ("[]", true), ("[{}]", true), ("[{}, {}]", true),
    ] {
        for (at, text) in [
            ("x-a", format!("{{services: {{}}, x-a: {{<<: {merge}}}}}")),
            ("services", format!("{{services: {{<<: {merge}}}}}")),
            ("compose", format!("{{services: {{}}, <<: {merge}}}")),
            ("service", format!("{{services: {{s: {{<<: {merge}}}}}}}")),
            ("environment", format!("{{services: {{s: {{environment: {{<<: {merge}}}}}}}}}")),
            ("in a list", format!("{{services: {{}}, x-a: [{{<<: {merge}}}]}}")),
        ] {
            ctx.add_states(1);
            ctx.case(
                || format!("merge {merge} at {at}"),
                || {
                    let r = Compose::options().apply_merge(true).from_yaml_str(&text).map_err(e);
                    if r.is_ok() == ok {
                        Ok(())
                    } else {
                        Err(format!("{text}: {r:?}"))
                    }
                },
            );
        }
    }
}

/// All ways of reading bytes, with and without merging (for documents for which it makes no difference).
fn byte_routes(bytes: &[u8]) -> Vec<(&'static str, R)> {
    let chunks = |size| Chunks { rest: bytes, size, turn: 0, fail_at: None };
    let plain = Compose::options();
    let mut merging = Compose::options();
    merging.apply_merge(true);
    vec![
        ("slice", plain.from_yaml_slice(bytes).map_err(e)),
        ("slice, merging", merging.from_yaml_slice(bytes).map_err(e)),
        ("reader", plain.from_yaml_reader(bytes).map_err(e)),
        ("reader, merging", merging.from_yaml_reader(bytes).map_err(e)),
        ("reader by 1", plain.from_yaml_reader(chunks(1)).map_err(e)),
        ("reader by 3, merging", merging.from_yaml_reader(chunks(3)).map_err(e)),
        ("serde_yaml slice", serde_yaml::from_slice(bytes).map_err(e)),
    ]
}

/// Bytes which are not the UTF-8 of a text: the routes which read bytes agree about them, and do not take them for
/// another text.
fn bytes(ctx: &Ctx) {
    let docs = [
        "services: {a: {image: i, hostname: h, labels: [\"é=€\"]}}\nx-a: \"𝄞\"\n",
        "services:\n  a:\n    image: i\n    command: |\n      é\n  # ö\nname: 'n'\n",
    ];
    // lone continuation, lone leads, overlong forms, surrogates, above the last character, never valid
    let bad: [&[u8]; 12] = [
        b"\x80", b"\xbf", b"\xc3", b"\xc3(", b"\xc0\x80", b"\xe2\x82", b"\xe0\x80\x80", b"\xed\xa0\x80", b"\xf0\x9d\x84", b"\xf4\x90\x80\x80", b"\xfe", b"\xff",
    ];
    let mut all: Vec<(String, Vec<u8>, Option<String>)> = vec![];
    for doc in docs {
        for at in 0..=doc.len() {
            for b in bad {
                for over in [0, 1] {
                    if at + over > doc.len() {
                        continue;
                    }
                    let mut bytes = doc.as_bytes()[..at].to_vec();
                    bytes.extend(b);
                    bytes.extend(&doc.as_bytes()[at + over..]);
                    all.push((format!("{b:02x?} at {at}, over {over}"), bytes, None));
                }
            }
            // a byte left out
            if at < doc.len() {
                let mut bytes = doc.as_bytes().to_vec();
                bytes.remove(at);
                all.push((format!("without byte {at}"), bytes, None));
            }
        }
        for (bom, big) in [(true, true), (true, false), (false, true), (false, false)] {
            let mut bytes = vec![];
            for unit in bom.then_some(0xfeff).into_iter().chain(doc.encode_utf16()) {
                bytes.extend(if big { unit.to_be_bytes() } else { unit.to_le_bytes() });
            }
            for cut in 0..2 {
                let bytes = bytes[..bytes.len() - cut].to_vec();
                all.push((format!("UTF-16, mark {bom}, big endian {big}, cut {cut}"), bytes, Some(doc.to_owned())));
            }
        }
        let mut bytes = vec![0xef, 0xbb, 0xbf];
        bytes.extend(doc.as_bytes());
        all.push(("mark".into(), bytes, Some(doc.to_owned())));
    }
    ctx.part("documents of bytes", all.len() as u64);
    ctx.add_states(all.len() as u64);
    ctx.par(all.len(), |k| {
        let (what, bytes, text) = &all[k];
        ctx.case(
            || format!("{what}: {bytes:02x?}"),
            || {
                let got = byte_routes(bytes);
                agree(&got)?;
                let Ok(got) = &got[0].1 else { return Ok(()) };
                match (text, std::str::from_utf8(bytes)) {
                    (Some(text), _) => {
                        let want = Compose::options().from_yaml_str(text).map_err(e)?;
                        if *got != want {
                            return Err(format!("read as {got:?} rather than {want:?}"));
                        }
                    }
                    (None, Ok(text)) => agree(&[("str", Compose::options().from_yaml_str(text).map_err(e)), ("slice", Ok(got.clone()))])?,
                    (None, Err(_)) => return Err(format!("not UTF-8, but read as {got:?}")),
                }
                Ok(())
            },
        );
    });
}

/// One way of moving keys of a mapping into merges.
struct Split {
    /// The mapping with merge keys.
    merged: Y,
    what: &'static str,
}

fn pick(v: &[(String, Y)], keys: &[usize]) -> Vec<(String, Y)> {
    keys.iter().map(|k| v[*k].clone()).collect()
}

fn with_merge(mut explicit: Vec<(String, Y)>, pos: usize, merge: Y) -> Y {
    let pos = pos.min(explicit.len());
    explicit.insert(pos, ("<<".into(), merge));
    Y::M(explicit)
}

/// All the splits explored of the entries of a mapping.
fn splits(v: &[(String, Y)], all: bool) -> Vec<Split> {
    let n = v.len();
    let mut sets: Vec<Vec<usize>> = vec![];
    if n <= 4 {
        for bits in 0u32..1 << n {
            sets.push((0..n).filter(|k| bits >> k & 1 == 1).collect());
        }
    } else {
        sets.push(vec![]);
        sets.push((0..n).collect());
        sets.push((0..n / 2).collect());
        sets.push((n / 2..n).collect());
        sets.push((0..n).step_by(2).collect());
        for k in 0..if all { n } else { 2 } {
            sets.push(vec![k]);
        }
    }
    let mut out = vec![];
    for moved in sets {
        let kept: Vec<usize> = (0..n).filter(|k| !moved.contains(k)).collect();
        let (a, b) = moved.split_at(moved.len() / 2);
        let other = |keys: &[usize]| -> Vec<(String, Y)> {
            keys.iter().map(|k| (v[*k].0.clone(), o([("zz-wrong", Y::B(true))]))).collect()
        };
        let cat = |x: Vec<(String, Y)>, y: Vec<(String, Y)>| -> Vec<(String, Y)> { x.into_iter().chain(y).collect() };
        for pos in [0, 1, usize::MAX] {
            let mut add = |what, merge: Y| {
                out.push(Split { merged: with_merge(pick(v, &kept), pos, merge), what });
            };
            add("one merge", Y::M(pick(v, &moved)));
            if moved.len() > 1 || pos == 0 {
                add("two merges", l([Y::M(pick(v, a)), Y::M(pick(v, b))]));
            }
            add("explicit keys win", Y::M(cat(other(&kept), pick(v, &moved))));
            add("explicit keys win over a list", l([Y::M(pick(v, &moved)), Y::M(other(&kept))]));
            add("earlier merges win", l([Y::M(pick(v, &moved)), Y::M(other(&moved))]));
            add("nested merges", Y::M(vec![("<<".into(), Y::M(pick(v, &moved)))]));
            if !moved.is_empty() {
                add(
                    "nested merges with keys",
                    with_merge(pick(v, a), 0, Y::M(cat(pick(v, b), other(a)))),
                );
                add(
                    "a nested merge wins over a later one",
                    l([with_merge(pick(v, a), 1, Y::M(pick(v, b))), Y::M(other(&moved))]),
                );
            }
            if n > 8 && pos == 1 {
                break;
            }
        }
    }
    out
}

fn expand(ctx: &Ctx) {
    let s = sc::compose();
    let svc = sc::service_();
    let mut docs: Vec<Y> = s.items.iter().map(|x| {
        let mut y = s.base_out.clone();
        y.merge(&x.out);
        y
    }).collect();
    docs.extend(svc.items.iter().map(|x| {
        let mut y = svc.base_out.clone();
        y.merge(&x.out);
        m([("services", o([("s", y)]))])
    }));
    for (sch, wrap) in [(&svc.items.iter().map(|x| (x.groups.clone(), x.out.clone())).collect::<Vec<_>>(), true)] {
        // a large service
        let _ = wrap;
        let t = Table::new(&svc.items);
        let n = sch.len();
        for v in [t.complete(&[], 0..n), t.complete(&[], (0..n).rev())] {
            let mut y = svc.base_out.clone();
            for k in v {
                y.merge(&svc.items[k].out);
            }
            docs.push(m([("services", o([("s", y)]))]));
        }
    }
    docs.retain(|d| Compose::options().from_yaml_str(&d.flow()).is_ok());
    let mut seen = std::collections::HashSet::new();
    docs.retain(|d| seen.insert(d.flow()));
    let all: Vec<(usize, Vec<usize>)> = docs
        .iter()
        .enumerate()
        .flat_map(|(n, d)| d.paths().into_iter().filter(|p| d.at(p).is_map()).map(move |p| (n, p)))
        .collect();
    // the same mapping in the same place needs no second look
    let mut seen = std::collections::HashSet::new();
    let all: Vec<(usize, Vec<usize>)> = all
        .into_iter()
        .filter(|(n, p)| p.len() > 2 || ctx.thorough() || p.is_empty() && n % 8 == 0 || n % 3 == 0)
        .filter(|(n, p)| seen.insert((docs[*n].path_text(p), docs[*n].at(p).flow())))
        .collect();
    ctx.part("mappings written with merge keys", all.len() as u64);
    let one = |doc: &Y, path: &[usize], want: &Compose, split: &Split, text: String| {
        let in_ext = doc.path_text(path).contains("x-");
        ctx.add_states(1);
        ctx.case(
            || format!("{}: {text}", split.what),
            || {
                let mut opt = Compose::options();
                opt.apply_merge(true);
                let got = opt.from_yaml_str(&text).map_err(|x| format!("rejected: {x}"))?;
                // the document keeps the mappings which it merges elsewhere
                let mut want = want.clone();
                want.extensions.extend(got.extensions.iter().filter(|(k, _)| k.as_str().starts_with("x-mm")).map(|(k, v)| (k.clone(), v.clone())));
                // some types compare the order of their extensions, which merging changes
                if got != want && serde_yaml::to_value(&got).map_err(e)? != serde_yaml::to_value(&want).map_err(e)? {
                    return Err(format!("read as {got:?}, should be {want:?}"));
                }
                // explicit keys keep their order
                let out = serde_yaml::to_value(&got).map_err(e)?;
                if let (Y::O(_), Some(Value::Mapping(at))) = (doc.at(path), at(&out, doc, path)) {
                    let keys: Vec<usize> = split
                        .merged
                        .entries()
                        .iter()
                        .filter_map(|(k, _)| at.keys().position(|j| j.as_str() == Some(k)))
                        .collect();
                    if !keys.is_sorted() {
                        return Err(format!("the keys are written in another order: {at:?}"));
                    }
                }
                // every route merges alike
                let routes = [
                    ("slice", opt.from_yaml_slice(text.as_bytes())),
                    ("reader", opt.from_yaml_reader(text.as_bytes())),
                    ("value", serde_yaml::from_str(&text).and_then(|v| opt.from_yaml_value(v))),
                ];
                for (name, r) in routes {
                    let r = r.map_err(|x| format!("{name}: rejected: {x}"))?;
                    if r != got {
                        return Err(format!("{name}: read as {r:?}, from a string as {got:?}"));
                    }
                }
                // without the option nothing is merged
                let raw = guard(|| Compose::options().from_yaml_str(&text))?;
                match raw {
                    Err(_) => {}
                    Ok(c) if in_ext => {
                        let out = serde_yaml::to_string(&c).map_err(e)?;
                        if !out.contains("<<") {
                            return Err("merged without the option".into());
                        }
                    }
                    Ok(c) => return Err(format!("accepted without the option as {c:?}")),
                }
                Ok(())
            },
        );
    };
    ctx.par(all.len(), |k| {
        let (n, path) = &all[k];
        let doc = &docs[*n];
        let Ok(want) = Compose::options().from_yaml_value(doc.value()) else { return };
        for split in splits(doc.at(path).entries(), ctx.thorough()) {
            let mut d = doc.clone();
            *d.at_mut(path) = split.merged.clone();
            one(doc, path, &want, &split, d.flow());
            // with the merged mapping elsewhere
            let Some(merge) = split.merged.get("<<") else { continue };
            if split.what != "one merge" && split.what != "nested merges with keys" && split.what != "two merges" {
                continue;
            }
            let mut anchored = vec![("x-mm".to_owned(), Y::Raw(format!("&mm {}", merge.flow())))];
            if let Y::M(v) | Y::O(v) = d.at_mut(path) {
                for (k, y) in v.iter_mut() {
                    if k == "<<" {
                        *y = Y::Raw("*mm".into());
                    }
                }
            }
            if let Y::L(_) = merge {
                anchored.truncate(1);
            }
            let Y::M(mut top) = d else { continue };
            anchored.append(&mut top);
            one(doc, path, &want, &split, Y::M(anchored).flow());
        }
    });
}

/// The written value at a path of the document.
fn at<'a>(v: &'a Value, doc: &Y, path: &[usize]) -> Option<&'a Value> {
    let Some((n, rest)) = path.split_first() else { return Some(v) };
    match doc {
        Y::L(d) => at(v.as_sequence()?.get(*n)?, &d[*n], rest),
        Y::M(d) | Y::O(d) => at(v.get(d[*n].0.as_str())?, &d[*n].1, rest),
        _ => None,
    }
}

/// Chains of merges through anchors: service k merges service k - 1 and adds or overrides a key.
fn chains(ctx: &Ctx) {
    for depth in 1..ctx.pick(7, 12) {
        // each link sets some of three keys
        let choices = 8usize;
        let total = choices.pow(depth.min(ctx.pick(4, 5)) as u32);
        ctx.part("chains of merges", total as u64);
        ctx.par(total, |mut code| {
            let mut text = String::from("{services: {");
            let mut want = String::from("{services: {");
            let mut have: [Option<usize>; 3] = [None; 3];
            for d in 0..depth {
                let c = code % choices;
                code /= choices;
                let mut own = String::new();
                for (k, have) in have.iter_mut().enumerate() {
                    if c >> k & 1 == 1 {
                        *have = Some(d);
                        own.push_str(&format!(", K{k}: \"{d}\""));
                    }
                }
                let merge = if d > 0 { format!("<<: *e{}", d - 1) } else { "Z: \"0\"".into() };
                text.push_str(&format!("s{d}: {{environment: &e{d} {{{merge}{own}}}}}, "));
                let mut full = String::from("Z: \"0\"");
                for (k, h) in have.iter().enumerate() {
                    if let Some(h) = h {
                        full.push_str(&format!(", K{k}: \"{h}\""));
                    }
                }
                want.push_str(&format!("s{d}: {{environment: {{{full}}}}}, "));
            }
            text.push_str("}}");
            want.push_str("}}");
            ctx.add_states(1);
            ctx.case(
                || format!("chain {text}"),
                || {
                    let got = Compose::options().apply_merge(true).from_yaml_str(&text).map_err(e)?;
                    let want = Compose::options().from_yaml_str(&want).map_err(e)?;
                    if got != want {
                        return Err(format!("read as {got:?}, should be {want:?}"));
                    }
                    Ok(())
                },
            );
        });
    }
}

/// The option itself.
fn option(ctx: &Ctx) {
    // every sequence of settings: the last one counts
    let text = "services: {s: {environment: {<<: {A: \"1\"}}}}";
    let n = ctx.pick(8, 12);
    for len in 0..n {
        for bits in 0u32..1 << len {
            ctx.add_states(1);
            ctx.case(
                || format!("settings {bits:0len$b}", len = len as usize),
                || {
                    let mut opt = Compose::options();
                    let mut on = false;
                    for k in 0..len {
                        on = bits >> k & 1 == 1;
                        opt.apply_merge(on);
                    }
                    let copy = opt.clone();
                    for o in [&opt, &copy] {
                        if o.from_yaml_str(text).is_ok() != on {
                            return Err(format!("merging is {}", !on));
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // the known difference between text and values
    for (key, text) in [
        ("version: 3.8 without and with merging", "version: 3.8\nservices: {}\n"),
        ("services: {a: null} without and with merging", "services: {a: null}\n"),
        ("hostname: 1 without and with merging", "services:\n  a:\n    hostname: 1\n"),
    ] {
        ctx.case(
            || key.to_owned(),
            || {
                let a = Compose::options().from_yaml_str(text).map_err(e);
                let b = Compose::options().apply_merge(true).from_yaml_str(text).map_err(e);
                if a.is_ok() != b.is_ok() {
                    return Err(format!("without {a:?}, with {b:?}"));
                }
                Ok(())
            },
        );
    }
}

pub fn run(ctx: &Ctx) {
    option(ctx);
    chains(ctx);
    streams(ctx);
    bytes(ctx);
    values(ctx);
    expand(ctx);
}
