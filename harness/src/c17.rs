//! C17: platforms against the table of documented combinations.
use std::{
    collections::{hash_map::DefaultHasher, BTreeSet},
    fmt::{Debug, Display},
    hash::{Hash, Hasher},
    str::FromStr,
};

use compose_spec::service::{
    platform::{
        AixArch, AndroidArch, Arch, Arm64Variant, ArmVariant, DarwinArch, DragonFlyArch, FreeBsdArch, IOsArch, IllumosArch,
        InvalidArchError, JsArch, LinuxArch, NetBsdArch, OpenBsdArch, Os, Plan9Arch, Platform, SolarisArch, WasiP1Arch, WindowsArch,
    },
    Service,
};
use serde::{de::DeserializeOwned, Serialize};
use serde_yaml::Value;

use crate::engine::{guard, Ctx};

pub const ASSUME: &[&str] = &["the table of operating systems and architectures in harness/src/c17.rs is the documented one"];

const TABLE: &[(&str, &[&str])] = &[
    ("aix", &["ppc64"]),
    ("android", &["386", "amd64", "arm", "arm64"]),
    ("darwin", &["amd64", "arm64"]),
    ("dragonfly", &["amd64"]),
    ("freebsd", &["386", "amd64", "arm"]),
    ("illumos", &["amd64"]),
    ("ios", &["arm64"]),
    ("js", &["wasm"]),
    (
        "linux",
        &["386", "amd64", "arm", "arm64", "loong64", "mips", "mipsle", "mips64", "mips64le", "ppc64", "ppc64le", "riscv64", "s390x"],
    ),
    ("netbsd", &["386", "amd64", "arm"]),
    ("openbsd", &["386", "amd64", "arm", "arm64"]),
    ("plan9", &["386", "amd64", "arm"]),
    ("solaris", &["amd64"]),
    ("wasip1", &["wasm"]),
    ("windows", &["386", "amd64", "arm", "arm64"]),
];

const ARCHS: &[&str] = &[
    "386", "amd64", "arm", "arm64", "loong64", "mips", "mipsle", "mips64", "mips64le", "ppc64", "ppc64le", "riscv64", "s390x", "wasm",
];

fn variants(arch: &str) -> &'static [&'static str] {
    match arch {
        "arm" => &["v6", "v7", "v8"],
        "arm64" => &["v8"],
        _ => &[],
    }
}

/// The architectures with and without variants.
fn with_variants(archs: &[&str]) -> Vec<String> {
    archs.iter().flat_map(|a| std::iter::once((*a).to_owned()).chain(variants(a).iter().map(move |v| format!("{a}/{v}")))).collect()
}

fn archs_of(os: &str) -> Vec<String> {
    TABLE.iter().find(|t| t.0 == os).map_or_else(Vec::new, |t| with_variants(t.1))
}

pub fn platforms() -> Vec<String> {
    TABLE
        .iter()
        .flat_map(|(os, _)| std::iter::once((*os).to_owned()).chain(archs_of(os).into_iter().map(move |a| format!("{os}/{a}"))))
        .collect()
}

fn e(t: impl Display) -> String {
    t.to_string()
}

trait Text:
    FromStr<Err: Debug> + for<'a> TryFrom<&'a str, Error: Debug> + AsRef<str> + Display + Serialize + DeserializeOwned + Clone + Copy + PartialEq + Eq + Hash + Debug
{
    fn text(&self) -> &'static str;
}

macro_rules! text {
    ($($t:ty),+) => { $(impl Text for $t { fn text(&self) -> &'static str { self.as_str() } })+ };
}
text!(
    Platform, Os, Arch, ArmVariant, Arm64Variant, AixArch, AndroidArch, DarwinArch, DragonFlyArch, FreeBsdArch, IllumosArch, IOsArch, JsArch,
    LinuxArch, NetBsdArch, OpenBsdArch, Plan9Arch, SolarisArch, WasiP1Arch, WindowsArch
);

/// Is the string read exactly when it is valid, by all routes, and printed back?
fn parse<T: Text>(valid: &BTreeSet<String>, s: &str, full: bool) -> Result<(), String> {
    let want = valid.contains(s);
    let a = guard(|| s.parse::<T>())?;
    let one = |name: &str, r: Option<T>| -> Result<(), String> {
        match (&r, want) {
            (Some(t), true) => {
                if t.text() != s {
                    return Err(format!("{name}: read as {t:?}, printed as {:?}", t.text()));
                }
                Ok(())
            }
            (None, false) => Ok(()),
            _ => Err(format!("{name}: read as {r:?}, documented: {want}")),
        }
    };
    one("parse", a.ok())?;
    if !full && !want {
        return Ok(());
    }
    one("try_from", T::try_from(s).ok())?;
    one("value", serde_yaml::from_value::<T>(Value::from(s)).ok())?;
    let q = serde_yaml::to_string(s).map_err(e)?;
    one("text", serde_yaml::from_str::<T>(&q).ok())?;
    if want {
        let t: T = s.parse().map_err(|x| format!("{x:?}"))?;
        if t.as_ref() != s || t.to_string() != s || serde_yaml::to_value(t).map_err(e)? != Value::from(s) {
            return Err("printed differently".into());
        }
    }
    Ok(())
}

type Parse = fn(&BTreeSet<String>, &str, bool) -> Result<(), String>;
struct Kind {
    name: &'static str,
    valid: BTreeSet<String>,
    parse: Parse,
}

fn kinds() -> Vec<Kind> {
    let mut v = vec![
        Kind { name: "Platform", valid: platforms().into_iter().collect(), parse: parse::<Platform> },
        Kind { name: "Os", valid: TABLE.iter().map(|t| t.0.to_owned()).collect(), parse: parse::<Os> },
        Kind { name: "Arch", valid: with_variants(ARCHS).into_iter().collect(), parse: parse::<Arch> },
        Kind { name: "ArmVariant", valid: variants("arm").iter().map(|s| (*s).to_owned()).collect(), parse: parse::<ArmVariant> },
        Kind { name: "Arm64Variant", valid: variants("arm64").iter().map(|s| (*s).to_owned()).collect(), parse: parse::<Arm64Variant> },
    ];
    macro_rules! os {
        ($($os:literal $t:ty),+ $(,)?) => {
            $(v.push(Kind { name: stringify!($t), valid: archs_of($os).into_iter().collect(), parse: parse::<$t> });)+
        };
    }
    os!(
        "aix" AixArch, "android" AndroidArch, "darwin" DarwinArch, "dragonfly" DragonFlyArch, "freebsd" FreeBsdArch, "illumos" IllumosArch,
        "ios" IOsArch, "js" JsArch, "linux" LinuxArch, "netbsd" NetBsdArch, "openbsd" OpenBsdArch, "plan9" Plan9Arch, "solaris" SolarisArch,
        "wasip1" WasiP1Arch, "windows" WindowsArch,
    );
    v
}

/// Strings at one edit from `s`.
fn edits(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let alphabet: Vec<char> = "abcdefghijklmnopqrstuvwxyz0123456789/-_. \nAVé".chars().collect();
    let mut out = vec![];
    for k in 0..=c.len() {
        for a in &alphabet {
            let mut v = c.clone();
            v.insert(k, *a);
            out.push(v.iter().collect());
            if k < c.len() {
                let mut v = c.clone();
                v[k] = *a;
                out.push(v.iter().collect());
            }
        }
        if k < c.len() {
            let mut v = c.clone();
            v.remove(k);
            out.push(v.iter().collect());
            let mut v = c.clone();
            v[k] = v[k].to_ascii_uppercase();
            out.push(v.iter().collect());
            if k + 1 < c.len() {
                let mut v = c.clone();
                v.swap(k, k + 1);
                out.push(v.iter().collect());
            }
            out.push(c[..k].iter().collect());
            out.push(c[k..].iter().collect());
        }
    }
    out
}

trait OsArch: Text + TryFrom<Arch, Error = InvalidArchError> + Into<Arch> {
    const IS: Os;
    fn platform(a: Option<Self>) -> Platform;
}

macro_rules! os_arch {
    ($($v:ident $t:ty),+ $(,)?) => {
        $(impl OsArch for $t {
            const IS: Os = <$t>::OS;
            fn platform(a: Option<Self>) -> Platform {
                Platform::$v(a)
            }
        })+
    };
}
os_arch!(
    Aix AixArch, Android AndroidArch, Darwin DarwinArch, DragonFly DragonFlyArch, FreeBsd FreeBsdArch, Illumos IllumosArch, IOs IOsArch,
    Js JsArch, Linux LinuxArch, NetBsd NetBsdArch, OpenBsd OpenBsdArch, Plan9 Plan9Arch, Solaris SolarisArch, WasiP1 WasiP1Arch, Windows WindowsArch,
);

fn convert<A: OsArch>(ctx: &Ctx, os: &'static str) {
    let valid: BTreeSet<String> = archs_of(os).into_iter().collect();
    for a in with_variants(ARCHS) {
        ctx.add_states(1);
        ctx.case(
            || format!("{os} of architecture {a}"),
            || {
                let arch: Arch = a.parse().map_err(e)?;
                match (A::try_from(arch), valid.contains(&a)) {
                    (Ok(x), true) => {
                        if x.text() != a || x.into() != arch {
                            return Err(format!("converted to {x:?}"));
                        }
                        let p = A::platform(Some(x));
                        let want = format!("{os}/{a}");
                        if p.as_str() != want || p.os().as_str() != os || p.arch() != Some(arch) || want.parse() != Ok(p) {
                            return Err(format!("composed to {p:?}"));
                        }
                        Ok(())
                    }
                    (Err(x), false) if x.arch == arch && x.os == A::IS => {
                        let t = x.to_string();
                        if t.contains(&format!("`{a}`")) && t.contains(&format!("`{os}`")) {
                            Ok(())
                        } else {
                            Err(t)
                        }
                    }
                    (r, want) => Err(format!("converted to {r:?}, documented: {want}")),
                }
            },
        );
    }
    ctx.case(
        || format!("{os} alone"),
        || {
            let o: Os = os.parse().map_err(e)?;
            let p = A::platform(None);
            if A::IS != o || Platform::from(o) != p || p.as_str() != os || p.os() != o || p.arch().is_some() || os.parse() != Ok(p) {
                return Err(format!("{o:?} {p:?}"));
            }
            Ok(())
        },
    );
}

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn run(ctx: &Ctx) {
    let kinds = kinds();
    let valid: Vec<String> = {
        let mut s: BTreeSet<String> = BTreeSet::new();
        for k in &kinds {
            s.extend(k.valid.iter().cloned());
        }
        s.into_iter().collect()
    };
    ctx.part("documented strings of all types", valid.len() as u64);
    // every documented string and everything at one edit (thorough: two) from one, as every type
    let mut words: BTreeSet<String> = valid.iter().cloned().collect();
    for v in &valid {
        words.extend(edits(v));
    }
    let words: Vec<String> = words.into_iter().collect();
    ctx.part("strings at up to one edit from a documented one", words.len() as u64);
    ctx.par(words.len(), |n| {
        let w = &words[n];
        for k in &kinds {
            ctx.add_states(1);
            ctx.case(|| format!("{} from {w:?}", k.name), || (k.parse)(&k.valid, w, true));
        }
        // the attribute
        let want = kinds[0].valid.contains(w);
        ctx.case(
            || format!("platform: {w:?}"),
            || {
                let r: Result<Service, _> = serde_yaml::from_value([("platform", w.as_str())].into_iter().map(|(k, v)| (Value::from(k), Value::from(v))).collect::<serde_yaml::Mapping>().into());
                let got = r.as_ref().ok().and_then(|s| s.platform).map(|p| p.as_str());
                match (got, want) {
                    (Some(p), true) if p == w => Ok(()),
                    (None, false) if r.is_err() => Ok(()),
                    _ => Err(format!("read as {r:?}")),
                }
            },
        );
    });
    if ctx.thorough() {
        let bases: Vec<&String> = kinds[0].valid.iter().collect();
        ctx.par(bases.len(), |n| {
            let mut count = 0;
            for w in edits(bases[n]) {
                for x in edits(&w) {
                    count += 1;
                    let mut r = Ok(());
                    for k in &kinds[..3] {
                        r = r.and((k.parse)(&k.valid, &x, false));
                    }
                    if r.is_err() {
                        ctx.case(|| format!("{x:?}"), || r.clone());
                    }
                }
            }
            ctx.add_states(count);
            ctx.part("strings at two edits from a platform", count);
        });
    }
    // every sequence of up to three (thorough: four) parts
    let mut parts: Vec<&str> = TABLE.iter().map(|t| t.0).chain(ARCHS.iter().copied()).chain(["v6", "v7", "v8"]).collect();
    parts.extend(["", "v5", "v9", "V8", "8", "x86_64", "aarch64", "unix", "Linux", "all", "arm64v8", "linux-arm64", " ", "*", "macos"]);
    let n = parts.len();
    ctx.part("parts", n as u64);
    ctx.par(n * n, |k| {
        let (a, b) = (parts[k / n], parts[k % n]);
        let mut count = 0;
        let mut one = |s: String| {
            count += 1;
            let mut r = Ok(());
            for k in &kinds[..3] {
                r = r.and((k.parse)(&k.valid, &s, false));
            }
            if kinds[0].valid.contains(&s) || r.is_err() {
                ctx.case(|| format!("{s:?}"), || r.clone());
            }
        };
        one(a.to_owned());
        for sep in ["/", "-", ":", "//", "\\", "", " / ", ","] {
            one(format!("{a}{sep}{b}"));
            for c in &parts {
                one(format!("{a}{sep}{b}{sep}{c}"));
                one(format!("{a}/{b}{sep}{c}"));
            }
        }
        for c in &parts {
            for d in if ctx.thorough() { &parts[..] } else { &["", "v8", "linux"] } {
                one(format!("{a}/{b}/{c}/{d}"));
            }
        }
        ctx.add_states(count);
    });
    // conversions
    convert::<AixArch>(ctx, "aix");
    convert::<AndroidArch>(ctx, "android");
    convert::<DarwinArch>(ctx, "darwin");
    convert::<DragonFlyArch>(ctx, "dragonfly");
    convert::<FreeBsdArch>(ctx, "freebsd");
    convert::<IllumosArch>(ctx, "illumos");
    convert::<IOsArch>(ctx, "ios");
    convert::<JsArch>(ctx, "js");
    convert::<LinuxArch>(ctx, "linux");
    convert::<NetBsdArch>(ctx, "netbsd");
    convert::<OpenBsdArch>(ctx, "openbsd");
    convert::<Plan9Arch>(ctx, "plan9");
    convert::<SolarisArch>(ctx, "solaris");
    convert::<WasiP1Arch>(ctx, "wasip1");
    convert::<WindowsArch>(ctx, "windows");
    // parts of the parsed platform; different strings are different platforms
    let all = platforms();
    for a in &all {
        ctx.case(
            || format!("parts of {a}"),
            || {
                let p: Platform = a.parse().map_err(e)?;
                let (os, arch) = a.split_once('/').map_or((a.as_str(), None), |(o, a)| (o, Some(a)));
                if p.os().as_str() != os || p.arch().map(|a| a.as_str()) != arch {
                    return Err(format!("{:?} {:?}", p.os(), p.arch()));
                }
                for b in &all {
                    ctx.add_states(1);
                    let q: Platform = b.parse().map_err(e)?;
                    if (p == q) != (a == b) || (p == q && hash(&p) != hash(&q)) {
                        return Err(format!("compared with {b}"));
                    }
                }
                Ok(())
            },
        );
    }
    // an architecture of one system converts to any system which has it, and only those
    for a in &all {
        let Some((_, arch)) = a.split_once('/') else { continue };
        ctx.add_states(1);
        ctx.case(
            || format!("architecture of {a} by itself"),
            || {
                let p: Platform = a.parse().map_err(e)?;
                if arch.parse::<Arch>().ok() == p.arch() {
                    Ok(())
                } else {
                    Err(format!("{:?}", p.arch()))
                }
            },
        );
    }
}
