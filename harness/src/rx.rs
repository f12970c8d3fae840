//! Regular languages as deterministic automata (Brzozowski derivatives over a finite alphabet),
//! minimised, with access words and a characterising suffix set, for W-method conformance
//! exploration of validators.
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::sync::Arc as Rc;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Rx {
    Never,
    Eps,
    Set(Rc<BTreeSet<char>>),
    /// Complement of a set (within the alphabet).
    Not(Rc<BTreeSet<char>>),
    Cat(Rc<Rx>, Rc<Rx>),
    Alt(BTreeSet<Rx>),
    Star(Rc<Rx>),
    And(BTreeSet<Rx>),
    Neg(Rc<Rx>),
}
use Rx::*;

pub fn set(s: &str) -> Rx {
    // "a-z" style ranges; a literal '-' goes last
    let cs: Vec<char> = s.chars().collect();
    let mut out = BTreeSet::new();
    let mut i = 0;
    while i < cs.len() {
        if i + 2 < cs.len() && cs[i + 1] == '-' {
            for c in cs[i]..=cs[i + 2] {
                out.insert(c);
            }
            i += 3;
        } else {
            out.insert(cs[i]);
            i += 1;
        }
    }
    Set(Rc::new(out))
}
pub fn any() -> Rx {
    Not(Rc::new(BTreeSet::new()))
}
pub fn not(s: &str) -> Rx {
    if let Set(s) = set(s) {
        Not(s)
    } else {
        unreachable!()
    }
}
pub fn lit(s: &str) -> Rx {
    s.chars()
        .rev()
        .fold(Eps, |acc, c| cat(Set(Rc::new([c].into())), acc))
}
pub fn cat(a: Rx, b: Rx) -> Rx {
    match (a, b) {
        (Never, _) | (_, Never) => Never,
        (Eps, x) | (x, Eps) => x,
        (Cat(x, y), b) => Cat(x, Rc::new(cat((*y).clone(), b))),
        (a, b) => Cat(Rc::new(a), Rc::new(b)),
    }
}
pub fn seq<const N: usize>(v: [Rx; N]) -> Rx {
    v.into_iter().rev().fold(Eps, |acc, x| cat(x, acc))
}
pub fn alt<I: IntoIterator<Item = Rx>>(v: I) -> Rx {
    let mut s = BTreeSet::new();
    for x in v {
        match x {
            Never => {}
            Alt(t) => s.extend(t),
            x => {
                s.insert(x);
            }
        }
    }
    match s.len() {
        0 => Never,
        1 => s.into_iter().next().unwrap(),
        _ => Alt(s),
    }
}
pub fn and<I: IntoIterator<Item = Rx>>(v: I) -> Rx {
    let mut s = BTreeSet::new();
    for x in v {
        match x {
            Never => return Never,
            And(t) => s.extend(t),
            x => {
                s.insert(x);
            }
        }
    }
    if s.len() == 1 {
        s.into_iter().next().unwrap()
    } else {
        And(s)
    }
}
pub fn neg(a: Rx) -> Rx {
    match a {
        Neg(x) => (*x).clone(),
        x => Neg(Rc::new(x)),
    }
}
pub fn star(a: Rx) -> Rx {
    match a {
        Eps | Never => Eps,
        Star(x) => Star(x),
        x => Star(Rc::new(x)),
    }
}
pub fn plus(a: Rx) -> Rx {
    cat(a.clone(), star(a))
}
pub fn opt(a: Rx) -> Rx {
    alt([Eps, a])
}
/// Between `lo` and `hi` repetitions.
pub fn rep(a: &Rx, lo: usize, hi: usize) -> Rx {
    let mut r = Eps;
    for i in 0..hi {
        r = if hi - i <= lo {
            cat(a.clone(), r)
        } else {
            opt(cat(a.clone(), r))
        };
    }
    // the above builds from the inside: the outermost `lo` are mandatory
    r
}

impl Rx {
    fn sets(&self, out: &mut BTreeSet<Rc<BTreeSet<char>>>) {
        match self {
            Never | Eps => {}
            Set(s) | Not(s) => {
                out.insert(s.clone());
            }
            Cat(a, b) => {
                a.sets(out);
                b.sets(out);
            }
            Alt(v) | And(v) => v.iter().for_each(|x| x.sets(out)),
            Star(a) | Neg(a) => a.sets(out),
        }
    }
    fn nullable(&self) -> bool {
        match self {
            Never | Set(_) | Not(_) => false,
            Eps | Star(_) => true,
            Cat(a, b) => a.nullable() && b.nullable(),
            Alt(s) => s.iter().any(Rx::nullable),
            And(s) => s.iter().all(Rx::nullable),
            Neg(a) => !a.nullable(),
        }
    }
    fn deriv(&self, c: char) -> Rx {
        match self {
            Never | Eps => Never,
            Set(s) => {
                if s.contains(&c) {
                    Eps
                } else {
                    Never
                }
            }
            Not(s) => {
                if s.contains(&c) {
                    Never
                } else {
                    Eps
                }
            }
            Cat(a, b) => {
                let d = cat(a.deriv(c), (**b).clone());
                if a.nullable() {
                    alt([d, b.deriv(c)])
                } else {
                    d
                }
            }
            Alt(s) => alt(s.iter().map(|x| x.deriv(c))),
            And(s) => and(s.iter().map(|x| x.deriv(c))),
            Star(a) => cat(a.deriv(c), self.clone()),
            Neg(a) => neg(a.deriv(c)),
        }
    }
}

/// A complete minimal DFA over `alphabet`.
pub struct Dfa {
    pub alphabet: Vec<char>,
    pub next: Vec<Vec<usize>>,
    pub accept: Vec<bool>,
    pub start: usize,
    pub access: Vec<String>,
    /// Characterising set: suffixes which tell any two states apart.
    pub w: Vec<String>,
    /// One representative of each class of characters which act alike in every state.
    pub classes: Vec<char>,
    idx: HashMap<char, usize>,
}

impl Dfa {
    pub fn new(rx: &Rx, alphabet: &[char]) -> Self {
        // derivative construction
        let mut ids: BTreeMap<Rx, usize> = BTreeMap::new();
        let mut states = vec![rx.clone()];
        ids.insert(rx.clone(), 0);
        let mut next: Vec<Vec<usize>> = Vec::new();
        // characters which no set of the expression tells apart have the same derivatives
        let mut sets = BTreeSet::new();
        rx.sets(&mut sets);
        let mut atoms: HashMap<Vec<bool>, usize> = HashMap::new();
        let mut reps: Vec<char> = Vec::new();
        let atom: Vec<usize> = alphabet
            .iter()
            .map(|c| {
                *atoms
                    .entry(sets.iter().map(|s| s.contains(c)).collect())
                    .or_insert_with(|| {
                        reps.push(*c);
                        reps.len() - 1
                    })
            })
            .collect();
        let mut i = 0;
        while i < states.len() {
            let mut row = Vec::with_capacity(reps.len());
            for &c in &reps {
                let d = states[i].deriv(c);
                let id = *ids.entry(d.clone()).or_insert_with(|| {
                    states.push(d);
                    states.len() - 1
                });
                row.push(id);
            }
            next.push(row);
            i += 1;
            assert!(states.len() < 5000, "derivative explosion");
        }
        let accept: Vec<bool> = states.iter().map(Rx::nullable).collect();
        let mut dfa = Self::minimise(next, accept, 0, &reps);
        for row in &mut dfa.next {
            *row = atom.iter().map(|a| row[*a]).collect();
        }
        dfa.idx = alphabet.iter().enumerate().map(|(i, c)| (*c, i)).collect();
        dfa.alphabet = alphabet.to_vec();
        dfa
    }

    fn minimise(next: Vec<Vec<usize>>, accept: Vec<bool>, start: usize, alphabet: &[char]) -> Self {
        let n = next.len();
        let mut class: Vec<usize> = accept.iter().map(|a| usize::from(*a)).collect();
        let mut count = class.iter().collect::<BTreeSet<_>>().len();
        loop {
            let mut ids: HashMap<(usize, Vec<usize>), usize> = HashMap::new();
            let mut new = vec![0; n];
            for s in 0..n {
                let sig = (class[s], next[s].iter().map(|t| class[*t]).collect::<Vec<_>>());
                let l = ids.len();
                new[s] = *ids.entry(sig).or_insert(l);
            }
            let c = ids.len();
            class = new;
            if c == count {
                break;
            }
            count = c;
        }
        let mut mnext = vec![Vec::new(); count];
        let mut maccept = vec![false; count];
        for s in 0..n {
            mnext[class[s]] = next[s].iter().map(|t| class[*t]).collect();
            maccept[class[s]] = accept[s];
        }
        let start = class[start];
        // access words, breadth first (shortest; first character of the alphabet wins)
        let mut access: Vec<Option<String>> = vec![None; count];
        access[start] = Some(String::new());
        let mut q = VecDeque::from([start]);
        while let Some(s) = q.pop_front() {
            for (ci, &t) in mnext[s].iter().enumerate() {
                if access[t].is_none() {
                    let mut w = access[s].clone().unwrap();
                    w.push(alphabet[ci]);
                    access[t] = Some(w);
                    q.push_back(t);
                }
            }
        }
        let access: Vec<String> = access.into_iter().map(Option::unwrap_or_default).collect();
        // character classes
        let mut cols: HashMap<Vec<usize>, char> = HashMap::new();
        let mut classes = Vec::new();
        let mut class_idx = Vec::new();
        for (ci, &c) in alphabet.iter().enumerate() {
            let col: Vec<usize> = mnext.iter().map(|r| r[ci]).collect();
            if cols.insert(col, c).is_none() {
                classes.push(c);
                class_idx.push(ci);
            }
        }
        // characterising set by pairwise splitting
        let mut w: Vec<String> = vec![String::new()];
        let mut sig: Vec<Vec<bool>> = maccept.iter().map(|a| vec![*a]).collect();
        loop {
            let mut groups: BTreeMap<&Vec<bool>, Vec<usize>> = BTreeMap::new();
            for s in 0..count {
                groups.entry(&sig[s]).or_default().push(s);
            }
            let Some(g) = groups.into_values().filter(|g| g.len() > 1).min() else {
                break;
            };
            // shortest word telling g[0] and g[1] apart
            let mut seen = BTreeSet::from([(g[0], g[1])]);
            let mut q = VecDeque::from([((g[0], g[1]), Vec::<usize>::new())]);
            let mut found = None;
            while let Some(((a, b), word)) = q.pop_front() {
                if maccept[a] != maccept[b] {
                    found = Some(word);
                    break;
                }
                for &ci in &class_idx {
                    let p = (mnext[a][ci], mnext[b][ci]);
                    if p.0 != p.1 && seen.insert(p) {
                        let mut word = word.clone();
                        word.push(ci);
                        q.push_back((p, word));
                    }
                }
            }
            let word = found.expect("minimal states are distinguishable");
            for s in 0..count {
                let mut t = s;
                for &ci in &word {
                    t = mnext[t][ci];
                }
                sig[s].push(maccept[t]);
            }
            w.push(word.iter().map(|ci| alphabet[*ci]).collect());
        }
        let idx = alphabet.iter().enumerate().map(|(i, c)| (*c, i)).collect();
        Self {
            alphabet: alphabet.to_vec(),
            next: mnext,
            accept: maccept,
            start,
            access,
            w,
            classes,
            idx,
        }
    }

    pub fn run(&self, word: &str) -> bool {
        let mut s = self.start;
        for c in word.chars() {
            s = self.next[s][self.idx[&c]];
        }
        self.accept[s]
    }
}

/// All ASCII characters and some others chosen to catch confusions of character properties.
pub fn alphabet() -> Vec<char> {
    let mut v: Vec<char> = Vec::new();
    // letters first, so that access words are readable
    v.extend('a'..='z');
    v.extend('0'..='9');
    v.extend('A'..='Z');
    for c in (0u8..128).map(char::from) {
        if !v.contains(&c) {
            v.push(c);
        }
    }
    v.extend([
        '\u{80}', '\u{85}', '\u{a0}', 'ª', '²', '½', 'ß', 'é', 'ÿ', 'İ', 'ı', 'ſ', 'ǅ', 'π', 'Я', '٣', '߀',
        'अ', 'ⅷ', '\u{2028}', '\u{200b}', 'K', '中', '０', 'Ａ', 'ａ', '\u{fffd}', '\u{feff}', '😀', '𝟘', '𝐚',
        '\u{10ffff}',
    ]);
    v
}
