//! Symbolic grammars: templates, instantiation over `Sx`, resolution, and the reference LR theory.
use crate::world::World;
use std::collections::{BTreeMap, BTreeSet};

/// Where the named symbols lie in the order of the symbol type, and where terminals may lie.
#[derive(Clone, Debug)]
pub struct Layout {
    pub name: &'static str,
    pub start: i64,
    pub eof: i64,
    pub gap: (i64, i64),
}

/// Any token value lies strictly between these.
pub const TOKENS: (i64, i64) = (-1, 100_000);

impl Layout {
    /// The symbol of rule `i` (of at most 64; the start rule not counted).
    pub fn nt(&self, i: usize) -> i64 {
        let i = i as i64;
        match self.name {
            "rules<terminals" => 1000 + 10 * i,
            "terminals<rules" => 17000 - 100 * i,
            // on both sides of the terminals, in no particular order
            _ if i % 2 == 0 => 990 - (i / 2 * 13 % 32) * 14,
            _ => 15000 + (i / 2 * 19 % 32) * 100,
        }
    }
}

pub const LAYOUTS: [Layout; 3] = [
    Layout {
        name: "rules<terminals",
        start: 100,
        eof: 50,
        gap: (2000, 9000),
    },
    Layout {
        name: "terminals<rules",
        start: 20000,
        eof: 19000,
        gap: (1000, 9000),
    },
    Layout {
        name: "rules<terminals<rules",
        start: 500,
        eof: 20000,
        gap: (2000, 9000),
    },
];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Slot {
    /// The rule with this index (0 is the start rule).
    N(usize),
    /// A fixed terminal.
    T(usize),
    /// Any rule (except start) or any terminal.
    Any,
    /// Any terminal.
    AnyT,
    /// Any rule (except start).
    AnyN,
}

/// A grammar shape. `rules[0]` is the start rule with its one production.
#[derive(Clone, Debug)]
pub struct Template {
    pub text: String,
    pub rules: Vec<Vec<Vec<Slot>>>,
    pub holes: usize,
    /// The characters of the fixed terminals.
    pub terms: Vec<char>,
}

/// The value of fixed terminal `i` of `t`.
pub fn terminal(t: &Template, l: &Layout, i: usize) -> i64 {
    let step = ((l.gap.1 - l.gap.0) / (t.terms.len() as i64 + 2)).min(200);
    l.gap.0 + step * (i as i64 + 1)
}

impl Template {
    /// `"S=?a|A;A=b#"`: upper case letters are rules (the start rule `^=S` is implicit unless
    /// given), `?` any symbol, `#` any terminal, `@` any rule, anything else a fixed terminal.
    pub fn parse(text: &str) -> Self {
        let parts: Vec<(char, &str)> = text
            .split(';')
            .map(|r| {
                let r = r.trim();
                (r.chars().next().unwrap(), &r[2..])
            })
            .collect();
        let mut names = vec!['^'];
        names.extend(parts.iter().map(|p| p.0).filter(|c| *c != '^'));
        let mut terms: Vec<char> = vec![];
        let mut rules = vec![vec![]; names.len()];
        let mut holes = 0;
        for (n, body) in &parts {
            let idx = names.iter().position(|x| x == n).unwrap();
            for alt in body.split('|') {
                let mut p = vec![];
                for c in alt.chars() {
                    p.push(match c {
                        '?' => Slot::Any,
                        '#' => Slot::AnyT,
                        '@' => Slot::AnyN,
                        c => {
                            if let Some(i) = names.iter().position(|x| *x == c) {
                                Slot::N(i)
                            } else {
                                let i = terms.iter().position(|x| *x == c).unwrap_or_else(|| {
                                    terms.push(c);
                                    terms.len() - 1
                                });
                                Slot::T(i)
                            }
                        }
                    });
                    if matches!(c, '?' | '#' | '@') {
                        holes += 1;
                    }
                }
                assert!(!p.is_empty(), "empty production in {text}");
                rules[idx].push(p);
            }
        }
        if rules[0].is_empty() {
            rules[0].push(vec![Slot::N(1)]);
        }
        Self {
            text: text.to_string(),
            rules,
            holes,
            terms,
        }
    }
    /// The templates in which `k` (one or two) symbol occurrences of a grammar become holes.
    pub fn with_holes(text: &str, k: usize) -> Vec<Self> {
        let mut pos = vec![];
        let mut in_body = false;
        for (i, c) in text.char_indices() {
            match c {
                ';' => in_body = false,
                '=' if !in_body => in_body = true,
                '|' | '?' | '#' | '@' => {}
                _ if in_body => pos.push(i),
                _ => {}
            }
        }
        let with = |at: &[usize]| {
            let mut s: Vec<u8> = text.bytes().collect();
            for a in at {
                s[pos[*a]] = b'?';
            }
            Self::parse(std::str::from_utf8(&s).unwrap())
        };
        let n = pos.len();
        match k {
            0 => vec![Self::parse(text)],
            1 => (0..n).map(|a| with(&[a])).collect(),
            _ => (0..n).flat_map(|a| (a + 1..n).map(move |b| [a, b])).map(|p| with(&p)).collect(),
        }
    }
    /// A sentence of about `len` tokens of a template without holes, chosen by `seed`.
    pub fn sentence(&self, len: usize, seed: u64) -> String {
        let n = self.rules.len();
        // fewest tokens below each rule
        let mut min = vec![usize::MAX / 1000; n];
        let cost = |min: &[usize], p: &[Slot]| -> usize {
            p.iter().map(|s| if let Slot::N(i) = s { min[*i] } else { 1 }).sum()
        };
        for _ in 0..n {
            for i in 0..n {
                min[i] = self.rules[i].iter().map(|p| cost(&min, p)).min().unwrap().min(min[i]);
            }
        }
        let mut x = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
        let mut out = String::new();
        let mut stack = vec![Slot::N(0)];
        while let Some(s) = stack.pop() {
            match s {
                Slot::T(t) => out.push(self.terms[t]),
                Slot::N(i) => {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    let rest: usize = stack.iter().map(|s| cost(&min, &[*s])).sum();
                    let ps = &self.rules[i];
                    let p = if out.chars().count() + rest < len && stack.len() < len {
                        // prefer what keeps going
                        let long: Vec<_> = ps.iter().filter(|p| p.iter().any(|s| matches!(s, Slot::N(_)))).collect();
                        if long.is_empty() || x % 7 == 0 {
                            &ps[(x / 7) as usize % ps.len()]
                        } else {
                            long[(x / 7) as usize % long.len()]
                        }
                    } else {
                        ps.iter().min_by_key(|p| cost(&min, p)).unwrap()
                    };
                    stack.extend(p.iter().rev());
                }
                _ => panic!("sentence of a template with holes"),
            }
        }
        out
    }
}

/// One piece of the domain of a hole, to split work between threads.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Piece {
    All,
    Nt(usize),
    Term,
}

pub type Prod<T> = Vec<T>;

/// A grammar over `T`; `rules[0]` is the start rule.
#[derive(Clone, Debug)]
pub struct Gram<T> {
    pub names: Vec<T>,
    pub rules: Vec<Vec<Prod<T>>>,
    pub eof: T,
}

impl<T: Ord + Clone + std::fmt::Debug> Gram<T> {
    pub fn lrp(&self) -> lrp::Grammar<T> {
        let mut map = lrp::RuleMap::new();
        for (n, ps) in self.names.iter().zip(&self.rules) {
            map.insert(n.clone(), lrp::grammar::Rule::new(n.clone(), ps.clone()));
        }
        lrp::Grammar::new(self.names[0].clone(), map, self.eof.clone())
    }
    pub fn slots(&self) -> Vec<T> {
        self.rules.iter().flatten().flatten().cloned().collect()
    }
}

/// Instantiates a template: every hole becomes a symbolic variable.
pub fn instantiate<W: World>(t: &Template, l: &Layout, cube: &[Piece]) -> Gram<W::T> {
    let n = t.rules.len();
    let nts: Vec<i64> = (1..n).map(|i| l.nt(i - 1)).collect();
    let mut h = 0;
    let rules = t
        .rules
        .iter()
        .map(|ps| {
            ps.iter()
                .map(|p| {
                    p.iter()
                        .map(|s| {
                            let mut hole = |pts: &[i64], gap: &[(i64, i64)]| {
                                let piece = cube.get(h).copied().unwrap_or(Piece::All);
                                h += 1;
                                match piece {
                                    Piece::All => W::fresh(pts, gap),
                                    Piece::Nt(i) if pts.contains(&nts[i]) => W::fresh(&[nts[i]], &[]),
                                    Piece::Term if !gap.is_empty() => W::fresh(&[], gap),
                                    _ => W::discard(),
                                }
                            };
                            match s {
                                Slot::N(0) => W::c(l.start),
                                Slot::N(i) => W::c(nts[i - 1]),
                                Slot::T(i) => W::c(terminal(t, l, *i)),
                                Slot::Any => hole(&nts, &[l.gap]),
                                Slot::AnyT => hole(&[], &[l.gap]),
                                Slot::AnyN => hole(&nts, &[]),
                            }
                        })
                        .collect()
                })
                .collect()
        })
        .collect();
    Gram {
        names: std::iter::once(W::c(l.start))
            .chain(nts.iter().map(|v| W::c(*v)))
            .collect(),
        rules,
        eof: W::c(l.eof),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Sy {
    N(usize),
    T(usize),
}

/// A grammar whose symbols are resolved: which rule, or which class of equal terminals.
#[derive(Clone, Debug)]
pub struct Res<T> {
    pub rules: Vec<Vec<Vec<Sy>>>,
    /// One representative of each class of terminals.
    pub terms: Vec<T>,
    pub names: Vec<T>,
    pub eof: T,
}

impl<T: Ord + Clone> Res<T> {
    /// Decides, by comparing, which symbols are equal. On a symbolic grammar this branches where
    /// the code under test did not already settle the question.
    pub fn of(g: &Gram<T>) -> Self {
        let mut terms: Vec<T> = vec![];
        let rules = g
            .rules
            .iter()
            .map(|ps| {
                ps.iter()
                    .map(|p| {
                        p.iter()
                            .map(|s| {
                                if let Some(i) = g.names.iter().position(|n| n == s) {
                                    return Sy::N(i);
                                }
                                if let Some(i) = terms.iter().position(|n| n == s) {
                                    return Sy::T(i);
                                }
                                terms.push(s.clone());
                                Sy::T(terms.len() - 1)
                            })
                            .collect()
                    })
                    .collect()
            })
            .collect();
        Self {
            rules,
            terms,
            names: g.names.clone(),
            eof: g.eof.clone(),
        }
    }
    pub fn productive(&self) -> bool {
        let mut pr = vec![false; self.rules.len()];
        loop {
            let mut ch = false;
            for (i, ps) in self.rules.iter().enumerate() {
                if !pr[i]
                    && ps.iter().any(|p| {
                        p.iter().all(|s| match s {
                            Sy::N(j) => pr[*j],
                            Sy::T(_) => true,
                        })
                    })
                {
                    pr[i] = true;
                    ch = true;
                }
            }
            if !ch {
                return pr.iter().all(|x| *x);
            }
        }
    }
    pub fn reachable(&self) -> bool {
        let mut r = vec![false; self.rules.len()];
        let mut w = vec![0];
        while let Some(i) = w.pop() {
            if !std::mem::replace(&mut r[i], true) {
                for s in self.rules[i].iter().flatten() {
                    if let Sy::N(j) = s {
                        w.push(*j);
                    }
                }
            }
        }
        r.iter().all(|x| *x)
    }
    /// Rules that reach each rule by unit productions (reflexive).
    pub fn unit_reach(&self) -> Vec<BTreeSet<usize>> {
        self.closure(|p| match p {
            [Sy::N(j)] => Some(*j),
            _ => None,
        })
    }
    /// Rules that each rule may start with (reflexive, transitive).
    pub fn left_corner(&self) -> Vec<BTreeSet<usize>> {
        self.closure(|p| match p.first() {
            Some(Sy::N(j)) => Some(*j),
            _ => None,
        })
    }
    fn closure(&self, f: impl Fn(&[Sy]) -> Option<usize>) -> Vec<BTreeSet<usize>> {
        (0..self.rules.len())
            .map(|i| {
                let mut s = BTreeSet::new();
                let mut w = vec![i];
                while let Some(k) = w.pop() {
                    if s.insert(k) {
                        w.extend(self.rules[k].iter().filter_map(|p| f(p)));
                    }
                }
                s
            })
            .collect()
    }
}

/// (rule, production, point, lookahead); lookahead usize::MAX is the end marker.
pub type Item = (usize, usize, usize, usize);
pub const EOF: usize = usize::MAX;

/// Textbook LR theory on a resolved grammar without empty productions.
pub struct Theory<'a, T> {
    pub g: &'a Res<T>,
    pub first: Vec<BTreeSet<usize>>,
    pub follow: Vec<BTreeSet<usize>>,
}

impl<'a, T> Theory<'a, T> {
    pub fn new(g: &'a Res<T>) -> Self {
        let n = g.rules.len();
        let mut r = Self {
            g,
            first: vec![BTreeSet::new(); n],
            follow: vec![BTreeSet::new(); n],
        };
        loop {
            let mut ch = false;
            for (i, ps) in g.rules.iter().enumerate() {
                for p in ps {
                    for t in r.first_of(p[0]) {
                        ch |= r.first[i].insert(t);
                    }
                }
            }
            if !ch {
                break;
            }
        }
        r.follow[0].insert(EOF);
        loop {
            let mut ch = false;
            for (i, ps) in g.rules.iter().enumerate() {
                for p in ps {
                    for (k, s) in p.iter().enumerate() {
                        if let Sy::N(j) = s {
                            let f = match p.get(k + 1) {
                                Some(s) => r.first_of(*s),
                                None => r.follow[i].clone(),
                            };
                            for t in f {
                                ch |= r.follow[*j].insert(t);
                            }
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        r
    }
    fn first_of(&self, s: Sy) -> BTreeSet<usize> {
        match s {
            Sy::N(j) => self.first[j].clone(),
            Sy::T(t) => BTreeSet::from([t]),
        }
    }
    pub fn close(&self, mut s: BTreeSet<Item>) -> BTreeSet<Item> {
        let mut w: Vec<Item> = s.iter().copied().collect();
        while let Some((n, p, d, l)) = w.pop() {
            let pr = &self.g.rules[n][p];
            if let Some(Sy::N(j)) = pr.get(d) {
                let f = match pr.get(d + 1) {
                    Some(s) => self.first_of(*s),
                    None => BTreeSet::from([l]),
                };
                for q in 0..self.g.rules[*j].len() {
                    for t in &f {
                        let it = (*j, q, 0, *t);
                        if s.insert(it) {
                            w.push(it);
                        }
                    }
                }
            }
        }
        s
    }
    /// The canonical LR(1) collection, or None when it has more than `cap` states.
    pub fn canonical(&self, cap: usize) -> Option<Vec<BTreeSet<Item>>> {
        let s0 = self.close(BTreeSet::from([(0, 0, 0, EOF)]));
        let mut seen = BTreeSet::from([s0.clone()]);
        let mut st = vec![s0];
        let mut i = 0;
        while i < st.len() {
            let mut by: BTreeMap<Sy, BTreeSet<Item>> = BTreeMap::new();
            for &(n, p, d, l) in &st[i] {
                if let Some(s) = self.g.rules[n][p].get(d) {
                    by.entry(*s).or_default().insert((n, p, d + 1, l));
                }
            }
            for k in by.into_values() {
                let c = self.close(k);
                if seen.insert(c.clone()) {
                    st.push(c);
                }
            }
            i += 1;
            if st.len() > cap {
                return None;
            }
        }
        Some(st)
    }
    /// The LALR(1) collection: canonical states with equal cores merged.
    pub fn merged(st: &[BTreeSet<Item>]) -> Vec<BTreeSet<Item>> {
        let mut m: BTreeMap<BTreeSet<(usize, usize, usize)>, BTreeSet<Item>> = BTreeMap::new();
        for s in st {
            let core = s.iter().map(|i| (i.0, i.1, i.2)).collect();
            m.entry(core).or_default().extend(s);
        }
        m.into_values().collect()
    }
}
