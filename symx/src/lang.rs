//! Language membership, viable prefixes and ambiguity of a resolved grammar, as formulas over
//! symbolic tokens (and, through the same code, as plain booleans over concrete ones).
use crate::gram::{Res, Sy};
use crate::world::World;
use std::collections::HashMap;

/// Rule, production, offset into its body.
type At = (usize, usize, usize);

pub struct Lang<'a, W: World> {
    pub g: &'a Res<W::T>,
    pub toks: Vec<W::T>,
    unit: Vec<Vec<usize>>,
    corner: Vec<Vec<usize>>,
    d: HashMap<(usize, usize, usize), W::B>,
    s: HashMap<(At, usize, usize), W::B>,
    vs: HashMap<(At, usize, usize, bool), W::B>,
    ts: HashMap<(At, usize, usize), (W::B, W::B)>,
    v: HashMap<(usize, usize, usize), W::B>,
    amb: HashMap<(usize, usize, usize), (W::B, W::B)>,
}

impl<'a, W: World> Lang<'a, W> {
    pub fn new(g: &'a Res<W::T>, toks: &[W::T]) -> Self {
        Self {
            g,
            toks: toks.to_vec(),
            unit: g.unit_reach().into_iter().map(|s| s.into_iter().collect()).collect(),
            corner: g.left_corner().into_iter().map(|s| s.into_iter().collect()).collect(),
            d: HashMap::new(),
            s: HashMap::new(),
            vs: HashMap::new(),
            ts: HashMap::new(),
            v: HashMap::new(),
            amb: HashMap::new(),
        }
    }
    /// Rule `n` derives exactly tokens `i..j`.
    pub fn derives(&mut self, n: usize, i: usize, j: usize) -> W::B {
        if i >= j {
            return W::f();
        }
        if let Some(b) = self.d.get(&(n, i, j)) {
            return b.clone();
        }
        let mut ors = vec![];
        for m in self.unit[n].clone() {
            for p in 0..self.g.rules[m].len() {
                if let [Sy::N(_)] = self.g.rules[m][p][..] {
                    continue;
                }
                ors.push(self.seq((m, p, 0), i, j));
            }
        }
        let r = W::or(&ors);
        self.d.insert((n, i, j), r.clone());
        r
    }
    fn sym(&mut self, s: Sy, i: usize, j: usize) -> W::B {
        match s {
            Sy::T(c) if j == i + 1 => W::eq(&self.toks[i], &self.g.terms[c]),
            Sy::T(_) => W::f(),
            Sy::N(n) => self.derives(n, i, j),
        }
    }
    fn seq(&mut self, at: At, i: usize, j: usize) -> W::B {
        if let Some(b) = self.s.get(&(at, i, j)) {
            return *b;
        }
        let r = self.seq0(at, i, j);
        self.s.insert((at, i, j), r);
        r
    }
    fn seq0(&mut self, at: At, i: usize, j: usize) -> W::B {
        let g = self.g;
        let body = &g.rules[at.0][at.1][at.2..];
        if body.len() > j - i {
            return W::f();
        }
        if body.len() == 1 {
            return self.sym(body[0], i, j);
        }
        let mut ors = vec![];
        for k in i + 1..j {
            let rest = self.seq((at.0, at.1, at.2 + 1), k, j);
            let head = self.sym(body[0], i, k);
            ors.push(W::and(&[head, rest]));
        }
        W::or(&ors)
    }
    /// Tokens `i..k` are a prefix of some string of rule `n` (every rule must be productive).
    pub fn viable(&mut self, n: usize, i: usize, k: usize) -> W::B {
        if i == k {
            return W::t();
        }
        if let Some(b) = self.v.get(&(n, i, k)) {
            return b.clone();
        }
        let mut ors = vec![];
        for m in self.corner[n].clone() {
            for p in 0..self.g.rules[m].len() {
                ors.push(self.vseq((m, p, 0), i, k, true));
            }
        }
        let r = W::or(&ors);
        self.v.insert((n, i, k), r.clone());
        r
    }
    fn vseq(&mut self, at: At, i: usize, k: usize, first: bool) -> W::B {
        if let Some(b) = self.vs.get(&(at, i, k, first)) {
            return *b;
        }
        let r = self.vseq0(at, i, k, first);
        self.vs.insert((at, i, k, first), r);
        r
    }
    fn vseq0(&mut self, at: At, i: usize, k: usize, first: bool) -> W::B {
        let g = self.g;
        let body = &g.rules[at.0][at.1][at.2..];
        if i == k {
            return W::t();
        }
        if body.is_empty() {
            return W::f();
        }
        let mut ors = vec![];
        match body[0] {
            Sy::T(c) => {
                let h = W::eq(&self.toks[i], &self.g.terms[c]);
                let r = self.vseq((at.0, at.1, at.2 + 1), i + 1, k, false);
                ors.push(W::and(&[h, r]));
            }
            Sy::N(n) => {
                // the head covers everything: by the left-corner closure when it is the first
                if !first {
                    ors.push(self.viable(n, i, k));
                }
                for j in i + 1..=k {
                    let h = self.derives(n, i, j);
                    let r = self.vseq((at.0, at.1, at.2 + 1), j, k, false);
                    ors.push(W::and(&[h, r]));
                }
            }
        }
        W::or(&ors)
    }
    /// (at least one, at least two) derivation trees of tokens `i..j` from rule `n`.
    pub fn trees(&mut self, n: usize, i: usize, j: usize) -> (W::B, W::B) {
        if i >= j {
            return (W::f(), W::f());
        }
        if let Some(b) = self.amb.get(&(n, i, j)) {
            return b.clone();
        }
        let one = self.derives(n, i, j);
        // a rule that derives itself has infinitely many trees
        let cyclic = self.g.rules[n].iter().any(|p| match p[..] {
            [Sy::N(m)] => self.unit[m].contains(&n),
            _ => false,
        });
        let r = if cyclic {
            (one.clone(), one)
        } else {
            let (mut ge1, mut ge2) = (W::f(), W::f());
            for p in 0..self.g.rules[n].len() {
                let (x1, x2) = self.tseq((n, p, 0), i, j);
                let both = W::and(&[ge1.clone(), x1.clone()]);
                ge2 = W::or(&[ge2, both, x2]);
                ge1 = W::or(&[ge1, x1]);
            }
            (ge1, ge2)
        };
        self.amb.insert((n, i, j), r.clone());
        r
    }
    fn tsym(&mut self, s: Sy, i: usize, j: usize) -> (W::B, W::B) {
        match s {
            Sy::N(n) => self.trees(n, i, j),
            Sy::T(_) => (self.sym(s, i, j), W::f()),
        }
    }
    fn tseq(&mut self, at: At, i: usize, j: usize) -> (W::B, W::B) {
        if let Some(b) = self.ts.get(&(at, i, j)) {
            return *b;
        }
        let r = self.tseq0(at, i, j);
        self.ts.insert((at, i, j), r);
        r
    }
    fn tseq0(&mut self, at: At, i: usize, j: usize) -> (W::B, W::B) {
        let g = self.g;
        let body = &g.rules[at.0][at.1][at.2..];
        if body.len() > j - i {
            return (W::f(), W::f());
        }
        if body.len() == 1 {
            return self.tsym(body[0], i, j);
        }
        let (mut ge1, mut ge2) = (W::f(), W::f());
        for k in i + 1..j {
            let (r1, r2) = self.tseq((at.0, at.1, at.2 + 1), k, j);
            let (h1, h2) = self.tsym(body[0], i, k);
            let x1 = W::and(&[h1.clone(), r1.clone()]);
            let y = W::and(&[h2, r1]);
            let z = W::and(&[h1, r2]);
            let both = W::and(&[ge1.clone(), x1.clone()]);
            ge2 = W::or(&[ge2, both, y, z]);
            ge1 = W::or(&[ge1, x1]);
        }
        (ge1, ge2)
    }
}

