//! Symbolic execution of generic Rust code by a symbolic scalar.
//!
//! `Sx` is an ordered scalar that is either a constant or a symbolic variable. The code under
//! test is compiled, unmodified, with its symbol type instantiated to `Sx`; the only way it can
//! look at a symbol is to compare it, so every comparison of a symbolic value is a branch on an
//! SMT literal. At each such branch z3 decides which outcomes are satisfiable together with the
//! path condition, and every satisfiable outcome is explored (depth first, by re-execution).
//! At the end of a path the check hands z3 the negation of the property over the symbolic
//! variables: `unsat` settles every value on that path, `sat` is a counterexample.
//!
//! A transitive-closure table of the order facts already on the path answers comparisons that are
//! implied by earlier ones without a query; it never prunes an outcome that it cannot derive.
use crate::z3::{Ast, Res, Z3};
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::fmt;
use std::panic::{catch_unwind, AssertUnwindSafe};

const VAR: i64 = 1 << 40;
pub const MAX_ENT: usize = 128;

/// A constant (`v < VAR`) or the symbolic variable number `v - VAR`.
#[derive(Clone, Copy)]
pub struct Sx {
    v: i64,
}

impl Sx {
    pub const fn c(v: i64) -> Self {
        Self { v }
    }
    pub const fn is_var(self) -> bool {
        self.v >= VAR
    }
    pub fn constant(self) -> Option<i64> {
        (!self.is_var()).then_some(self.v)
    }
    pub fn var_idx(self) -> Option<usize> {
        self.is_var().then_some((self.v - VAR) as usize)
    }
    const fn raw(self) -> i64 {
        self.v
    }
}

impl fmt::Debug for Sx {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.is_var() {
            write!(f, "x{}", self.v - VAR)
        } else {
            write!(f, "{}", self.v)
        }
    }
}

impl PartialEq for Sx {
    fn eq(&self, o: &Self) -> bool {
        if self.v == o.v {
            tick();
            return true;
        }
        if !self.is_var() && !o.is_var() {
            tick();
            return false;
        }
        with(|e| e.is_eq(*self, *o))
    }
}
impl Eq for Sx {}
impl PartialOrd for Sx {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Sx {
    fn cmp(&self, o: &Self) -> Ordering {
        if self.v == o.v {
            tick();
            return Ordering::Equal;
        }
        if !self.is_var() && !o.is_var() {
            tick();
            return self.v.cmp(&o.v);
        }
        with(|e| e.cmp3(*self, *o))
    }
}
impl Default for Sx {
    fn default() -> Self {
        Self::c(0)
    }
}

/// Payloads of the panics the engine itself raises.
#[derive(Debug, Clone)]
pub enum Sig {
    /// The path is outside the assumptions.
    Discard,
    /// More comparisons than the fuel allows: the code under test does not terminate.
    Fuel,
    /// The time of this tier is used up.
    Deadline,
    /// The property is violated on this path; the counterexample is already recorded.
    Violated,
    /// The engine cannot decide (solver said unknown, or a limit of the engine).
    Inconclusive(String),
}

#[derive(Clone)]
struct Order {
    n: usize,
    raw: [i64; MAX_ENT],
    eq: [u128; MAX_ENT],
    lt: [u128; MAX_ENT],
    gt: [u128; MAX_ENT],
    ne: [u128; MAX_ENT],
}

impl Order {
    fn new() -> Self {
        Self {
            n: 0,
            raw: [0; MAX_ENT],
            eq: [0; MAX_ENT],
            lt: [0; MAX_ENT],
            gt: [0; MAX_ENT],
            ne: [0; MAX_ENT],
        }
    }
    fn bits(mut m: u128) -> impl Iterator<Item = usize> {
        std::iter::from_fn(move || {
            if m == 0 {
                None
            } else {
                let b = m.trailing_zeros() as usize;
                m &= m - 1;
                Some(b)
            }
        })
    }
    fn id(&mut self, s: Sx) -> usize {
        if let Some(i) = self.raw[..self.n].iter().position(|r| *r == s.raw()) {
            return i;
        }
        if self.n == MAX_ENT {
            std::panic::panic_any(Sig::Inconclusive("too many symbols on one path".into()));
        }
        let i = self.n;
        self.n += 1;
        self.raw[i] = s.raw();
        self.eq[i] = 1 << i;
        self.lt[i] = 0;
        self.gt[i] = 0;
        self.ne[i] = 0;
        if !s.is_var() {
            for j in 0..i {
                if self.raw[j] < VAR {
                    if self.raw[j] < s.raw() {
                        self.add_lt(j, i);
                    } else {
                        self.add_lt(i, j);
                    }
                }
            }
        }
        i
    }
    fn add_lt(&mut self, i: usize, j: usize) {
        let a = self.eq[i] | self.gt[i];
        let b = self.eq[j] | self.lt[j];
        for x in Self::bits(a) {
            self.lt[x] |= b;
        }
        for y in Self::bits(b) {
            self.gt[y] |= a;
        }
    }
    fn add_eq(&mut self, i: usize, j: usize) {
        let m = self.eq[i] | self.eq[j];
        let l = self.lt[i] | self.lt[j];
        let g = self.gt[i] | self.gt[j];
        let n = self.ne[i] | self.ne[j];
        for x in Self::bits(m) {
            self.eq[x] = m;
            self.lt[x] = l;
            self.gt[x] = g;
            self.ne[x] = n;
        }
        for y in Self::bits(l) {
            self.gt[y] |= m | g;
        }
        for y in Self::bits(g) {
            self.lt[y] |= m | l;
        }
        for y in Self::bits(n) {
            self.ne[y] |= m;
        }
    }
    fn add_ne(&mut self, i: usize, j: usize) {
        let (a, b) = (self.eq[i], self.eq[j]);
        for x in Self::bits(a) {
            self.ne[x] |= b;
        }
        for y in Self::bits(b) {
            self.ne[y] |= a;
        }
    }
    fn known(&self, i: usize, j: usize) -> Option<Ordering> {
        let b = 1u128 << j;
        if self.eq[i] & b != 0 {
            Some(Ordering::Equal)
        } else if self.lt[i] & b != 0 {
            Some(Ordering::Less)
        } else if self.gt[i] & b != 0 {
            Some(Ordering::Greater)
        } else {
            None
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Out {
    Lt,
    Eq,
    Gt,
    Ne,
    True,
    False,
    Case(usize),
}

struct Alt {
    out: Out,
    lit: Ast,
    /// A model of the path condition with this outcome, when one is already known.
    model: Option<Vec<i64>>,
}

struct Node {
    alts: Vec<Alt>,
    cur: usize,
    scopes: u32,
    flip: bool,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    /// Completed paths (inside the assumptions).
    pub paths: u64,
    pub discarded: u64,
    /// Branch outcomes z3 decided to be feasible and which were explored.
    pub branches: u64,
    pub queries: u64,
    pub solver_ns: u64,
    pub obligations: u64,
    pub max_ticks: u64,
}

impl Stats {
    pub fn add(&mut self, o: &Self) {
        self.paths += o.paths;
        self.discarded += o.discarded;
        self.branches += o.branches;
        self.queries += o.queries;
        self.solver_ns += o.solver_ns;
        self.obligations += o.obligations;
        self.max_ticks = self.max_ticks.max(o.max_ticks);
    }
}

pub struct Engine {
    pub z: Z3,
    trail: Vec<Node>,
    pos: usize,
    ord: Box<Order>,
    nvars: usize,
    nbools: usize,
    model: Vec<i64>,
    /// Whether `model` is a model of the current path condition.
    model_ok: bool,
    var_ast: Vec<Ast>,
    bool_ast: Vec<Ast>,
    num_ast: HashMap<i64, Ast>,
    pub stats: Stats,
    pub fuel: u64,
}

thread_local! {
    /// Shared memory in which this thread publishes where it is.
    static SLOT: Cell<*mut u64> = const { Cell::new(std::ptr::null_mut()) };
    static STOP_AT: Cell<Option<std::time::Instant>> = const { Cell::new(None) };
    static ENG: Cell<*mut Engine> = const { Cell::new(std::ptr::null_mut()) };
    static TICKS: Cell<u64> = const { Cell::new(0) };
    static FUEL: Cell<u64> = const { Cell::new(u64::MAX) };
}

fn tick() {
    TICKS.with(|t| {
        let n = t.get() + 1;
        t.set(n);
        if n > FUEL.with(Cell::get) {
            // do not raise again while unwinding
            FUEL.with(|f| f.set(u64::MAX));
            std::panic::panic_any(Sig::Fuel);
        }
    });
}

pub const SLOT_WORDS: usize = 1024;

/// Layout of a slot: progress, job + 1, label + 1, number of values, values, number of flips, flips.
pub fn set_slot(p: *mut u64) {
    SLOT.with(|s| s.set(p));
}

pub fn slot_head(job: Option<usize>, label: Option<usize>) {
    let p = SLOT.with(Cell::get);
    if p.is_null() {
        return;
    }
    unsafe {
        if let Some(j) = job {
            p.add(1).write_volatile(j as u64 + 1);
            p.add(3).write_volatile(0);
            p.add(4).write_volatile(0);
        }
        p.add(2).write_volatile(label.map_or(0, |l| l as u64 + 1));
    }
    progress();
}

fn progress() {
    let p = SLOT.with(Cell::get);
    if !p.is_null() {
        unsafe { p.write_volatile(p.read_volatile() + 1) }
    }
}

/// Explorations of this thread end at `t`.
pub fn stop_at(t: Option<std::time::Instant>) {
    STOP_AT.with(|s| s.set(t));
}

/// Access to the engine of this thread. No reference survives the call.
pub fn with<R>(f: impl FnOnce(&mut Engine) -> R) -> R {
    let p = ENG.with(Cell::get);
    assert!(!p.is_null(), "symbolic value outside of an exploration");
    f(unsafe { &mut *p })
}

static SESSIONS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
thread_local!(static SESSION: Cell<usize> = const { Cell::new(0) });

/// Tells the engines apart.
pub fn session_number() -> usize {
    SESSION.with(Cell::get)
}

/// Runs `f` with a fresh engine installed for this thread.
pub fn session<R>(fuel: u64, seed: u64, f: impl FnOnce() -> R) -> (R, Stats) {
    let mut e = Box::new(Engine {
        z: Z3::new(seed),
        trail: vec![],
        pos: 0,
        ord: Box::new(Order::new()),
        nvars: 0,
        nbools: 0,
        model: vec![],
        model_ok: true,
        var_ast: vec![],
        bool_ast: vec![],
        num_ast: HashMap::new(),
        stats: Stats::default(),
        fuel,
    });
    let old = ENG.with(|c| c.replace(&mut *e));
    SESSION.with(|s| s.set(1 + SESSIONS.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
    let r = f();
    ENG.with(|c| c.set(old));
    e.stats.queries = e.z.queries;
    e.stats.solver_ns = e.z.nanos;
    (r, e.stats.clone())
}

impl Engine {
    pub fn ast(&mut self, s: Sx) -> Ast {
        match s.var_idx() {
            Some(i) => self.var_ast[i],
            None => {
                let z = &self.z;
                *self.num_ast.entry(s.raw()).or_insert_with(|| z.num(s.raw()))
            }
        }
    }
    fn vals_of(&mut self, extra: Option<Ast>) -> (Res, Vec<i64>) {
        let want: Vec<Ast> = self.var_ast[..self.nvars]
            .iter()
            .chain(self.bool_ast[..self.nbools].iter())
            .copied()
            .collect();
        let mut v = vec![];
        let r = self.z.check(extra, &want, Some(&mut v));
        // booleans first used as branches are only recorded in the trail
        v.truncate(self.nvars);
        (r, v)
    }
    fn ensure_model(&mut self) {
        if !self.model_ok {
            let (r, m) = self.vals_of(None);
            match r {
                Res::Sat => {
                    self.model = m;
                    self.model_ok = true;
                }
                Res::Unsat => std::panic::panic_any(Sig::Discard),
                Res::Unknown => inconclusive("solver: unknown"),
            }
        }
    }
    fn val(&self, s: Sx) -> i64 {
        s.var_idx().map_or(s.raw(), |i| self.model[i])
    }
    fn is_eq(&mut self, a: Sx, b: Sx) -> bool {
        tick();
        let (i, j) = (self.ord.id(a), self.ord.id(b));
        if let Some(o) = self.ord.known(i, j) {
            return o == Ordering::Equal;
        }
        if self.ord.ne[i] & (1 << j) != 0 {
            return false;
        }
        let out = self.decide(a, b, &[Out::Eq, Out::Ne]);
        self.apply(i, j, out);
        out == Out::Eq
    }
    fn cmp3(&mut self, a: Sx, b: Sx) -> Ordering {
        tick();
        let (i, j) = (self.ord.id(a), self.ord.id(b));
        if let Some(o) = self.ord.known(i, j) {
            return o;
        }
        let out = if self.ord.ne[i] & (1 << j) != 0 {
            self.decide(a, b, &[Out::Lt, Out::Gt])
        } else {
            self.decide(a, b, &[Out::Lt, Out::Eq, Out::Gt])
        };
        self.apply(i, j, out);
        match out {
            Out::Lt => Ordering::Less,
            Out::Eq => Ordering::Equal,
            _ => Ordering::Greater,
        }
    }
    fn apply(&mut self, i: usize, j: usize, out: Out) {
        match out {
            Out::Lt => self.ord.add_lt(i, j),
            Out::Gt => self.ord.add_lt(j, i),
            Out::Eq => self.ord.add_eq(i, j),
            Out::Ne => self.ord.add_ne(i, j),
            Out::True | Out::False | Out::Case(_) => {}
        }
    }
    fn decide(&mut self, a: Sx, b: Sx, cands: &[Out]) -> Out {
        if self.pos < self.trail.len() {
            let n = &self.trail[self.pos];
            self.pos += 1;
            return n.alts[n.cur].out;
        }
        self.ensure_model();
        let (x, y) = (self.ast(a), self.ast(b));
        let (vx, vy) = (self.val(a), self.val(b));
        let holds = |o: Out| match o {
            Out::Lt => vx < vy,
            Out::Eq => vx == vy,
            Out::Gt => vx > vy,
            Out::Ne => vx != vy,
            Out::True | Out::False | Out::Case(_) => unreachable!(),
        };
        let mut alts = vec![];
        for &o in cands {
            let lit = match o {
                Out::Lt => self.z.lt(x, y),
                Out::Eq => self.z.eq(x, y),
                Out::Gt => self.z.lt(y, x),
                Out::Ne => {
                    let e = self.z.eq(x, y);
                    self.z.not(e)
                }
                Out::True | Out::False | Out::Case(_) => unreachable!(),
            };
            if holds(o) {
                alts.insert(0, Alt { out: o, lit, model: None });
                continue;
            }
            let (r, m) = self.vals_of(Some(lit));
            match r {
                Res::Sat => alts.push(Alt { out: o, lit, model: Some(m) }),
                Res::Unsat => {}
                Res::Unknown => inconclusive("solver: unknown"),
            }
        }
        self.enter(alts)
    }
    fn enter(&mut self, alts: Vec<Alt>) -> Out {
        let out = alts[0].out;
        let mut scopes = 0;
        if alts.len() > 1 {
            self.z.push();
            self.z.assert(alts[0].lit);
            scopes = 1;
            self.stats.branches += 1;
            if let Some(m) = &alts[0].model {
                self.model.clone_from(m);
            }
        }
        self.trail.push(Node { alts, cur: 0, scopes, flip: false });
        self.pos = self.trail.len();
        if scopes > 0 {
            self.publish();
        }
        out
    }
    fn publish(&self) {
        let p = SLOT.with(Cell::get);
        if p.is_null() {
            return;
        }
        progress();
        let flips = self.trail.iter().filter(|n| n.flip).map(|n| n.alts[n.cur].out == Out::True);
        let mut i = 3;
        let mut put = |v: u64| {
            if i < SLOT_WORDS {
                unsafe { p.add(i).write_volatile(v) }
                i += 1;
            }
        };
        put(self.model.len() as u64);
        for v in &self.model {
            put(*v as u64);
        }
        put(flips.clone().count() as u64);
        for f in flips {
            put(u64::from(f));
        }
    }
    /// Moves to the next unexplored branch above `base`. False when there is none.
    fn backtrack(&mut self, base: usize) -> bool {
        while self.trail.len() > base {
            let n = self.trail.last_mut().unwrap();
            self.z.pop(n.scopes);
            n.scopes = 0;
            if n.cur + 1 < n.alts.len() {
                n.cur += 1;
                self.z.push();
                self.z.assert(n.alts[n.cur].lit);
                n.scopes = 1;
                self.stats.branches += 1;
                match n.alts[n.cur].model.take() {
                    Some(m) => {
                        self.model = m;
                        self.model_ok = true;
                    }
                    None => self.model_ok = false,
                }
                self.publish();
                return true;
            }
            self.trail.pop();
        }
        false
    }
}

pub fn inconclusive(s: &str) -> ! {
    std::panic::panic_any(Sig::Inconclusive(s.into()))
}

/// A fresh symbolic value: one of `points`, or anything strictly inside one of the `gaps`.
pub fn fresh(points: &[i64], gaps: &[(i64, i64)]) -> Sx {
    with(|e| {
        let i = e.nvars;
        e.nvars += 1;
        if e.var_ast.len() < e.nvars {
            let a = e.z.var(&format!("x{i}"));
            e.var_ast.push(a);
        }
        let s = Sx { v: VAR + i as i64 };
        let d0 = points
            .first()
            .copied()
            .unwrap_or_else(|| gaps[0].0 + 1);
        if e.model.len() <= i {
            e.model.resize(i + 1, d0);
        } else if e.pos == e.trail.len() {
            e.model[i] = d0;
        }
        if e.pos < e.trail.len() {
            e.pos += 1; // the domain constraint of the first visit is still asserted
            return s;
        }
        let x = e.var_ast[i];
        let mut ors = vec![];
        for p in points {
            let n = e.ast(Sx::c(*p));
            ors.push(e.z.eq(x, n));
        }
        for (lo, hi) in gaps {
            let (l, h) = (e.ast(Sx::c(*lo)), e.ast(Sx::c(*hi)));
            let c = [e.z.lt(l, x), e.z.lt(x, h)];
            ors.push(e.z.and(&c));
        }
        let lit = e.z.or(&ors);
        e.z.push();
        e.z.assert(lit);
        e.trail.push(Node {
            alts: vec![Alt { out: Out::True, lit, model: None }],
            cur: 0,
            scopes: 1,
            flip: false,
        });
        e.pos = e.trail.len();
        s
    })
}

/// Adds `lit` to the path condition (once per path: replays skip it).
pub fn assume(mk: impl FnOnce(&mut Engine) -> Ast) {
    with(|e| {
        if e.pos < e.trail.len() {
            e.pos += 1;
            return;
        }
        let lit = mk(e);
        e.z.push();
        e.z.assert(lit);
        e.trail.push(Node {
            alts: vec![Alt { out: Out::True, lit, model: None }],
            cur: 0,
            scopes: 1,
            flip: false,
        });
        e.pos = e.trail.len();
        e.model_ok = false;
        e.ensure_model();
    });
}

/// Branches on one of several formulas, which must cover every value. Returns the one taken.
pub fn branch(lits: impl FnOnce(&mut Engine) -> Vec<Ast>) -> usize {
    with(|e| {
        tick();
        if e.pos < e.trail.len() {
            let n = &e.trail[e.pos];
            e.pos += 1;
            let Out::Case(k) = n.alts[n.cur].out else {
                inconclusive("a replayed branch differs");
            };
            return k;
        }
        e.ensure_model();
        let mut alts = vec![];
        for (k, lit) in lits(e).into_iter().enumerate() {
            let (r, m) = e.vals_of(Some(lit));
            match r {
                Res::Sat => alts.push(Alt { out: Out::Case(k), lit, model: Some(m) }),
                Res::Unsat => {}
                Res::Unknown => inconclusive("solver: unknown"),
            }
        }
        if alts.is_empty() {
            inconclusive("a branch with no way on");
        }
        let Out::Case(k) = e.enter(alts) else { unreachable!() };
        k
    })
}

/// A fresh symbolic boolean, branched on at once.
pub fn flip() -> bool {
    with(|e| {
        let i = e.nbools;
        e.nbools += 1;
        if e.bool_ast.len() < e.nbools {
            let a = e.z.bool_var(&format!("b{i}"));
            e.bool_ast.push(a);
        }
        if e.pos < e.trail.len() {
            let n = &e.trail[e.pos];
            e.pos += 1;
            return n.alts[n.cur].out == Out::True;
        }
        let b = e.bool_ast[i];
        let nb = e.z.not(b);
        // a fresh boolean constrains nothing else: the current model serves both outcomes
        let model = e.model_ok.then(|| e.model.clone());
        let alts = vec![
            Alt { out: Out::False, lit: nb, model: model.clone() },
            Alt { out: Out::True, lit: b, model },
        ];
        let r = e.enter(alts) == Out::True;
        e.trail.last_mut().unwrap().flip = true;
        r
    })
}

pub fn discard() -> ! {
    std::panic::panic_any(Sig::Discard)
}

/// How one path ended.
pub enum End<R> {
    Done(R),
    /// The code under test panicked.
    Panic(String),
    /// The code under test exceeded the comparison fuel.
    Hang,
}

/// Runs code under test and classifies its end; engine signals other than fuel pass through.
/// The code under test gets the whole fuel.
pub fn guarded<R>(f: impl FnOnce() -> R) -> End<R> {
    refuel(with(|e| e.fuel));
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => End::Done(r),
        Err(p) => match p.downcast::<Sig>() {
            Ok(s) => match *s {
                Sig::Fuel => End::Hang,
                s => std::panic::panic_any(s),
            },
            Err(p) => End::Panic(panic_text(&*p)),
        },
    }
}

/// Explores every feasible path of `body` from the current path condition. `Err` carries the signal
/// that stopped the exploration early. Must be called at the end of the enclosing path.
pub fn explore(mut body: impl FnMut()) -> Result<(), Sig> {
    let (base, ord, nvars, nbools, model, model_ok, fuel) = with(|e| {
        if e.pos != e.trail.len() {
            inconclusive("nested exploration is not at the end of its path");
        }
        e.model.truncate(e.nvars);
        let s = (e.ord.clone(), e.model.clone());
        (e.trail.len(), s.0, e.nvars, e.nbools, s.1, e.model_ok, e.fuel)
    });
    let mut res = Ok(());
    loop {
        with(|e| {
            e.ord.clone_from(&ord);
            e.nvars = nvars;
            e.nbools = nbools;
            e.pos = base;
        });
        refuel(fuel);
        let r = catch_unwind(AssertUnwindSafe(&mut body));
        let t = TICKS.with(Cell::get);
        with(|e| {
            e.stats.max_ticks = e.stats.max_ticks.max(t);
            match r {
                Ok(()) => e.stats.paths += 1,
                Err(p) => match p.downcast::<Sig>() {
                    Ok(s) if matches!(*s, Sig::Discard) => e.stats.discarded += 1,
                    Ok(s) if matches!(*s, Sig::Fuel) => {
                        res = Err(Sig::Inconclusive("fuel exhausted outside the code under test".into()));
                    }
                    Ok(s) => res = Err(*s),
                    Err(p) => {
                        res = Err(Sig::Inconclusive(format!("harness panic: {}", panic_text(&*p))));
                    }
                },
            }
        });
        progress();
        if res.is_ok() && STOP_AT.with(Cell::get).is_some_and(|t| std::time::Instant::now() > t) {
            res = Err(Sig::Deadline);
        }
        if res.is_err() {
            with(|e| {
                while e.trail.len() > base {
                    let n = e.trail.pop().unwrap();
                    e.z.pop(n.scopes);
                }
            });
            break;
        }
        if !with(|e| e.backtrack(base)) {
            break;
        }
    }
    with(|e| {
        e.ord = ord;
        e.nvars = nvars;
        e.nbools = nbools;
        e.pos = base;
        e.model = model;
        e.model_ok = model_ok;
    });
    refuel(fuel);
    res
}

fn refuel(fuel: u64) {
    TICKS.with(|t| t.set(0));
    FUEL.with(|f| f.set(fuel));
}

/// The text of a panic payload.
pub fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    p.downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_string()))
        .unwrap_or_else(|| "panic".into())
}

/// The booleans chosen so far on this path, in order of creation.
pub fn flips() -> Vec<bool> {
    with(|e| {
        e.trail[..e.pos]
            .iter()
            .filter(|n| n.flip)
            .map(|n| n.alts[n.cur].out == Out::True)
            .collect()
    })
}

/// Every integer variable of this path, in order of creation.
pub fn vars() -> Vec<Sx> {
    with(|e| (0..e.nvars).map(|i| Sx { v: VAR + i as i64 }).collect())
}

/// Is there a value of the symbolic variables on this path that satisfies `bad`?
/// Returns the values of `want` in that case.
pub fn refute(bad: Ast, want: &[Sx]) -> Option<Vec<i64>> {
    with(|e| {
        e.stats.obligations += 1;
        if bad == e.z.f() {
            return None;
        }
        let w: Vec<Ast> = want.iter().map(|s| e.ast(*s)).collect();
        let mut v = vec![];
        match e.z.check(Some(bad), &w, Some(&mut v)) {
            Res::Unsat => None,
            Res::Sat => Some(v),
            Res::Unknown => inconclusive("solver: unknown on an obligation"),
        }
    })
}

/// Values of `want` in some model of the path condition.
pub fn model_of(want: &[Sx]) -> Vec<i64> {
    with(|e| {
        e.ensure_model();
        want.iter().map(|s| e.val(*s)).collect()
    })
}
