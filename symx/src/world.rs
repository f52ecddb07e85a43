//! The two worlds a property is executed in: `Sym` (symbolic values, formulas for z3) and `Native`
//! (plain integers, booleans), which re-executes one path of the symbolic world on the real code
//! compiled for an ordinary symbol type.
use crate::engine::{self, End, Sig, Sx};
use crate::z3::Ast;
use std::cell::{Cell, RefCell};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub trait World: Copy + 'static {
    type T: Ord + Clone + Debug + Default + 'static;
    type B: Copy;
    fn c(v: i64) -> Self::T;
    /// A value out of `points` or strictly inside one of `gaps`.
    fn fresh(points: &[i64], gaps: &[(i64, i64)]) -> Self::T;
    fn flip() -> bool;
    fn t() -> Self::B;
    fn f() -> Self::B;
    fn eq(a: &Self::T, b: &Self::T) -> Self::B;
    fn not(a: Self::B) -> Self::B;
    fn and(v: &[Self::B]) -> Self::B;
    fn or(v: &[Self::B]) -> Self::B;
    /// Asks for a value on this path that falsifies `good`; if there is one, records it and ends.
    fn require(good: Self::B, msg: impl FnOnce() -> String);
    /// Explores every path of `f` from here.
    fn explore(label: usize, f: impl FnMut());
    /// Whether `explore(label)` will run anything.
    fn wants(_label: usize) -> bool {
        true
    }
    fn guarded<R>(f: impl FnOnce() -> R) -> End<R>;
    fn discard() -> !;
    /// Adds an observation to the path's digest.
    fn note(s: &str);
    /// Reachability witness: the property's deciding query was reached in this way.
    fn reached(what: &'static str);

    /// A name for `b` where the formulas `defs` hold.
    fn named(b: Self::B, _tag: char, _defs: &mut Vec<Self::B>) -> Self::B {
        b
    }
    /// `b` is plainly false.
    fn never(b: &Self::B) -> bool;
    /// `lo <= x <= hi`.
    fn between(x: &Self::T, lo: i64, hi: i64) -> Self::B;
    /// Restricts the rest of the path to one model of it, and returns the values of `v` there.
    fn pin(v: &[Self::T]) -> Vec<i64>;

    /// `require` for several formulas in one query; names the failing one.
    fn require_all(goods: &[(Self::B, &str)]);

    fn fail(msg: impl FnOnce() -> String) -> ! {
        Self::require(Self::f(), msg);
        unreachable!()
    }
    fn iff(a: Self::B, b: Self::B) -> Self::B {
        let x = Self::and(&[a, b]);
        let y = Self::and(&[Self::not(a), Self::not(b)]);
        Self::or(&[x, y])
    }
    fn b(v: bool) -> Self::B {
        if v {
            Self::t()
        } else {
            Self::f()
        }
    }
    /// `x` is one of `set`.
    fn among<'a>(x: &Self::T, set: impl IntoIterator<Item = &'a Self::T>) -> Self::B {
        let v: Vec<_> = set.into_iter().map(|y| Self::eq(x, y)).collect();
        Self::or(&v)
    }
}

/// A counterexample: the values of the path, enough to re-execute it.
#[derive(Clone, Debug, Default)]
pub struct Cex {
    pub msg: String,
    pub vals: Vec<i64>,
    pub flips: Vec<bool>,
    pub label: Option<usize>,
}

thread_local! {
    static CEX: RefCell<Option<Cex>> = const { RefCell::new(None) };
    static LABEL: Cell<Option<usize>> = const { Cell::new(None) };
    static NOTES: RefCell<String> = const { RefCell::new(String::new()) };
    /// Notes of the enclosing path, and of the nested one, in the symbolic world.
    static NATIVE: RefCell<Nat> = RefCell::new(Nat::default());
    static MIRROR: RefCell<Option<Rc<dyn Fn()>>> = const { RefCell::new(None) };
    static REACHED: RefCell<std::collections::BTreeMap<&'static str, u64>> =
        const { RefCell::new(std::collections::BTreeMap::new()) };
    static VALID: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
    static SAMPLES: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

#[derive(Default)]
struct Nat {
    vals: Vec<i64>,
    flips: Vec<bool>,
    vi: usize,
    fi: usize,
    target: Option<usize>,
    notes: String,
}

pub fn take_cex() -> Option<Cex> {
    CEX.with(|c| c.borrow_mut().take())
}

/// What this thread's exploration has reached, validated, and some of its paths.
pub fn take_tallies() -> (std::collections::BTreeMap<&'static str, u64>, u64, Vec<String>) {
    (
        REACHED.with(|r| std::mem::take(&mut *r.borrow_mut())),
        VALID.with(|v| v.replace((0, 0))).1,
        SAMPLES.with(|s| std::mem::take(&mut *s.borrow_mut())),
    )
}

#[derive(Clone, Copy)]
pub struct Sym;

impl World for Sym {
    type T = Sx;
    type B = Ast;
    fn c(v: i64) -> Sx {
        Sx::c(v)
    }
    fn fresh(points: &[i64], gaps: &[(i64, i64)]) -> Sx {
        engine::fresh(points, gaps)
    }
    fn flip() -> bool {
        engine::flip()
    }
    fn t() -> Ast {
        engine::with(|e| e.z.t())
    }
    fn f() -> Ast {
        engine::with(|e| e.z.f())
    }
    fn eq(a: &Sx, b: &Sx) -> Ast {
        match (a.constant(), b.constant()) {
            (Some(x), Some(y)) => Self::b(x == y),
            _ if a.var_idx().is_some() && a.var_idx() == b.var_idx() => Self::t(),
            _ => engine::with(|e| {
                let (x, y) = (e.ast(*a), e.ast(*b));
                e.z.eq(x, y)
            }),
        }
    }
    fn not(a: Ast) -> Ast {
        engine::with(|e| e.z.not(a))
    }
    fn and(v: &[Ast]) -> Ast {
        engine::with(|e| e.z.and(v))
    }
    fn or(v: &[Ast]) -> Ast {
        engine::with(|e| e.z.or(v))
    }
    fn require(good: Ast, msg: impl FnOnce() -> String) {
        let bad = Self::not(good);
        if let Some(vals) = engine::refute(bad, &engine::vars()) {
            let cex = Cex {
                msg: msg(),
                vals,
                flips: engine::flips(),
                label: LABEL.with(Cell::get),
            };
            CEX.with(|c| *c.borrow_mut() = Some(cex));
            std::panic::panic_any(Sig::Violated);
        }
    }
    fn require_all(goods: &[(Ast, &str)]) {
        let v: Vec<_> = goods.iter().map(|g| g.0).collect();
        let all = Self::and(&v);
        if engine::refute(Self::not(all), &[]).is_some() {
            for (g, m) in goods {
                Self::require(*g, || (*m).to_string());
            }
            engine::inconclusive("a conjunction fails and no conjunct does");
        }
    }
    fn explore(label: usize, mut f: impl FnMut()) {
        let outer = NOTES.with(|n| n.borrow().clone());
        LABEL.with(|l| l.set(Some(label)));
        engine::slot_head(None, Some(label));
        let r = engine::explore(|| {
            NOTES.with(|n| n.borrow_mut().clone_from(&outer));
            f();
            mirror(Some(label));
        });
        LABEL.with(|l| l.set(None));
        engine::slot_head(None, None);
        NOTES.with(|n| *n.borrow_mut() = outer);
        if let Err(s) = r {
            std::panic::panic_any(s);
        }
    }
    fn guarded<R>(f: impl FnOnce() -> R) -> End<R> {
        engine::guarded(f)
    }
    fn discard() -> ! {
        engine::discard()
    }
    fn note(s: &str) {
        NOTES.with(|n| {
            let mut n = n.borrow_mut();
            n.push_str(s);
            n.push(' ');
        });
    }
    fn never(b: &Ast) -> bool {
        engine::with(|e| *b == e.z.f())
    }
    fn named(b: Ast, tag: char, defs: &mut Vec<Ast>) -> Ast {
        engine::with(|e| {
            if b == e.z.t() || b == e.z.f() {
                return b;
            }
            let d = e.z.bool_var(&format!("{tag}{}", defs.len()));
            let differ = e.z.xor(d, b);
            defs.push(e.z.not(differ));
            d
        })
    }
    fn between(x: &Sx, lo: i64, hi: i64) -> Ast {
        if let Some(v) = x.constant() {
            return Self::b(lo <= v && v <= hi);
        }
        engine::with(|e| {
            let (l, x, h) = (e.ast(Sx::c(lo - 1)), e.ast(*x), e.ast(Sx::c(hi + 1)));
            let c = [e.z.lt(l, x), e.z.lt(x, h)];
            e.z.and(&c)
        })
    }
    fn pin(v: &[Sx]) -> Vec<i64> {
        let r = engine::model_of(v);
        engine::assume(|e| {
            let eqs: Vec<_> = v
                .iter()
                .zip(&r)
                .filter(|(x, _)| x.is_var())
                .map(|(x, c)| {
                    let (a, b) = (e.ast(*x), e.ast(Sx::c(*c)));
                    e.z.eq(a, b)
                })
                .collect();
            e.z.and(&eqs)
        });
        r
    }
    fn reached(what: &'static str) {
        REACHED.with(|r| *r.borrow_mut().entry(what).or_default() += 1);
    }
}

/// Re-executes the path that just ended natively and compares what was observed.
fn mirror(label: Option<usize>) {
    let (seen, _) = VALID.with(|v| {
        let (a, b) = v.get();
        v.set((a + 1, b));
        (a, b)
    });
    // all of the first paths, then every eighth
    if seen > 64 && seen % 8 != 0 {
        return;
    }
    let Some(run) = MIRROR.with(|m| m.borrow().clone()) else {
        return;
    };
    let vals = engine::model_of(&engine::vars());
    let flips = engine::flips();
    let want = NOTES.with(|n| n.borrow().clone());
    let r = native(vals.clone(), flips.clone(), label, || run());
    let got = NATIVE.with(|n| n.borrow().notes.clone());
    match r {
        NatEnd::Held if got == want => {
            VALID.with(|v| v.set((v.get().0, v.get().1 + 1)));
            if seen % 997 == 1 {
                SAMPLES.with(|s| {
                    let mut s = s.borrow_mut();
                    if s.len() < 4 {
                        s.push(format!("values {vals:?}, observed: {want}"));
                    }
                });
            }
        }
        r => engine::inconclusive(&format!(
            "the native run of a symbolic path differs: {vals:?} {flips:?} symbolic [{want}] native [{got}] {r:?}"
        )),
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum NatEnd {
    Held,
    Violated(String),
    Discarded,
}

/// Runs `f` in the native world on recorded values.
pub fn native(vals: Vec<i64>, flips: Vec<bool>, target: Option<usize>, f: impl FnOnce()) -> NatEnd {
    NATIVE.with(|n| {
        *n.borrow_mut() = Nat {
            vals,
            flips,
            target,
            ..Nat::default()
        };
    });
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => NatEnd::Held,
        Err(p) => match p.downcast::<NatSig>() {
            Ok(s) => match *s {
                NatSig::Discard => NatEnd::Discarded,
                NatSig::Violated(m) => NatEnd::Violated(m),
            },
            Err(p) => NatEnd::Violated(format!("harness panic: {}", engine::panic_text(&*p))),
        },
    }
}

/// Explores every path of `body`, mirroring each on `nat`.
pub fn run(body: impl Fn(), nat: Rc<dyn Fn()>) -> Result<(), Sig> {
    MIRROR.with(|m| *m.borrow_mut() = Some(nat));
    LABEL.with(|l| l.set(None));
    let r = engine::explore(|| {
        NOTES.with(|n| n.borrow_mut().clear());
        body();
        mirror(Some(usize::MAX));
    });
    MIRROR.with(|m| *m.borrow_mut() = None);
    r
}

enum NatSig {
    Discard,
    Violated(String),
}

/// Plain integers.
#[derive(Clone, Copy)]
pub struct Native;

/// Constants of the symbolic scalar: for code that is compiled for that type.
#[derive(Clone, Copy)]
pub struct Consts;

macro_rules! native_world { ($w:ident, $t:ty, $mk:expr, $val:expr) => {
impl World for $w {
    type T = $t;
    type B = bool;
    fn never(b: &bool) -> bool {
        !*b
    }
    fn c(v: i64) -> $t {
        $mk(v)
    }
    fn fresh(points: &[i64], gaps: &[(i64, i64)]) -> $t {
        $mk(NATIVE.with(|n| {
            let mut n = n.borrow_mut();
            let i = n.vi;
            n.vi += 1;
            n.vals
                .get(i)
                .copied()
                .unwrap_or_else(|| points.first().copied().unwrap_or_else(|| gaps[0].0 + 1))
        }))
    }
    fn between(x: &$t, lo: i64, hi: i64) -> bool {
        let v = $val(*x);
        lo <= v && v <= hi
    }
    fn pin(v: &[$t]) -> Vec<i64> {
        v.iter().map(|x| $val(*x)).collect()
    }
    fn flip() -> bool {
        NATIVE.with(|n| {
            let mut n = n.borrow_mut();
            let i = n.fi;
            n.fi += 1;
            n.flips.get(i).copied().unwrap_or(false)
        })
    }
    fn t() -> bool {
        true
    }
    fn f() -> bool {
        false
    }
    fn eq(a: &$t, b: &$t) -> bool {
        a == b
    }
    fn not(a: bool) -> bool {
        !a
    }
    fn and(v: &[bool]) -> bool {
        v.iter().all(|x| *x)
    }
    fn or(v: &[bool]) -> bool {
        v.iter().any(|x| *x)
    }
    fn require(good: bool, msg: impl FnOnce() -> String) {
        if !good {
            std::panic::panic_any(NatSig::Violated(msg()));
        }
    }
    fn require_all(goods: &[(bool, &str)]) {
        for (g, m) in goods {
            Self::require(*g, || (*m).to_string());
        }
    }
    fn explore(label: usize, mut f: impl FnMut()) {
        if NATIVE.with(|n| n.borrow().target) == Some(label) {
            f();
        }
    }
    /// What violated outside every `explore` needs everything built.
    fn wants(label: usize) -> bool {
        NATIVE.with(|n| n.borrow().target).is_none_or(|t| t == label)
    }
    fn guarded<R>(f: impl FnOnce() -> R) -> End<R> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => End::Done(r),
            Err(p) if p.is::<NatSig>() => std::panic::resume_unwind(p),
            Err(p) => End::Panic(engine::panic_text(&*p)),
        }
    }
    fn discard() -> ! {
        std::panic::panic_any(NatSig::Discard)
    }
    fn note(s: &str) {
        NATIVE.with(|n| {
            let mut n = n.borrow_mut();
            n.notes.push_str(s);
            n.notes.push(' ');
        });
    }
    fn reached(_: &'static str) {}
}
} }

native_world!(Native, i64, |v| v, |t: i64| t);
native_world!(Consts, Sx, Sx::c, |t: Sx| t.constant().expect("a constant"));
