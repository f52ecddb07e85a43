//! Driving the real parsers: token streams, semantic values, outcomes.
use crate::engine::End;
use crate::gram::{Gram, Res, Sy, Template, TOKENS};
use crate::world::World;
use lrp::{Action, Clr, Dfa, Error, Lalr, Parser, ReductFn, ReductMap, Slr, Tabler, Token};
use std::cell::RefCell;
use std::fmt::Debug;
use std::rc::Rc;

pub const KINDS: [&str; 3] = ["Clr", "Lalr", "Slr"];

/// Any of the three parsers.
pub enum Any<T: Ord + Clone + Debug> {
    C(Clr<T>),
    L(Lalr<T>),
    S(Slr<T>),
}

#[macro_export]
macro_rules! on {
    ($any:expr, $p:ident => $e:expr) => {
        match $any {
            $crate::run::Any::C($p) => $e,
            $crate::run::Any::L($p) => $e,
            $crate::run::Any::S($p) => $e,
        }
    };
}

impl<T: Ord + Clone + Debug> Any<T> {
    pub fn new(kind: usize, g: lrp::Grammar<T>) -> Self {
        match kind {
            0 => Self::C(Clr::new(g)),
            1 => Self::L(Lalr::new(g)),
            _ => Self::S(Slr::new(g)),
        }
    }
    pub fn with_table(kind: usize, t: Tabler<T>) -> Self {
        match kind {
            0 => Self::C(Clr::with_table(t)),
            1 => Self::L(Lalr::with_table(t)),
            _ => Self::S(Slr::with_table(t)),
        }
    }
    pub fn tables(&self) -> &Tabler<T> {
        on!(self, p => p.tables())
    }
    pub fn conflicts(&self) -> usize {
        self.tables().conflicts().count()
    }
    pub fn reduce_equals(&mut self) {
        on!(self, p => p.reduce_equals());
    }
}

/// Builds a parser; a panic or hang of the construction is a violation of the running property.
pub fn build<W: World>(kind: usize, g: &Gram<W::T>) -> Any<W::T> {
    match W::guarded(|| Any::new(kind, g.lrp())) {
        End::Done(p) => p,
        End::Panic(m) => W::fail(|| format!("{} construction panicked: {m}", KINDS[kind])),
        End::Hang => W::fail(|| format!("{} construction does not terminate", KINDS[kind])),
    }
}

/// The input: tokens appear when they are asked for.
pub struct Toks<W: World> {
    pub v: Vec<W::T>,
    pub ended: bool,
    pub max: usize,
    /// A sentence with holes instead of a free sequence.
    pub fixed: Option<Vec<Option<W::T>>>,
    /// What a free token may be.
    pub points: Vec<i64>,
    pub gaps: Vec<(i64, i64)>,
}

pub type Shared<W> = Rc<RefCell<Toks<W>>>;

impl<W: World> Toks<W> {
    pub fn free(max: usize) -> Shared<W> {
        Rc::new(RefCell::new(Self {
            v: vec![],
            ended: false,
            max,
            fixed: None,
            points: vec![],
            gaps: vec![TOKENS],
        }))
    }
    pub fn get(&mut self, i: usize) -> Option<W::T> {
        if i < self.v.len() {
            return Some(self.v[i].clone());
        }
        let end = match &self.fixed {
            Some(f) => i >= f.len(),
            None => self.v.len() >= self.max || !W::flip(),
        };
        if self.ended || end {
            self.ended = true;
            return None;
        }
        let t = self
            .fixed
            .as_ref()
            .and_then(|f| f[i].clone())
            .unwrap_or_else(|| W::fresh(&self.points, &self.gaps));
        self.v.push(t.clone());
        Some(t)
    }
}

#[derive(Clone)]
pub struct Stream<W: World, F> {
    pub toks: Shared<W>,
    pub i: usize,
    pub mk: F,
}

impl<W: World, X, F: Fn(usize, W::T) -> Token<X, W::T>> Iterator for Stream<W, F> {
    type Item = Token<X, W::T>;
    fn next(&mut self) -> Option<Self::Item> {
        let t = self.toks.borrow_mut().get(self.i)?;
        self.i += 1;
        Some((self.mk)(self.i - 1, t))
    }
}

/// The semantic value: what was reduced, from which values.
#[derive(Clone, Debug)]
pub enum Tree<T> {
    Leaf(usize),
    Node(Rc<Node<T>>),
}

#[derive(Debug)]
pub struct Node<T> {
    pub rule: usize,
    pub prod: usize,
    pub kids: Vec<Tree<T>>,
    pub tys: Vec<T>,
    pub seq: usize,
}

thread_local! {
    static CALLS: RefCell<Vec<(usize, usize)>> = const { RefCell::new(Vec::new()) };
}

pub fn calls() -> usize {
    CALLS.with(|c| c.borrow().len())
}

pub fn clear_calls() {
    CALLS.with(|c| c.borrow_mut().clear());
}

fn red<T: Clone, const R: usize, const P: usize>(toks: &[Token<Tree<T>, T>]) -> Tree<T> {
    let seq = CALLS.with(|c| {
        c.borrow_mut().push((R, P));
        c.borrow().len() - 1
    });
    Tree::Node(Rc::new(Node {
        rule: R,
        prod: P,
        kids: toks.iter().map(|t| t.item.clone()).collect(),
        tys: toks.iter().map(|t| t.ty.clone()).collect(),
        seq,
    }))
}

macro_rules! row {
    ($t:ty, $r:literal) => {
        [
            red::<$t, $r, 0>, red::<$t, $r, 1>, red::<$t, $r, 2>, red::<$t, $r, 3>,
            red::<$t, $r, 4>, red::<$t, $r, 5>, red::<$t, $r, 6>, red::<$t, $r, 7>,
            red::<$t, $r, 8>, red::<$t, $r, 9>, red::<$t, $r, 10>, red::<$t, $r, 11>,
            red::<$t, $r, 12>, red::<$t, $r, 13>, red::<$t, $r, 14>, red::<$t, $r, 15>,
        ]
    };
}

macro_rules! few {
    ($t:ty, $r:literal) => {
        [red::<$t, $r, 0>, red::<$t, $r, 1>, red::<$t, $r, 2>, red::<$t, $r, 3>]
    };
}

macro_rules! many {
    ($t:ty, $r:literal, $($h:literal)*) => {
        vec![$(
            red::<$t, $r, { $h * 10 }>, red::<$t, $r, { $h * 10 + 1 }>, red::<$t, $r, { $h * 10 + 2 }>,
            red::<$t, $r, { $h * 10 + 3 }>, red::<$t, $r, { $h * 10 + 4 }>, red::<$t, $r, { $h * 10 + 5 }>,
            red::<$t, $r, { $h * 10 + 6 }>, red::<$t, $r, { $h * 10 + 7 }>, red::<$t, $r, { $h * 10 + 8 }>,
            red::<$t, $r, { $h * 10 + 9 }>,
        )*]
    };
}

pub fn reductors<T: Ord + Clone + Debug>(g: &Gram<T>) -> ReductMap<Tree<T>, T> {
    let all: [[ReductFn<Tree<T>, T>; 16]; 16] = [row!(T, 0), row!(T, 1), row!(T, 2), row!(T, 3), row!(T, 4), row!(T, 5), row!(T, 6), row!(T, 7), row!(T, 8), row!(T, 9), row!(T, 10), row!(T, 11), row!(T, 12), row!(T, 13), row!(T, 14), row!(T, 15)];
    let more: [[ReductFn<Tree<T>, T>; 4]; 48] = [few!(T, 16), few!(T, 17), few!(T, 18), few!(T, 19), few!(T, 20), few!(T, 21), few!(T, 22), few!(T, 23), few!(T, 24), few!(T, 25), few!(T, 26), few!(T, 27), few!(T, 28), few!(T, 29), few!(T, 30), few!(T, 31), few!(T, 32), few!(T, 33), few!(T, 34), few!(T, 35), few!(T, 36), few!(T, 37), few!(T, 38), few!(T, 39), few!(T, 40), few!(T, 41), few!(T, 42), few!(T, 43), few!(T, 44), few!(T, 45), few!(T, 46), few!(T, 47), few!(T, 48), few!(T, 49), few!(T, 50), few!(T, 51), few!(T, 52), few!(T, 53), few!(T, 54), few!(T, 55), few!(T, 56), few!(T, 57), few!(T, 58), few!(T, 59), few!(T, 60), few!(T, 61), few!(T, 62), few!(T, 63)];
    let first: [fn() -> Vec<ReductFn<Tree<T>, T>>; 3] = [
        || many!(T, 0, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29),
        || many!(T, 1, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29),
        || many!(T, 2, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29),
    ];
    let row = |r: usize, n: usize| -> Vec<ReductFn<Tree<T>, T>> {
        match (r, n) {
            (0..16, 0..=16) => all[r][..n].to_vec(),
            (0..3, _) => first[r]()[..n].to_vec(),
            _ => more[r - 16][..n].to_vec(),
        }
    };
    g.names.iter().zip(&g.rules).enumerate().map(|(r, (n, ps))| (n.clone(), row(r, ps.len()))).collect()
}

impl<T> Tree<T> {
    pub fn leaves(&self) -> usize {
        match self {
            Self::Leaf(_) => 1,
            Self::Node(n) => n.kids.iter().map(Self::leaves).sum(),
        }
    }
    pub fn text(&self) -> String {
        match self {
            Self::Leaf(i) => format!("{i}"),
            Self::Node(n) => {
                let k: Vec<_> = n.kids.iter().map(Self::text).collect();
                format!("{}.{}({})", n.rule, n.prod, k.join(","))
            }
        }
    }
}

/// Two trees are the same derivation.
pub fn same_tree<T>(a: &Tree<T>, b: &Tree<T>) -> bool {
    match (a, b) {
        (Tree::Leaf(i), Tree::Leaf(j)) => i == j,
        (Tree::Node(x), Tree::Node(y)) => {
            x.rule == y.rule
                && x.prod == y.prod
                && x.kids.len() == y.kids.len()
                && x.kids.iter().zip(&y.kids).all(|(p, q)| same_tree(p, q))
        }
        _ => false,
    }
}

/// How a parse ended.
#[derive(Clone, Debug)]
pub enum Out<T> {
    Accept(Tree<T>),
    Unexpected(T, Vec<T>),
    /// The two actions named, taken apart.
    Conflict(Vec<Action<T>>),
    Incomplete,
    /// `UnexpectedEof`, `MissingPreviousState`, `StateNotSpecified`: never on a table of ours.
    Internal(&'static str),
}

impl<T> Out<T> {
    pub fn kind(&self) -> &'static str {
        match self {
            Self::Accept(_) => "accept",
            Self::Unexpected(..) => "unexpected token",
            Self::Conflict(_) => "conflict",
            Self::Incomplete => "incomplete",
            Self::Internal(s) => s,
        }
    }
    pub fn of(r: Result<Tree<T>, Error<T>>) -> Self
    where
        T: Debug,
    {
        match r {
            Ok(t) => Self::Accept(t),
            Err(Error::UnexpectedToken(a, b)) => Self::Unexpected(a, b),
            Err(Error::Conflict(a, b)) => {
                let mut v = vec![];
                plain(a, &mut v);
                plain(b, &mut v);
                Self::Conflict(v)
            }
            Err(Error::IncompleteExec) => Self::Incomplete,
            Err(Error::UnexpectedEof) => Self::Internal("UnexpectedEof"),
            Err(Error::MissingPreviousState) => Self::Internal("MissingPreviousState"),
            Err(Error::StateNotSpecified) => Self::Internal("StateNotSpecified"),
        }
    }
}

fn plain<T>(a: Action<T>, out: &mut Vec<Action<T>>) {
    if let Action::Conflict(x, y) = a {
        plain(*x, out);
        plain(*y, out);
    } else {
        out.push(a);
    }
}

/// The two outcomes are the same, as a formula.
pub fn same<W: World>(a: &Out<W::T>, b: &Out<W::T>) -> W::B {
    match (a, b) {
        (Out::Accept(x), Out::Accept(y)) => W::b(same_tree(x, y)),
        (Out::Unexpected(x, xs), Out::Unexpected(y, ys)) if xs.len() == ys.len() => {
            let mut v = vec![W::eq(x, y)];
            v.extend(xs.iter().zip(ys).map(|(p, q)| W::eq(p, q)));
            W::and(&v)
        }
        (Out::Unexpected(..), _) => W::f(),
        _ => W::b(a.kind() == b.kind()),
    }
}

/// One run of the parser.
pub struct Ran<W: World> {
    pub out: Out<W::T>,
    pub steps: usize,
    /// Tokens moved to the stack.
    pub consumed: usize,
    pub calls: usize,
    /// The state it stopped in.
    pub top: usize,
}

pub type Leaf<W> = fn(usize, <W as World>::T) -> Token<Tree<<W as World>::T>, <W as World>::T>;

pub fn stream<W: World>(toks: &Shared<W>) -> Stream<W, Leaf<W>> {
    fn leaf<T>(i: usize, t: T) -> Token<Tree<T>, T> {
        Token::new(Tree::Leaf(i), t)
    }
    Stream {
        toks: toks.clone(),
        i: 0,
        mk: leaf::<W::T>,
    }
}

pub type TreeDfa<W> = Dfa<Tree<<W as World>::T>, <W as World>::T, Stream<W, Leaf<W>>>;

pub fn dfa<W: World>(p: &Any<W::T>, g: &Gram<W::T>, toks: &Shared<W>) -> TreeDfa<W> {
    on!(p, p => p.dfa(stream::<W>(toks), reductors(g)))
}

/// Parses with step counting; a panic or hang is a violation of the running property.
pub fn parse<W: World>(p: &Any<W::T>, g: &Gram<W::T>, toks: &Shared<W>) -> Ran<W> {
    parse_with(p, g, toks, |_, _| ())
}

pub fn parse_with<W: World>(
    p: &Any<W::T>,
    g: &Gram<W::T>,
    toks: &Shared<W>,
    mut each: impl FnMut(usize, &TreeDfa<W>),
) -> Ran<W> {
    clear_calls();
    let mut d = dfa::<W>(p, g, toks);
    let mut steps = 0;
    let r = W::guarded(|| {
        d.trace(|d| {
            each(steps, d);
            steps += 1;
        })
    });
    let r = match r {
        End::Done(r) => r,
        End::Panic(m) => W::fail(|| format!("the parser panicked: {m}")),
        End::Hang => W::fail(|| "the parser does not terminate".to_string()),
    };
    let consumed: usize = d.items.iter().map(|t| t.item.leaves()).sum();
    let top = d.top;
    // what `Parser::parse` returns
    let out = match r {
        Err(e) => Out::of(Err(e)),
        Ok(()) => match d.items.pop() {
            Some(t) => Out::Accept(t.item),
            None => Out::Internal("MissingPreviousState"),
        },
    };
    W::note(out.kind());
    if let Out::Accept(t) = &out {
        W::note(&t.text());
    }
    W::note(&consumed.to_string());
    Ran {
        out,
        steps,
        consumed,
        calls: calls(),
        top,
    }
}

/// A sentence written with the characters of a template's fixed terminals, `?` for a hole.
pub fn sentence<W: World>(t: &Template, text: &str, l: &crate::gram::Layout) -> Shared<W> {
    let fixed = text
        .chars()
        .map(|c| {
            (c != '?').then(|| {
                let i = t.terms.iter().position(|x| *x == c).expect("terminal of the template");
                W::c(crate::gram::terminal(t, l, i))
            })
        })
        .collect();
    let s = Toks::<W>::free(usize::MAX);
    s.borrow_mut().fixed = Some(fixed);
    s
}

/// Formula: `tree` derives the tokens from `sym`, in order. Returns the next token position.
pub fn derivation<W: World>(
    g: &Res<W::T>,
    tree: &Tree<W::T>,
    sym: Sy,
    ty: Option<&W::T>,
    toks: &[W::T],
    pos: &mut usize,
    seq: &mut usize,
    out: &mut Vec<W::B>,
) -> Result<(), String> {
    let want = match sym {
        Sy::N(n) => &g.names[n],
        Sy::T(t) => &g.terms[t],
    };
    if let Some(ty) = ty {
        out.push(W::eq(ty, want));
    }
    match (tree, sym) {
        (Tree::Leaf(i), Sy::T(_)) => {
            if *i != *pos {
                return Err(format!("token {i} where token {pos} is due"));
            }
            if *i >= toks.len() {
                return Err(format!("token {i} does not exist"));
            }
            out.push(W::eq(&toks[*i], want));
            *pos += 1;
        }
        (Tree::Node(n), Sy::N(r)) => {
            if n.rule != r {
                return Err(format!("a value of rule {} where rule {r} is due", n.rule));
            }
            let Some(body) = g.rules[r].get(n.prod) else {
                return Err(format!("rule {r} has no production {}", n.prod));
            };
            if body.len() != n.kids.len() {
                return Err(format!(
                    "production {r}.{} was given {} values instead of {}",
                    n.prod,
                    n.kids.len(),
                    body.len()
                ));
            }
            for ((k, s), ty) in n.kids.iter().zip(body).zip(&n.tys) {
                derivation::<W>(g, k, *s, Some(ty), toks, pos, seq, out)?;
            }
            if n.seq != *seq {
                return Err(format!(
                    "production {r}.{} was evaluated as call {} instead of {seq}",
                    n.prod, n.seq
                ));
            }
            *seq += 1;
        }
        (Tree::Leaf(_), _) => return Err("a token where a rule is due".into()),
        (Tree::Node(_), _) => return Err("a rule where a token is due".into()),
    }
    Ok(())
}

