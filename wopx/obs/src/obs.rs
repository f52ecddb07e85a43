//! What generated reductors see, recorded.
use lrp::{Meta, Token};
use std::cell::Cell;
use std::rc::Rc;
use symx::engine::Sx;

/// The entry type the code is generated for.
pub type Tok = Token<Meta<V>, Sx>;

/// A semantic value: a token of the input, or a call of a generated reductor.
#[derive(Clone, Debug)]
pub struct V {
    pub id: usize,
    pub node: Option<Rc<Node>>,
}

#[derive(Debug)]
pub struct Node {
    /// Which code block of the source ran.
    pub code: usize,
    pub toks: Vec<Tok>,
    pub binds: Vec<(&'static str, Bound)>,
}

/// What an alias is bound to.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Bound {
    One { id: usize, owned: bool },
    Many { ids: Vec<usize>, owned: bool },
    Some(Box<Bound>),
    None(Shape),
}

/// The type of a value that is not there.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Shape {
    One { owned: bool },
    Many { owned: bool },
    Nested,
}

pub trait Bind {
    const SHAPE: Shape;
    fn bound(&self) -> Bound;
}

impl Bind for Tok {
    const SHAPE: Shape = Shape::One { owned: true };
    fn bound(&self) -> Bound {
        Bound::One { id: self.item.item.id, owned: true }
    }
}
impl Bind for &Tok {
    const SHAPE: Shape = Shape::One { owned: false };
    fn bound(&self) -> Bound {
        Bound::One { id: self.item.item.id, owned: false }
    }
}
impl Bind for Vec<Tok> {
    const SHAPE: Shape = Shape::Many { owned: true };
    fn bound(&self) -> Bound {
        Bound::Many { ids: self.iter().map(|t| t.item.item.id).collect(), owned: true }
    }
}
impl Bind for &[Tok] {
    const SHAPE: Shape = Shape::Many { owned: false };
    fn bound(&self) -> Bound {
        Bound::Many { ids: self.iter().map(|t| t.item.item.id).collect(), owned: false }
    }
}
impl<B: Bind> Bind for Option<B> {
    const SHAPE: Shape = Shape::Nested;
    fn bound(&self) -> Bound {
        match self {
            Some(b) => Bound::Some(Box::new(b.bound())),
            None => Bound::None(B::SHAPE),
        }
    }
}

pub fn bind<B: Bind>(b: &B) -> Bound {
    b.bound()
}

thread_local! {
    static NEXT: Cell<usize> = const { Cell::new(0) };
}

pub fn reset() {
    NEXT.with(|n| n.set(0));
}

fn next() -> usize {
    NEXT.with(|n| n.replace(n.get() + 1))
}

pub fn leaf() -> V {
    V { id: next(), node: None }
}

/// What the code block number `code` of a template evaluates to.
pub fn node(code: usize, toks: &[Tok], binds: Vec<(&'static str, Bound)>) -> V {
    V { id: next(), node: Some(Rc::new(Node { code, toks: toks.to_vec(), binds })) }
}
