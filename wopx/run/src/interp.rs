//! Executes the lexer that `#[derive(Logos)]` generates, from its macro-expanded source, on a text
//! of symbolic bytes. Where the code decides on a byte, the values of that byte are grouped by what
//! the code does for them, and every group the solver finds feasible is followed.
use proc_macro2::Literal;
use std::collections::HashMap;
use std::sync::OnceLock;
use syn::{Block, Expr, Item, Lit, Pat, Stmt};
use symx::engine::{self, Sx};

#[derive(Debug, Clone)]
pub enum P {
    Any,
    Bind(String),
    Num(u64),
    Range(u64, u64),
    Or(Vec<P>),
    Some(Box<P>),
    None,
    Name(String),
    Slice(Vec<P>),
}

#[derive(Debug, Clone)]
pub enum E {
    Num(u64, u32),
    Bool(bool),
    Name(String),
    Block(Vec<S>, Option<Box<E>>),
    If(Box<E>, Box<E>, Option<Box<E>>),
    While(Box<E>, Box<E>),
    WhileLet(P, Box<E>, Box<E>),
    Loop(Box<E>),
    Match(Box<E>, Vec<(P, Option<E>, E)>),
    Call(String, Vec<E>),
    Method(Box<E>, String, Vec<E>, Option<usize>),
    Index(Box<E>, Box<E>),
    Cast(Box<E>, u32),
    Bin(char, Box<E>, Box<E>),
    Not(Box<E>),
    Return(Option<Box<E>>),
    Continue,
    Break,
    Array(Vec<E>),
    Unknown(String),
}

#[derive(Debug, Clone)]
pub enum S {
    Let(String, E),
    Do(E),
}

pub struct Program {
    fns: HashMap<String, (Vec<String>, E)>,
    /// Constant arrays and numbers, by the function they are in (or "").
    consts: HashMap<(String, String), V>,
    main: E,
    pub lines: usize,
}

#[derive(Debug, Clone, PartialEq)]
pub enum V {
    Unit,
    Lex,
    U(u64, u32),
    B(bool),
    Byte(usize),
    None,
    Some(Box<V>),
    View(usize, usize),
    Table(Vec<V>),
    Tag(String),
}

type R<T> = Result<T, String>;

fn unknown<T>(x: &impl quote::ToTokens) -> R<T> {
    let mut s = x.to_token_stream().to_string();
    s.truncate(120);
    Err(s)
}

fn last(p: &syn::Path) -> String {
    p.segments.last().map_or(String::new(), |s| s.ident.to_string())
}

fn width(t: &syn::Type) -> u32 {
    match quote::ToTokens::to_token_stream(t).to_string().as_str() {
        "u8" => 8,
        "u16" => 16,
        "u32" => 32,
        _ => 64,
    }
}

fn lit(l: &Lit) -> R<(u64, u32)> {
    match l {
        Lit::Int(i) => {
            let w = match i.suffix() {
                "u8" => 8,
                "u16" => 16,
                "u32" => 32,
                _ => 64,
            };
            i.base10_parse().map(|v| (v, w)).map_err(|e| e.to_string())
        }
        Lit::Byte(b) => Ok((u64::from(b.value()), 8)),
        l => unknown(l),
    }
}

fn pat(p: &Pat) -> R<P> {
    let end = |e: &Option<Box<Expr>>, d: u64| match e.as_deref() {
        None => Ok(d),
        Some(Expr::Lit(l)) => Ok(lit(&l.lit)?.0),
        Some(e) => unknown(e),
    };
    Ok(match p {
        Pat::Wild(_) => P::Any,
        Pat::Ident(i) if i.subpat.is_none() => match i.ident.to_string().as_str() {
            "None" => P::None,
            n => P::Bind(n.to_string()),
        },
        Pat::Lit(l) => match &l.lit {
            Lit::ByteStr(b) => P::Slice(b.value().iter().map(|b| P::Num(u64::from(*b))).collect()),
            l => P::Num(lit(l)?.0),
        },
        Pat::Range(r) => {
            let hi = end(&r.end, 255)?;
            P::Range(
                end(&r.start, 0)?,
                if matches!(r.limits, syn::RangeLimits::HalfOpen(_)) && r.end.is_some() { hi.wrapping_sub(1) } else { hi },
            )
        }
        Pat::Or(o) => P::Or(o.cases.iter().map(pat).collect::<R<_>>()?),
        Pat::TupleStruct(t) if last(&t.path) == "Some" && t.elems.len() == 1 => P::Some(Box::new(pat(&t.elems[0])?)),
        Pat::Path(p) => match last(&p.path).as_str() {
            "None" => P::None,
            n => P::Name(n.to_string()),
        },
        Pat::Slice(s) => P::Slice(s.elems.iter().map(pat).collect::<R<_>>()?),
        Pat::Reference(r) => pat(&r.pat)?,
        Pat::Paren(r) => pat(&r.pat)?,
        p => return unknown(p),
    })
}

/// `<&[u8; N]>` is `Some(N)`, `<u8>` is `None`.
fn turbofish(a: &syn::AngleBracketedGenericArguments) -> R<Option<usize>> {
    let s = quote::ToTokens::to_token_stream(&a.args).to_string().replace(' ', "");
    if s == "u8" {
        return Ok(None);
    }
    s.strip_prefix("&[u8;")
        .and_then(|s| s.strip_suffix(']'))
        .and_then(|s| s.trim_end_matches("usize").parse().ok())
        .map(Some)
        .ok_or(s)
}

fn boxed(e: &Expr) -> R<Box<E>> {
    Ok(Box::new(expr(e)?))
}

fn expr(e: &Expr) -> R<E> {
    Ok(match e {
        Expr::Lit(l) => match &l.lit {
            Lit::Bool(b) => E::Bool(b.value),
            l => {
                let (v, w) = lit(l)?;
                E::Num(v, w)
            }
        },
        Expr::Path(p) => E::Name(last(&p.path)),
        Expr::Paren(p) => expr(&p.expr)?,
        Expr::Group(p) => expr(&p.expr)?,
        Expr::Reference(r) => expr(&r.expr)?,
        Expr::Block(b) => block(&b.block)?,
        Expr::Unsafe(b) => block(&b.block)?,
        Expr::If(i) => {
            let other = i.else_branch.as_ref().map(|e| boxed(&e.1)).transpose()?;
            let then = block(&i.then_branch)?;
            match &*i.cond {
                Expr::Let(l) => {
                    let arms = vec![(pat(&l.pat)?, None, then), (P::Any, None, other.map_or(E::Block(vec![], None), |e| *e))];
                    E::Match(boxed(&l.expr)?, arms)
                }
                c => E::If(boxed(c)?, Box::new(then), other),
            }
        }
        Expr::While(w) => match &*w.cond {
            Expr::Let(l) => E::WhileLet(pat(&l.pat)?, boxed(&l.expr)?, Box::new(block(&w.body)?)),
            c => E::While(boxed(c)?, Box::new(block(&w.body)?)),
        },
        Expr::Loop(l) => E::Loop(Box::new(block(&l.body)?)),
        Expr::Match(m) => {
            let mut arms = vec![];
            for a in &m.arms {
                let guard = a.guard.as_ref().map(|g| expr(&g.1)).transpose()?;
                arms.push((pat(&a.pat)?, guard, expr(&a.body)?));
            }
            E::Match(boxed(&m.expr)?, arms)
        }
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => E::Call(last(&p.path), c.args.iter().map(expr).collect::<R<_>>()?),
            f => return unknown(f),
        },
        Expr::MethodCall(m) if m.method == "construct" => {
            // the callback that skips: everything else has a value to make
            E::Method(boxed(&m.receiver)?, "construct".into(), vec![], None)
        }
        Expr::MethodCall(m) => E::Method(
            boxed(&m.receiver)?,
            m.method.to_string(),
            m.args.iter().map(expr).collect::<R<_>>()?,
            m.turbofish.as_ref().map(turbofish).transpose()?.flatten(),
        ),
        Expr::Index(i) => E::Index(boxed(&i.expr)?, boxed(&i.index)?),
        Expr::Cast(c) => E::Cast(boxed(&c.expr)?, width(&c.ty)),
        Expr::Binary(b) => {
            use syn::BinOp::*;
            let op = match b.op {
                BitAnd(_) => '&',
                BitOr(_) => '|',
                Eq(_) => '=',
                Ne(_) => '!',
                Gt(_) => '>',
                Lt(_) => '<',
                Ge(_) => 'g',
                Le(_) => 'l',
                Shl(_) => 'L',
                Shr(_) => 'R',
                And(_) => 'a',
                Or(_) => 'o',
                Sub(_) => '-',
                Add(_) => '+',
                _ => return unknown(e),
            };
            E::Bin(op, boxed(&b.left)?, boxed(&b.right)?)
        }
        Expr::Unary(u) if matches!(u.op, syn::UnOp::Not(_)) => E::Not(boxed(&u.expr)?),
        Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => expr(&u.expr)?,
        Expr::Return(r) => E::Return(r.expr.as_ref().map(|e| boxed(e)).transpose()?),
        Expr::Continue(c) if c.label.is_none() => E::Continue,
        Expr::Break(c) if c.label.is_none() && c.expr.is_none() => E::Break,
        Expr::Array(a) => E::Array(a.elems.iter().map(expr).collect::<R<_>>()?),
        e => return unknown(e),
    })
}

fn block(b: &Block) -> R<E> {
    let mut out = vec![];
    let mut tail = None;
    for (k, s) in b.stmts.iter().enumerate() {
        match s {
            Stmt::Local(l) => {
                let Some(init) = &l.init else { return unknown(l) };
                let name = match &l.pat {
                    Pat::Ident(i) => i.ident.to_string(),
                    p => return unknown(p),
                };
                out.push(S::Let(name, soft(&init.expr)));
            }
            Stmt::Expr(e, semi) => {
                let x = soft(e);
                if semi.is_none() && k + 1 == b.stmts.len() {
                    tail = Some(Box::new(x));
                } else {
                    out.push(S::Do(x));
                }
            }
            Stmt::Item(_) | Stmt::Macro(_) => {}
        }
    }
    Ok(E::Block(out, tail))
}

/// What is not understood matters only where it is executed.
fn soft(e: &Expr) -> E {
    expr(e).unwrap_or_else(E::Unknown)
}

/// The constants of a block: numbers and arrays of numbers or tags.
fn constants(owner: &str, b: &Block, out: &mut HashMap<(String, String), V>) {
    fn value(e: &Expr) -> Option<V> {
        match e {
            Expr::Lit(l) => lit(&l.lit).ok().map(|(v, w)| V::U(v, w)),
            Expr::Path(p) => Some(V::Tag(last(&p.path))),
            Expr::Array(a) => a.elems.iter().map(value).collect::<Option<_>>().map(V::Table),
            Expr::Block(b) => match b.block.stmts.last() {
                Some(Stmt::Expr(e, None)) => value(e),
                _ => None,
            },
            Expr::Reference(r) => value(&r.expr),
            _ => None,
        }
    }
    for s in &b.stmts {
        let (name, ty, e) = match s {
            Stmt::Item(Item::Const(c)) => (&c.ident, &c.ty, &c.expr),
            Stmt::Item(Item::Static(c)) => (&c.ident, &c.ty, &c.expr),
            _ => continue,
        };
        if let Some(mut v) = value(e) {
            let elem = |t: &syn::Type| match t {
                syn::Type::Array(a) => width(&a.elem),
                t => width(t),
            };
            let w = elem(ty);
            match &mut v {
                V::U(_, x) => *x = w,
                V::Table(t) => {
                    for x in t {
                        if let V::U(_, x) = x {
                            *x = w;
                        }
                    }
                }
                _ => {}
            }
            out.insert((owner.to_string(), name.to_string()), v);
        }
    }
}

fn find(items: &[Item]) -> Option<&syn::ImplItemFn> {
    for i in items {
        match i {
            Item::Impl(i) => {
                let is = i.trait_.as_ref().is_some_and(|t| last(&t.1) == "Logos");
                let ty = quote::ToTokens::to_token_stream(&i.self_ty).to_string();
                if is && ty == "Sym" {
                    for x in &i.items {
                        if let syn::ImplItem::Fn(f) = x {
                            if f.sig.ident == "lex" {
                                return Some(f);
                            }
                        }
                    }
                }
            }
            Item::Mod(m) => {
                if let Some(f) = m.content.as_ref().and_then(|c| find(&c.1)) {
                    return Some(f);
                }
            }
            _ => {}
        }
    }
    None
}

fn load(path: &str) -> R<Program> {
    let _ = Literal::u8_suffixed(0);
    let text = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
    let file = syn::parse_file(&text).map_err(|e| format!("the expanded source: {e}"))?;
    let f = find(&file.items).ok_or("no impl of Logos for Sym")?;
    let mut fns = HashMap::new();
    let mut consts = HashMap::new();
    constants("", &f.block, &mut consts);
    for s in &f.block.stmts {
        if let Stmt::Item(Item::Fn(g)) = s {
            let name = g.sig.ident.to_string();
            let params = g
                .sig
                .inputs
                .iter()
                .map(|a| match a {
                    syn::FnArg::Typed(t) => match &*t.pat {
                        Pat::Ident(i) => i.ident.to_string(),
                        _ => String::new(),
                    },
                    syn::FnArg::Receiver(_) => "self".into(),
                })
                .collect();
            constants(&name, &g.block, &mut consts);
            fns.insert(name, (params, block(&g.block).unwrap_or_else(E::Unknown)));
        }
    }
    Ok(Program { fns, consts, main: block(&f.block)?, lines: text.lines().count() })
}

/// The lexer's program, or why there is none.
pub fn program() -> &'static R<Program> {
    static P: OnceLock<R<Program>> = OnceLock::new();
    P.get_or_init(|| {
        let d = concat!(env!("CARGO_MANIFEST_DIR"), "/../target/expanded.rs");
        load(&std::env::var("WOPX_EXPANDED").unwrap_or_else(|_| d.into()))
    })
}

/// A byte of the text.
#[derive(Clone, Copy, Debug)]
pub enum Byte {
    Fixed(u8),
    Sym(Sx),
}

enum Ctl {
    Need(usize),
    Return(V),
    Continue,
    Break,
    Restart,
    Unsupported(String),
}

type X<T> = Result<T, Ctl>;

/// What a decision comes to, as a function of the bytes it looks at.
#[derive(Clone, PartialEq, Debug)]
enum Sig {
    Out(usize),
    On(usize, Vec<(u8, Sig)>),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tok {
    Set(String),
    Error,
    End,
}

pub struct Run<'a> {
    p: &'a Program,
    text: &'a [Byte],
    /// Values each byte may still have.
    cand: Vec<u128>,
    /// Bytes looked at as if they had one value, inside a decision.
    fixed: Vec<Option<u8>>,
    deciding: usize,
    pub start: usize,
    pub end: usize,
    pub tok: Option<Tok>,
    /// Functions of the lexer that ran.
    pub ran: std::collections::BTreeSet<String>,
}

type Env<'e> = Vec<(&'e str, V)>;

impl<'a> Run<'a> {
    pub fn new(p: &'a Program, text: &'a [Byte]) -> Self {
        Self {
            p,
            text,
            cand: vec![u128::MAX; text.len()],
            fixed: vec![None; text.len()],
            deciding: 0,
            start: 0,
            end: 0,
            tok: None,
            ran: std::collections::BTreeSet::new(),
        }
    }
    /// Lexes the first token that is not skipped.
    pub fn next(&mut self) -> R<()> {
        let p = self.p;
        loop {
            self.start = self.end;
            let r = self.eval(&p.main, &mut vec![("lex", V::Lex)], "");
            match r {
                Ok(_) | Err(Ctl::Return(_)) => {
                    return if self.tok.is_some() { Ok(()) } else { Err("no token was set".into()) };
                }
                Err(Ctl::Restart) => {}
                Err(Ctl::Unsupported(s)) => return Err(s),
                Err(Ctl::Need(_)) => return Err("a value outside a decision".into()),
                Err(Ctl::Continue | Ctl::Break) => return Err("stray control flow".into()),
            }
        }
    }
    fn byte(&self, i: usize) -> X<u64> {
        match self.text[i] {
            Byte::Fixed(b) => Ok(u64::from(b)),
            Byte::Sym(s) => match self.fixed[i].map(u64::from).or_else(|| s.constant().map(|v| v as u64)) {
                Some(v) => Ok(v),
                None => Err(Ctl::Need(i)),
            },
        }
    }
    fn num(&self, v: &V) -> X<u64> {
        match v {
            V::U(v, _) => Ok(*v),
            V::Byte(i) => self.byte(*i),
            v => Err(Ctl::Unsupported(format!("not a number: {v:?}"))),
        }
    }
    fn boolean(&self, v: &V) -> X<bool> {
        match v {
            V::B(b) => Ok(*b),
            v => Err(Ctl::Unsupported(format!("not a boolean: {v:?}"))),
        }
    }
    fn sig(&mut self, f: &mut impl FnMut(&mut Self) -> X<usize>) -> X<Sig> {
        match f(self) {
            Ok(o) => Ok(Sig::Out(o)),
            Err(Ctl::Need(i)) => {
                let mut v = vec![];
                for b in 0..128u8 {
                    if self.cand[i] >> b & 1 == 1 {
                        self.fixed[i] = Some(b);
                        let s = self.sig(f);
                        self.fixed[i] = None;
                        v.push((b, s?));
                    }
                }
                if v.windows(2).all(|w| w[0].1 == w[1].1) {
                    return Ok(v.swap_remove(0).1);
                }
                Ok(Sig::On(i, v))
            }
            Err(c) => Err(c),
        }
    }
    /// Decides on the outcome of `f`, following each feasible one.
    fn decide(&mut self, mut f: impl FnMut(&mut Self) -> X<usize>) -> X<usize> {
        if self.deciding > 0 {
            return f(self);
        }
        self.deciding += 1;
        let s = self.sig(&mut f);
        self.deciding -= 1;
        let mut s = s?;
        loop {
            match s {
                Sig::Out(o) => return Ok(o),
                Sig::On(i, v) => {
                    let mut groups: Vec<(u128, Sig)> = vec![];
                    for (b, s) in v {
                        match groups.iter_mut().find(|g| g.1 == s) {
                            Some(g) => g.0 |= 1 << b,
                            None => groups.push((1 << b, s)),
                        }
                    }
                    let Byte::Sym(x) = self.text[i] else { unreachable!() };
                    let k = engine::branch(|e| {
                        groups
                            .iter()
                            .map(|g| {
                                let mut ors = vec![];
                                let mut b = 0;
                                while b < 128 {
                                    if g.0 >> b & 1 == 0 {
                                        b += 1;
                                        continue;
                                    }
                                    let lo = b;
                                    while b < 128 && g.0 >> b & 1 == 1 {
                                        b += 1;
                                    }
                                    let a = e.ast(x);
                                    let l = e.ast(Sx::c(lo - 1));
                                    let h = e.ast(Sx::c(b));
                                    let c = [e.z.lt(l, a), e.z.lt(a, h)];
                                    ors.push(e.z.and(&c));
                                }
                                e.z.or(&ors)
                            })
                            .collect()
                    });
                    let (set, sig) = groups.swap_remove(k);
                    self.cand[i] = set;
                    s = sig;
                }
            }
        }
    }
    fn matches<'e>(&self, p: &'e P, v: &V, env: &mut Env<'e>) -> X<bool> {
        Ok(match (p, v) {
            (P::Any, _) => true,
            (P::Bind(n), v) => {
                env.push((n, v.clone()));
                true
            }
            (P::Num(n), v) => self.num(v)? == *n,
            (P::Range(a, b), v) => (*a..=*b).contains(&self.num(v)?),
            (P::Or(ps), v) => {
                for p in ps {
                    if self.matches(p, v, env)? {
                        return Ok(true);
                    }
                }
                false
            }
            (P::Some(p), V::Some(v)) => self.matches(p, v, env)?,
            (P::None, V::None) => true,
            (P::Some(_), V::None) | (P::None, V::Some(_)) => false,
            (P::Name(n), V::Tag(t)) => n == t,
            (P::Slice(ps), V::View(at, n)) => {
                if ps.len() != *n {
                    return Err(Ctl::Unsupported("slice pattern".into()));
                }
                for (k, p) in ps.iter().enumerate() {
                    if !self.matches(p, &V::Byte(at + k), env)? {
                        return Ok(false);
                    }
                }
                true
            }
            (p, v) => return Err(Ctl::Unsupported(format!("pattern {p:?} on {v:?}"))),
        })
    }
    fn read(&self, at: usize, n: Option<usize>) -> V {
        match n {
            None if at < self.text.len() => V::Some(Box::new(V::Byte(at))),
            Some(n) if at + n <= self.text.len() => V::Some(Box::new(V::View(at, n))),
            _ => V::None,
        }
    }
    fn call<'e>(&mut self, name: &str, args: Vec<V>) -> X<V>
    where
        'a: 'e,
    {
        let p = self.p;
        let Some((name, (params, body))) = p.fns.get_key_value(name) else {
            return Err(Ctl::Unsupported(format!("function {name}")));
        };
        if self.deciding == 0 {
            self.ran.insert(name.clone());
        }
        let mut env: Env = params.iter().map(String::as_str).zip(args).collect();
        match self.eval(body, &mut env, name) {
            Err(Ctl::Return(v)) => Ok(v),
            r => r,
        }
    }
    fn eval<'e>(&mut self, e: &'e E, env: &mut Env<'e>, owner: &'e str) -> X<V> {
        Ok(match e {
            E::Num(v, w) => V::U(*v, *w),
            E::Bool(b) => V::B(*b),
            E::Name(n) => {
                if let Some((_, v)) = env.iter().rev().find(|x| x.0 == n) {
                    return Ok(v.clone());
                }
                for o in [owner, ""] {
                    if let Some(v) = self.p.consts.get(&(o.to_string(), n.clone())) {
                        return Ok(v.clone());
                    }
                }
                V::Tag(n.clone())
            }
            E::Block(ss, tail) => {
                let depth = env.len();
                for s in ss {
                    match s {
                        S::Let(n, e) => {
                            let v = self.eval(e, env, owner)?;
                            env.push((n, v));
                        }
                        S::Do(e) => {
                            self.eval(e, env, owner)?;
                        }
                    }
                }
                let v = match tail {
                    Some(t) => self.eval(t, env, owner)?,
                    None => V::Unit,
                };
                env.truncate(depth);
                v
            }
            E::If(c, a, b) => {
                let k = self.condition(c, env, owner)?;
                if k {
                    self.eval(a, env, owner)?
                } else if let Some(b) = b {
                    self.eval(b, env, owner)?
                } else {
                    V::Unit
                }
            }
            E::While(c, b) => {
                while self.condition(c, env, owner)? {
                    if self.turn(b, env, owner)? {
                        break;
                    }
                }
                V::Unit
            }
            E::Loop(b) => {
                while !self.turn(b, env, owner)? {}
                V::Unit
            }
            E::WhileLet(p, e, b) => {
                loop {
                    let v = self.eval(e, env, owner)?;
                    let depth = env.len();
                    let k = self.decide(|r| {
                        let mut env2 = vec![];
                        r.matches(p, &v, &mut env2).map(usize::from)
                    })?;
                    if k == 0 {
                        break;
                    }
                    self.bind(p, &v, env);
                    let stop = self.turn(b, env, owner)?;
                    env.truncate(depth);
                    if stop {
                        break;
                    }
                }
                V::Unit
            }
            E::Match(x, arms) => {
                let base = env.clone();
                let k = self.decide(|r| {
                    let mut env = base.clone();
                    let v = r.eval(x, &mut env, owner)?;
                    for (k, (p, g, _)) in arms.iter().enumerate() {
                        let mut env = base.clone();
                        if r.matches(p, &v, &mut env)? {
                            let go = match g {
                                Some(g) => {
                                    let b = r.eval(g, &mut env, owner)?;
                                    r.boolean(&b)?
                                }
                                None => true,
                            };
                            if go {
                                return Ok(k);
                            }
                        }
                    }
                    Err(Ctl::Unsupported("no arm matches".into()))
                })?;
                let depth = env.len();
                let (p, _, body) = &arms[k];
                if has_binds(p) {
                    let v = self.eval(x, env, owner)?;
                    self.bind(p, &v, env);
                }
                let v = self.eval(body, env, owner)?;
                env.truncate(depth);
                v
            }
            E::Call(f, args) => {
                if f == "skip" && args.len() == 1 {
                    return Ok(V::Tag("skip".into()));
                }
                if f == "Some" && args.len() == 1 {
                    return Ok(V::Some(Box::new(self.eval(&args[0], env, owner)?)));
                }
                let mut v = vec![];
                for a in args {
                    v.push(self.eval(a, env, owner)?);
                }
                self.call(f, v)?
            }
            E::Method(x, m, args, n) => {
                let x = self.eval(x, env, owner)?;
                if m == "test" && x == V::Lex {
                    let E::Name(f) = &args[0] else { return Err(Ctl::Unsupported("test".into())) };
                    return match self.read(self.end, None) {
                        V::Some(b) => self.call(f, vec![*b]),
                        _ => Ok(V::B(false)),
                    };
                }
                let mut v = vec![];
                for a in args {
                    v.push(self.eval(a, env, owner)?);
                }
                match (m.as_str(), &x) {
                    ("construct", V::Tag(t)) if t == "skip" => return Err(Ctl::Restart),
                    ("read", V::Lex) => self.read(self.end, *n),
                    ("read_at", V::Lex) => {
                        let k = self.num(&v[0])? as usize;
                        self.read(self.end + k, *n)
                    }
                    ("bump_unchecked", V::Lex) => {
                        if self.deciding > 0 {
                            return Err(Ctl::Unsupported("an effect in a decision".into()));
                        }
                        self.end += self.num(&v[0])? as usize;
                        if self.end > self.text.len() {
                            return Err(Ctl::Unsupported("the lexer runs past the end".into()));
                        }
                        V::Unit
                    }
                    ("set", V::Lex) => {
                        let V::Tag(t) = &v[0] else { return Err(Ctl::Unsupported("set".into())) };
                        self.tok = Some(Tok::Set(t.clone()));
                        V::Unit
                    }
                    ("error", V::Lex) => {
                        self.tok = Some(Tok::Error);
                        // up to the next character boundary
                        while self.end < self.text.len()
                            && matches!(self.text[self.end], Byte::Fixed(b) if b & 0xC0 == 0x80)
                        {
                            self.end += 1;
                        }
                        V::Unit
                    }
                    ("end", V::Lex) => {
                        self.tok = Some(Tok::End);
                        V::Unit
                    }
                    ("checked_shl", V::U(a, w)) => {
                        let s = self.num(&v[0])?;
                        if s < u64::from(*w) {
                            V::Some(Box::new(V::U(mask(a << s, *w), *w)))
                        } else {
                            V::None
                        }
                    }
                    ("wrapping_sub", a) => {
                        let w = if let V::U(_, w) = a { *w } else { 8 };
                        V::U(mask(self.num(a)?.wrapping_sub(self.num(&v[0])?), w), w)
                    }
                    _ => return Err(Ctl::Unsupported(format!("method {m}"))),
                }
            }
            E::Index(a, i) => {
                let i = self.eval(i, env, owner)?;
                let i = self.num(&i)? as usize;
                // tables are looked up in place
                if let E::Name(n) = &**a {
                    if !env.iter().any(|x| x.0 == n) {
                        for o in [owner, ""] {
                            if let Some(V::Table(t)) = self.p.consts.get(&(o.to_string(), n.clone())) {
                                return t.get(i).cloned().ok_or(Ctl::Unsupported("index".into()));
                            }
                        }
                    }
                }
                match self.eval(a, env, owner)? {
                    V::View(at, n) if i < n => V::Byte(at + i),
                    V::Table(t) if i < t.len() => t[i].clone(),
                    _ => return Err(Ctl::Unsupported("index".into())),
                }
            }
            E::Cast(x, w) => {
                let v = self.eval(x, env, owner)?;
                V::U(mask(self.num(&v)?, *w), *w)
            }
            E::Not(x) => match self.eval(x, env, owner)? {
                V::B(b) => V::B(!b),
                _ => return Err(Ctl::Unsupported("!".into())),
            },
            E::Bin(op, a, b) => {
                let x = self.eval(a, env, owner)?;
                if let V::B(l) = x {
                    if (*op == 'a' && !l) || (*op == 'o' && l) {
                        return Ok(V::B(l));
                    }
                    let y = self.eval(b, env, owner)?;
                    let r = self.boolean(&y)?;
                    return Ok(V::B(match op {
                        'a' | '&' => l && r,
                        'o' | '|' => l || r,
                        '=' => l == r,
                        '!' => l != r,
                        _ => return Err(Ctl::Unsupported("operator".into())),
                    }));
                }
                let y = self.eval(b, env, owner)?;
                let w = if let V::U(_, w) = x { w } else { 8 };
                let (x, y) = (self.num(&x)?, self.num(&y)?);
                match op {
                    '&' => V::U(x & y, w),
                    '|' => V::U(x | y, w),
                    'L' if y < u64::from(w) => V::U(mask(x << y, w), w),
                    'R' if y < u64::from(w) => V::U(x >> y, w),
                    '+' if mask(x + y, w) == x + y => V::U(x + y, w),
                    '-' if x >= y => V::U(x - y, w),
                    '=' => V::B(x == y),
                    '!' => V::B(x != y),
                    '>' => V::B(x > y),
                    '<' => V::B(x < y),
                    'g' => V::B(x >= y),
                    'l' => V::B(x <= y),
                    _ => return Err(Ctl::Unsupported("operator".into())),
                }
            }
            E::Return(x) => {
                let v = match x {
                    Some(x) => self.eval(x, env, owner)?,
                    None => V::Unit,
                };
                return Err(Ctl::Return(v));
            }
            E::Continue => return Err(Ctl::Continue),
            E::Break => return Err(Ctl::Break),
            E::Array(_) => return Err(Ctl::Unsupported("array".into())),
            E::Unknown(s) => return Err(Ctl::Unsupported(s.clone())),
        })
    }
    fn condition<'e>(&mut self, c: &'e E, env: &mut Env<'e>, owner: &'e str) -> X<bool> {
        let base = env.clone();
        self.decide(|r| {
            let mut env = base.clone();
            let v = r.eval(c, &mut env, owner)?;
            r.boolean(&v).map(usize::from)
        })
        .map(|k| k == 1)
    }
    /// One turn of a loop; true when it is left.
    fn turn<'e>(&mut self, b: &'e E, env: &mut Env<'e>, owner: &'e str) -> X<bool> {
        let depth = env.len();
        let r = match self.eval(b, env, owner) {
            Ok(_) | Err(Ctl::Continue) => Ok(false),
            Err(Ctl::Break) => Ok(true),
            Err(c) => Err(c),
        };
        env.truncate(depth);
        r
    }
    /// Binds the names of a pattern that is known to match.
    fn bind<'e>(&self, p: &'e P, v: &V, env: &mut Env<'e>) {
        match (p, v) {
            (P::Bind(n), v) => env.push((n, v.clone())),
            (P::Some(p), V::Some(v)) => self.bind(p, v, env),
            (P::Slice(ps), V::View(at, _)) => {
                for (k, p) in ps.iter().enumerate() {
                    self.bind(p, &V::Byte(at + k), env);
                }
            }
            _ => {}
        }
    }
}

fn has_binds(p: &P) -> bool {
    match p {
        P::Bind(_) => true,
        P::Some(p) => has_binds(p),
        P::Slice(p) | P::Or(p) => p.iter().any(has_binds),
        _ => false,
    }
}

fn mask(v: u64, w: u32) -> u64 {
    if w >= 64 {
        v
    } else {
        v & ((1 << w) - 1)
    }
}
