//! Reads what the builder generates, as far as it can be read without compiling it: the grammar
//! expression and the aliases in force where a code block stands. Whatever is not understood is
//! reported as such and left to the generated code that is compiled and run.
use std::collections::BTreeMap;
use syn::punctuated::Punctuated;
use syn::{Block, Expr, Item, Lit, Pat, Stmt, Token};

fn words(t: &impl quote::ToTokens) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

/// The elements of `vec![..]` or `[..]`.
fn list(e: &Expr) -> Option<Vec<Expr>> {
    match e {
        Expr::Macro(m) if m.mac.path.segments.last()?.ident == "vec" => {
            let p = m.mac.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
            Some(p.into_iter().collect())
        }
        Expr::Array(a) => Some(a.elems.iter().cloned().collect()),
        Expr::Reference(r) => list(&r.expr),
        Expr::Paren(r) => list(&r.expr),
        Expr::Group(r) => list(&r.expr),
        Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "to_vec" | "into" | "clone") => list(&m.receiver),
        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(e, None) => list(e),
            _ => None,
        },
        _ => None,
    }
}

#[derive(Default, Debug)]
pub struct Rules {
    pub uses: Vec<String>,
    /// Name and bodies, in the order of their insertion.
    pub rules: Vec<(String, Vec<Vec<String>>)>,
}

fn inserts<'a>(b: &'a Block, out: &mut Vec<(&'a Expr, &'a Expr)>, uses: &mut Vec<String>) {
    for s in &b.stmts {
        match s {
            Stmt::Item(Item::Use(u)) => uses.push(words(&u.tree)),
            Stmt::Expr(Expr::MethodCall(m), _) if m.method == "insert" && m.args.len() == 2 => {
                out.push((&m.args[0], &m.args[1]));
            }
            Stmt::Expr(Expr::Block(b), _) => inserts(&b.block, out, uses),
            _ => {}
        }
    }
}

/// `Err`: not Rust. `Ok(None)`: not understood.
pub fn grammar(text: &str) -> Result<Option<Rules>, String> {
    let b: Block = syn::parse_str(text).map_err(|e| e.to_string())?;
    let mut v = vec![];
    let mut r = Rules::default();
    inserts(&b, &mut v, &mut r.uses);
    for (name, e) in v {
        let bodies = match e {
            Expr::Call(c) if words(&c.func).ends_with("Rule::new") && c.args.len() == 2 => {
                if words(&c.args[0]) != words(name) {
                    return Ok(None);
                }
                list(&c.args[1])
            }
            _ => None,
        };
        let Some(bodies) = bodies else { return Ok(None) };
        let mut out = vec![];
        for b in &bodies {
            let Some(syms) = list(b) else { return Ok(None) };
            out.push(syms.iter().map(words).collect());
        }
        r.rules.push((words(name), out));
    }
    Ok((!r.rules.is_empty()).then_some(r))
}

/// The imports of a generated grammar without rules.
pub fn uses(text: &str) -> Option<Vec<String>> {
    let b: Block = syn::parse_str(text).ok()?;
    let (mut v, mut uses) = (vec![], vec![]);
    inserts(&b, &mut v, &mut uses);
    v.is_empty().then_some(uses)
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Val {
    One { at: usize, owned: bool },
    Many { from: usize, to: usize, owned: bool },
    Some(Box<Val>),
    /// With the type it would have.
    None { many: bool, owned: bool },
    /// Not understood.
    Other,
}

type Env = BTreeMap<String, Val>;

fn number(e: &Expr) -> Option<usize> {
    match e {
        Expr::Lit(l) => match &l.lit {
            Lit::Int(i) => i.base10_parse().ok(),
            _ => None,
        },
        Expr::Paren(p) => number(&p.expr),
        _ => None,
    }
}

fn own(v: Val) -> Val {
    match v {
        Val::One { at, .. } => Val::One { at, owned: true },
        Val::Many { from, to, .. } => Val::Many { from, to, owned: true },
        Val::None { many, .. } => Val::None { many, owned: true },
        Val::Some(v) => Val::Some(Box::new(own(*v))),
        Val::Other => Val::Other,
    }
}

/// `None` in place of `v`.
fn gone(v: &Val) -> Val {
    match v {
        Val::Some(v) => match **v {
            Val::One { owned, .. } => Val::None { many: false, owned },
            Val::Many { owned, .. } => Val::None { many: true, owned },
            _ => Val::Other,
        },
        Val::None { many, owned } => Val::None { many: *many, owned: *owned },
        _ => Val::Other,
    }
}

fn eval(e: &Expr, toks: &str, env: &Env) -> Val {
    match e {
        Expr::Paren(p) => eval(&p.expr, toks, env),
        Expr::Group(p) => eval(&p.expr, toks, env),
        Expr::Reference(r) => eval(&r.expr, toks, env),
        Expr::Path(p) => p.path.get_ident().and_then(|i| env.get(&i.to_string())).cloned().unwrap_or(Val::Other),
        Expr::Index(i) if words(&i.expr) == toks => match &*i.index {
            Expr::Range(r) => {
                let from = r.start.as_ref().map_or(Some(0), |e| number(e));
                let to = r.end.as_ref().and_then(|e| number(e));
                match (from, to) {
                    (Some(from), Some(to)) => {
                        let to = to + usize::from(matches!(r.limits, syn::RangeLimits::Closed(_)));
                        Val::Many { from, to, owned: false }
                    }
                    _ => Val::Other,
                }
            }
            e => number(e).map_or(Val::Other, |at| Val::One { at, owned: false }),
        },
        Expr::MethodCall(m) if m.args.is_empty() => match m.method.to_string().as_str() {
            "clone" | "to_vec" | "to_owned" | "cloned" => own(eval(&m.receiver, toks, env)),
            _ => Val::Other,
        },
        Expr::Call(c) if c.args.len() == 1 && words(&c.func).ends_with("Some") => {
            match eval(&c.args[0], toks, env) {
                Val::Other => Val::Other,
                v => Val::Some(Box::new(v)),
            }
        }
        _ => Val::Other,
    }
}

struct Walk<'a> {
    toks: &'a str,
    /// Where the code blocks stand, and what is in force there.
    seen: Vec<(String, Env)>,
}

impl Walk<'_> {
    fn expr(&mut self, e: &Expr, env: &Env) {
        match e {
            Expr::Block(b) => self.block(&b.block, env),
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    let i = i.to_string();
                    if i.starts_with("code_") {
                        self.seen.push((i, env.clone()));
                    }
                }
            }
            Expr::Call(c) => c.args.iter().for_each(|a| self.expr(a, env)),
            Expr::MethodCall(c) => {
                self.expr(&c.receiver, env);
                c.args.iter().for_each(|a| self.expr(a, env));
            }
            Expr::Paren(p) => self.expr(&p.expr, env),
            Expr::Struct(s) => s.fields.iter().for_each(|f| self.expr(&f.expr, env)),
            Expr::Return(r) => {
                if let Some(e) = &r.expr {
                    self.expr(e, env);
                }
            }
            Expr::Let(l) => self.expr(&l.expr, env),
            _ => {}
        }
    }
    fn block(&mut self, b: &Block, env: &Env) {
        let mut env = env.clone();
        for s in &b.stmts {
            match s {
                Stmt::Local(l) => {
                    let (name, typed) = match &l.pat {
                        Pat::Ident(i) => (i.ident.to_string(), false),
                        Pat::Type(t) => match &*t.pat {
                            Pat::Ident(i) => (i.ident.to_string(), true),
                            _ => continue,
                        },
                        _ => continue,
                    };
                    let Some(init) = &l.init else {
                        env.insert(name, Val::Other);
                        continue;
                    };
                    self.expr(&init.expr, &env);
                    let v = if typed { Val::Other } else { eval(&init.expr, self.toks, &env) };
                    env.insert(name, v);
                }
                Stmt::Expr(Expr::Assign(a), _) => {
                    let name = words(&a.left);
                    let v = if words(&a.right) == "None" {
                        env.get(&name).map_or(Val::Other, gone)
                    } else {
                        eval(&a.right, self.toks, &env)
                    };
                    env.insert(name, v);
                }
                Stmt::Expr(e, _) => self.expr(e, &env),
                _ => {}
            }
        }
    }
}

/// A reduction function: the code block it runs, and the aliases there.
pub type Red = (String, BTreeMap<String, Val>);

/// For each rule, its functions in order; `None` where one is not understood.
pub fn reductors(text: &str) -> Result<Option<(Vec<String>, Vec<(String, Vec<Option<Red>>)>)>, String> {
    let b: Block = syn::parse_str(text).map_err(|e| e.to_string())?;
    let (mut v, mut uses) = (vec![], vec![]);
    inserts(&b, &mut v, &mut uses);
    let mut out = vec![];
    for (name, e) in v {
        let mut scopes: Vec<&Block> = vec![&b];
        let mut e = e;
        while let Expr::Block(i) = e {
            scopes.push(&i.block);
            match i.block.stmts.last() {
                Some(Stmt::Expr(x, None)) => e = x,
                _ => return Ok(None),
            }
        }
        let Some(fns) = list(e) else { return Ok(None) };
        let mut row = vec![];
        for f in &fns {
            let f = words(f);
            let found = scopes.iter().rev().find_map(|b| {
                b.stmts.iter().find_map(|s| match s {
                    Stmt::Item(Item::Fn(x)) if x.sig.ident == f => Some(x),
                    _ => None,
                })
            });
            row.push(found.and_then(|x| {
                let toks = match x.sig.inputs.first()? {
                    syn::FnArg::Typed(t) => words(&t.pat),
                    syn::FnArg::Receiver(_) => return None,
                };
                let mut w = Walk { toks: &toks, seen: vec![] };
                w.block(&x.block, &BTreeMap::new());
                match &w.seen[..] {
                    [one] => Some(one.clone()),
                    _ => None,
                }
            }));
        }
        out.push((words(name), row));
    }
    Ok((!out.is_empty()).then_some((uses, out)))
}
