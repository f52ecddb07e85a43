//! Sources with symbolic tokens: the wop grammar is executed by the parser generator on symbolic
//! token kinds; each feasible path is then written out as text and given to the real builder,
//! whose declarations, productions and aliases are compared with the reference reading.
use crate::dump::{self, Val};
use lrp_pub::{Parser, Slr, Token};
use std::any::{Any, TypeId};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use symx::engine::End;
use symx::gram::{Gram, Res};
use symx::lang::Lang;
use symx::world::World;
use wobs::refer::{self, Binding, Decl, Kind, Place, KINDS};
use wop::Sym;

/// One letter for each kind, in the order of `KINDS`.
const LETTERS: &str = "au=|();P:*o&isce";

pub fn sym(k: Kind) -> Sym {
    match k {
        Kind::AliasWord => Sym::AliasWord,
        Kind::UseWord => Sym::UseWord,
        Kind::Assign => Sym::Assign,
        Kind::Pipe => Sym::Pipe,
        Kind::OpenParen => Sym::OpenParen,
        Kind::CloseParen => Sym::CloseParen,
        Kind::Sc => Sym::Sc,
        Kind::PathAccess => Sym::PathAccess,
        Kind::TwoDots => Sym::TwoDots,
        Kind::Glob => Sym::Glob,
        Kind::Optional => Sym::Optional,
        Kind::Clone => Sym::Clone,
        Kind::Ident => Sym::Ident,
        Kind::StrLit => Sym::StrLit,
        Kind::CodeBlock => Sym::CodeBlock,
        Kind::Error => Sym::Error,
    }
}

fn code(k: Kind) -> i64 {
    sym(k) as i64
}

fn kind_of(v: i64) -> Kind {
    *KINDS.iter().find(|k| code(**k) == v).expect("a kind")
}

/// The notation, over token kinds.
const BNF: &[(&str, &str)] = &[
    ("START", "PROG"),
    ("PROG", "PROG DECL ; / DECL ;"),
    ("DECL", "u PATH / u PATH P * / a i PATH / a s PATH / PATH : PATH = ALTS"),
    ("PATH", "PATH P i / i"),
    ("ALTS", "ALTS | ALT / ALT"),
    ("ALT", "ITEMS c / ITEMS"),
    ("ITEMS", "ITEMS ITEM / ITEM"),
    ("ITEM", "BASE / BASE o / BASE : i / BASE : & i / BASE o : i / BASE o : & i"),
    ("BASE", "PATH / s / ( ALTS )"),
];

fn letter(c: char) -> Option<Kind> {
    LETTERS.chars().position(|x| x == c).map(|i| KINDS[i])
}

fn notation<W: World>() -> Gram<W::T> {
    let nt = |s: &str| BNF.iter().position(|r| r.0 == s).map(|i| 1000 + i as i64);
    Gram {
        names: BNF.iter().map(|r| W::c(nt(r.0).unwrap())).collect(),
        rules: BNF
            .iter()
            .map(|r| {
                r.1.split('/')
                    .map(|p| {
                        p.split_whitespace()
                            .map(|s| W::c(nt(s).unwrap_or_else(|| code(letter(s.chars().next().unwrap()).expect("kind")))))
                            .collect()
                    })
                    .collect()
            })
            .collect(),
        eof: W::c(999),
    }
}

/// The code generated for the notation itself, or why there is none.
pub fn itself() -> Rc<wopself::Made> {
    thread_local!(static MADE: Rc<wopself::Made> = Rc::new(wopself::made()));
    MADE.with(Clone::clone)
}

/// wop's own parser, or the one generated from its description, with its symbols as values of `T`.
fn parser<W: World>(generated: bool) -> Rc<Slr<W::T>> {
    thread_local! {
        static MADE: RefCell<HashMap<(TypeId, bool), Rc<dyn Any>>> = RefCell::new(HashMap::new());
    }
    let id = (TypeId::of::<W::T>(), generated);
    if let Some(p) = MADE.with(|m| m.borrow().get(&id).cloned()) {
        return p.downcast().expect("the parser");
    }
    let g = wop::out::grammar();
    let c = |s: &Sym| W::c(*s as i64);
    let mut rules = lrp_pub::RuleMap::new();
    let itself = itself();
    let made = match &*itself {
        Ok((r, _)) if generated => r,
        _ => &g.rules,
    };
    for (n, r) in made {
        let prods: Vec<Vec<W::T>> = r.prods.iter().map(|p| p.0.iter().map(c).collect()).collect();
        rules.insert(c(n), lrp_pub::grammar::Rule::new(c(n), prods));
    }
    let eof = c(g.basis.look.iter().next().expect("an end marker"));
    let p = Rc::new(Slr::new(lrp_pub::Grammar::new(c(&g.basis.rule), rules, eof)));
    MADE.with(|m| m.borrow_mut().insert(id, p.clone()));
    p
}

#[derive(Clone, Debug)]
pub struct Src {
    pub prop: String,
    /// Letters of fixed tokens, `.` for any token, `I` for an identifier with a name out of two,
    /// `S` for a literal out of two, `,` for any token of an item list, `N` for one whose
    /// identifiers are out of two, `x` for an identifier or a literal, `y` for an identifier or `?`,
    /// `z` for an identifier or `|`; empty for a free source.
    pub text: String,
    pub n: usize,
}

struct Input<W: World> {
    fixed: Option<Vec<char>>,
    max: usize,
    v: Vec<W::T>,
    ended: bool,
}

impl<W: World> Input<W> {
    fn get(&mut self, i: usize) -> Option<W::T> {
        if i < self.v.len() {
            return Some(self.v[i].clone());
        }
        let all: Vec<i64> = KINDS.iter().map(|k| code(*k)).collect();
        let end = match &self.fixed {
            Some(f) => i >= f.len(),
            None => i >= self.max || !W::flip(),
        };
        if self.ended || end {
            self.ended = true;
            return None;
        }
        let t = match &self.fixed {
            Some(f) => match f[i] {
                '.' => W::fresh(&all, &[]),
                // a token of an item list
                ',' | 'N' => W::fresh(&"|():o&isP".chars().map(|c| code(letter(c).unwrap())).collect::<Vec<_>>(), &[]),
                c @ ('x' | 'y' | 'z') => {
                    let other = match c {
                        'x' => Kind::StrLit,
                        'y' => Kind::Optional,
                        _ => Kind::Pipe,
                    };
                    W::fresh(&[code(Kind::Ident), code(other)], &[])
                }
                'I' => W::c(code(Kind::Ident)),
                'S' => W::c(code(Kind::StrLit)),
                c => W::c(code(letter(c).expect("a kind"))),
            },
            None => W::fresh(&all, &[]),
        };
        self.v.push(t.clone());
        Some(t)
    }
}

/// The text of each token.
fn lexeme(k: Kind, i: usize, named: Option<bool>) -> String {
    match k {
        Kind::AliasWord => "alias".into(),
        Kind::UseWord => "use".into(),
        Kind::Assign => "=".into(),
        Kind::Pipe => "|".into(),
        Kind::OpenParen => "(".into(),
        Kind::CloseParen => ")".into(),
        Kind::Sc => ";".into(),
        Kind::PathAccess => "::".into(),
        Kind::TwoDots => ":".into(),
        Kind::Glob => "*".into(),
        Kind::Optional => "?".into(),
        Kind::Clone => "&".into(),
        Kind::Ident => named.map_or(format!("n{i}"), |b| if b { "p" } else { "q" }.into()),
        Kind::StrLit => named.map_or(format!("\"s{i}\""), |b| if b { "\"p\"" } else { "\"q\"" }.into()),
        Kind::CodeBlock => format!("-> {{ code_{i} }}%"),
        Kind::Error => "#".into(),
    }
}

fn real(s: &str) -> Result<wop::builder::Builder, String> {
    let mut b = s.parse::<wop::builder::Builder>().map_err(|e| format!("{e:?}"))?;
    b.entry_type = "Tok".into();
    Ok(b)
}

fn squeeze(s: &str) -> String {
    s.replace(' ', "")
}

fn val(b: &Binding) -> Val {
    let owned = b.clone;
    let v = match b.place {
        Place::One(at) => Val::One { at, owned },
        Place::Many(from, to) => Val::Many { from, to, owned },
        Place::Absent(many) => return Val::None { many, owned },
    };
    if b.option {
        Val::Some(Box::new(v))
    } else {
        v
    }
}

/// What is compared: symbols, code block, aliases.
type Prod = (Vec<String>, String, BTreeMap<String, Val>);

fn code_name(text: &str) -> String {
    let from = text.find("code_").unwrap_or(0);
    text[from..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect()
}

fn lacks(a: &[Prod], b: &[Prod], same: impl Fn(&Prod, &Prod) -> bool) -> Option<Prod> {
    let mut left: Vec<&Prod> = b.iter().collect();
    for x in a {
        match left.iter().position(|y| same(x, y)) {
            Some(i) => {
                left.remove(i);
            }
            None => return Some(x.clone()),
        }
    }
    None
}

fn like(a: &Val, b: &Val) -> bool {
    matches!(a, Val::Other) || matches!(b, Val::Other) || a == b
}

/// Compares what the builder made of a sound source with what it says.
fn compare(prop: &str, s: &str, ds: &[Decl], b: &wop::builder::Builder) -> Result<bool, String> {
    let g = dump::grammar(&b.dump_grammar(s)).map_err(|e| format!("the generated grammar is not Rust: {e}"))?;
    let want = refer::rules(s, ds);
    let uses: Vec<String> = ds
        .iter()
        .filter_map(|d| match d {
            Decl::Use(p) => Some(squeeze(&s[p.0..p.1])),
            _ => None,
        })
        .collect();
    if want.is_empty() {
        // nothing but imports and aliases
        if prop != "C20" {
            return Ok(true);
        }
        let Some(got) = dump::uses(&b.dump_grammar(s)) else { return Ok(false) };
        return if got == uses { Ok(true) } else { Err(format!("the imports are {got:?}, and there are no rules")) };
    }
    let Some(g) = g else { return Ok(false) };
    if prop == "C20" {
        if g.uses != uses {
            return Err(format!("the imports are {:?}", g.uses));
        }
        let mut names: Vec<_> = g.rules.iter().map(|r| r.0.clone()).collect();
        let mut names2: Vec<_> = want.iter().map(|r| squeeze(&r.name)).collect();
        names.sort();
        names2.sort();
        if names != names2 {
            return Err(format!("the rules are {names:?}"));
        }
        let types: Vec<_> = want.iter().map(|r| squeeze(&r.ty)).collect();
        let text = squeeze(&b.dump_reductor(s));
        if let Some(t) = types.iter().find(|t| !text.contains(*t)) {
            return Err(format!("the type {t} is lost"));
        }
        return Ok(true);
    }
    let reds = dump::reductors(&b.dump_reductor(s)).map_err(|e| format!("the generated reductors are not Rust: {e}"))?;
    let Some((_, reds)) = reds else { return Ok(false) };
    let mut whole = true;
    for w in &want {
        let name = squeeze(&w.name);
        let Some((_, bodies)) = g.rules.iter().find(|r| r.0 == name) else {
            return Err(format!("rule {name} is missing"));
        };
        let Some((_, fns)) = reds.iter().find(|r| r.0 == name) else {
            return Err(format!("rule {name} has no reductors"));
        };
        if bodies.len() != fns.len() {
            return Err(format!("rule {name} has {} productions and {} reductors", bodies.len(), fns.len()));
        }
        if fns.iter().any(Option::is_none) {
            return Ok(false);
        }
        let got: Vec<Prod> = bodies
            .iter()
            .zip(fns)
            .map(|(b, f)| {
                let (c, e) = f.clone().unwrap();
                (b.iter().map(|s| squeeze(s)).collect(), c, e)
            })
            .collect();
        let exp: Vec<Prod> = w
            .alts
            .iter()
            .flat_map(|(es, c)| {
                es.iter().map(move |e| {
                    (
                        e.syms.iter().map(|s| squeeze(s)).collect(),
                        code_name(c),
                        e.binds.iter().map(|(n, b)| (n.clone(), val(b))).collect(),
                    )
                })
            })
            .collect();
        if prop == "C21" {
            let same = |a: &Prod, b: &Prod| a.0 == b.0 && a.1 == b.1;
            if let Some(x) = lacks(&got, &exp, same) {
                return Err(format!("rule {name}: a production {:?} with {}, which the source does not describe", x.0, x.1));
            }
            if let Some(x) = lacks(&exp, &got, same) {
                return Err(format!("rule {name}: no production {:?} with {}", x.0, x.1));
            }
        } else {
            whole &= !got.iter().any(|p| p.2.values().any(|v| *v == Val::Other));
            // `got` binds what is expected; helper variables beside the aliases do not matter
            let same = |a: &Prod, b: &Prod| {
                a.0 == b.0 && a.1 == b.1 && b.2.iter().all(|(n, v)| a.2.get(n).is_some_and(|x| like(x, v)))
            };
            let same2 = |a: &Prod, b: &Prod| same(b, a);
            if let Some(x) = lacks(&exp, &got, same2) {
                return Err(format!("rule {name}: {:?} with {} should have {:?}; there is {got:?}", x.0, x.1, x.2));
            }
        }
    }
    Ok(whole)
}

/// No alias is bound twice in one expansion, and all of one name are of one type.
fn plain_aliases(s: &str, ds: &[Decl]) -> bool {
    type Names = BTreeMap<String, (bool, bool)>;
    fn all(s: &str, items: &[refer::Item]) -> Option<Names> {
        let mut v = Names::new();
        for i in items {
            if let Some(a) = i.alias {
                let group = matches!(i.what, refer::What::Group(_));
                if v.insert(s[a.0..a.1].to_string(), (group, i.clone)).is_some() {
                    return None;
                }
            }
            if let refer::What::Group(g) = &i.what {
                let mut inside = Names::new();
                for a in g {
                    for (n, t) in all(s, &a.items)? {
                        if *inside.entry(n).or_insert(t) != t {
                            return None;
                        }
                    }
                }
                for (n, t) in inside {
                    if v.insert(n, t).is_some() {
                        return None;
                    }
                }
            }
        }
        Some(v)
    }
    ds.iter().all(|d| match d {
        Decl::Rule { alts, .. } => alts.iter().all(|a| all(s, &a.items).is_some()),
        _ => true,
    })
}

/// Whether a parser of the notation accepts the tokens.
fn accepts<W: World>(input: &Rc<RefCell<Input<W>>>, generated: bool) -> bool {
    let src = input.clone();
    let mut i = 0;
    let stream = std::iter::from_fn(move || {
        let t = src.borrow_mut().get(i)?;
        i += 1;
        Some(Token::new((), t))
    });
    let made = W::guarded(|| parser::<W>(generated));
    let p = match made {
        End::Done(p) => p,
        End::Panic(m) => W::fail(|| format!("the parser of wop sources cannot be built: {m}")),
        End::Hang => W::fail(|| "building the parser of wop sources does not end".to_string()),
    };
    let run = W::guarded(|| p.simple_dfa(stream).start().is_ok());
    match run {
        End::Done(x) => x,
        End::Panic(m) => W::fail(|| format!("parsing panicked: {m}")),
        End::Hang => W::fail(|| "parsing does not end".to_string()),
    }
}

/// What both parsers make of a text.
fn trees(s: &str) -> Result<[String; 2], String> {
    let tree = |generated: bool| {
        catch_unwind(AssertUnwindSafe(|| {
            let mut d = if generated {
                let made = itself();
                let Ok((rules, reds)) = &*made else { return String::new() };
                let g = wop::out::grammar();
                let eof = *g.basis.look.iter().next().expect("an end marker");
                let g = lrp_pub::Grammar::new(g.basis.rule, rules.clone(), eof);
                Slr::new(g).dfa(wop::lexer(s), reds.clone())
            } else {
                wop::build_parser(wop::lexer(s))
            };
            match d.start() {
                Ok(_) => format!("{:?}", d.items),
                Err(e) => format!("{e:?}"),
            }
        }))
        .map_err(|p| symx::engine::panic_text(&*p))
    };
    Ok([tree(false)?, tree(true)?])
}

fn say(ok: bool) -> &'static str {
    if ok {
        "accepts"
    } else {
        "rejects"
    }
}

pub fn body<W: World>(job: &Src) {
    let input = Rc::new(RefCell::new(Input::<W> {
        fixed: (!job.text.is_empty()).then(|| job.text.chars().collect()),
        max: job.n,
        v: vec![],
        ended: false,
    }));
    let ok = accepts::<W>(&input, false);
    if job.prop == "C23" {
        if let Err(e) = &*itself() {
            W::fail(|| format!("wop.grammar: {e}"));
        }
        let read = input.borrow().v.len();
        let ok2 = accepts::<W>(&input, true);
        let read2 = input.borrow().v.len();
        W::require(W::b(ok == ok2 && read == read2), || {
            format!("the parser in use {} and the one generated from wop.grammar {}", say(ok), say(ok2))
        });
    }
    // a rejected path keeps its unread tokens: nothing after them matters
    let (v, ended) = {
        let s = input.borrow();
        (s.v.clone(), s.ended)
    };
    let n = v.len();
    W::note(if ok { "accepted" } else { "rejected" });
    if job.prop == "C20" {
        let g = notation::<W>();
        let res = Res::of(&g);
        let mut lang = Lang::<W>::new(&res, &v);
        let good = match (ok, ended) {
            (true, _) => lang.derives(0, 0, n),
            (false, true) => W::not(lang.derives(0, 0, n)),
            (false, false) => W::not(lang.viable(0, 0, n)),
        };
        W::require(good, || {
            format!(
                "a source that {} the notation is {}",
                if ok { "is not of" } else { "is of" },
                if ok { "accepted" } else { "rejected" }
            )
        });
    }
    let kinds: Vec<Kind> = W::pin(&v).into_iter().map(kind_of).collect();
    let chars: Vec<char> = job.text.chars().collect();
    let mut s = String::new();
    for (i, k) in kinds.iter().enumerate() {
        let named = match chars.get(i) {
            Some('I' | 'S') => Some(W::flip()),
            Some('N') if *k == Kind::Ident => Some(W::flip()),
            _ => None,
        };
        s.push_str(&lexeme(*k, i, named));
        s.push(' ');
    }
    W::note(&s);
    if job.prop == "C23" {
        match trees(&s) {
            Err(m) => W::fail(|| format!("parsing panicked ({m}): {s}")),
            Ok([a, b]) => {
                W::require(W::b(a == b), || format!("the parser in use makes {a}, the one generated from wop.grammar {b}: {s}"));
                W::reached(if ok { "the same tree" } else { "the same error" });
            }
        }
        return;
    }
    let parsed = refer::parse(&s);
    let r = catch_unwind(AssertUnwindSafe(|| real(&s)));
    let say = |m: &str| format!("{m}: {s}");
    match (&parsed, r) {
        (None, Ok(Err(_))) => W::reached("malformed sources"),
        (None, Ok(Ok(_))) if job.prop == "C20" => W::fail(|| say("a malformed source is accepted")),
        (None, Err(_)) if job.prop == "C20" => W::fail(|| say("a malformed source makes the builder panic")),
        (None, _) => {}
        (Some(ds), r) => {
            if !plain_aliases(&s, ds) {
                W::discard();
            }
            let sound = refer::sound(&s, ds);
            match r {
                Ok(Ok(_)) if !sound => {
                    if job.prop == "C20" {
                        W::fail(|| say("a source with a double declaration or a misplaced code block is accepted"));
                    }
                }
                Err(_) | Ok(Err(_)) if !sound => W::reached("unsound sources"),
                Ok(Err(e)) => W::fail(|| say(&format!("a sound source is rejected ({e})"))),
                Err(p) => W::fail(|| say(&format!("a sound source makes the builder panic ({})", symx::engine::panic_text(&*p)))),
                Ok(Ok(b)) => {
                    match catch_unwind(AssertUnwindSafe(|| compare(&job.prop, &s, ds, &b))) {
                        Ok(Ok(true)) => W::reached("sound sources"),
                        Ok(Ok(false)) => W::reached("sources whose generated code was not understood without running it"),
                        Ok(Err(m)) => W::fail(|| say(&m)),
                        Err(p) => W::fail(|| say(&format!("generating code panicked ({})", symx::engine::panic_text(&*p)))),
                    }
                }
            }
        }
    }
}
