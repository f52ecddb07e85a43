//! Generated code, executed on symbolic tokens.
use lrp::{Clr, Dfa, Grammar, Meta, Parser, ReductMap, RuleMap, Span, Token};
use std::cell::RefCell;
use std::collections::HashMap;
use symx::engine::{End, Sx};
use symx::gram::{Gram, Res};
use symx::lang::Lang;
use symx::run::{Shared, Stream, Toks};
use symx::world::World;
use wobs::obs::{self, Bound, Shape, Tok, V};
use wobs::refer::{Binding, Expansion, Place};
use wobs::syms;
use wobs::templates::{Meaning, Template};

/// The start rule around `S`: the generated rules may use `S` anywhere.
const START: i64 = 59;

fn top(toks: &[Tok]) -> Meta<V> {
    toks[0].item.clone()
}

fn grammar(mut rules: RuleMap<Sx>) -> Grammar<Sx> {
    rules.insert(Sx::c(START), lrp::grammar::Rule::new(Sx::c(START), vec![vec![syms::S]]));
    Grammar::new(Sx::c(START), rules, syms::EOF)
}

fn val(n: &str) -> Sx {
    Sx::c(syms::value(n).unwrap_or_else(|| panic!("template symbol {n}")))
}

/// The reference grammar of a template.
pub fn reference(m: &Meaning) -> Gram<Sx> {
    let mut names = vec![Sx::c(START)];
    let mut rules = vec![vec![vec![syms::S]]];
    for (n, alts) in m.rules.iter().zip(&m.alts) {
        names.push(Sx::c(*n));
        rules.push(
            alts.iter()
                .flat_map(|a| &a.1)
                .map(|e| e.syms.iter().map(|s| val(s)).collect())
                .collect(),
        );
    }
    Gram { names, rules, eof: syms::EOF }
}

/// Whether one input may have two readings: the templates must not.
pub fn conflicts(m: &Meaning) -> usize {
    Clr::new(reference(m).lrp()).tables().conflicts().count()
}

fn leaf(i: usize, t: Sx) -> Tok {
    Token::new(Meta::new(obs::leaf(), Span::new(10 * i, 10 * i + 7)), t)
}

struct Seen<'a> {
    alts: HashMap<usize, (i64, &'a [Expansion])>,
    toks: &'a [Sx],
    at: usize,
    text: String,
    next: usize,
}

fn place(b: &Binding, t: &[Tok]) -> Bound {
    let owned = b.clone;
    let id = |i: usize| t[i].item.item.id;
    let v = match b.place {
        Place::One(i) => Bound::One { id: id(i), owned },
        Place::Many(i, j) => Bound::Many { ids: (i..j).map(id).collect(), owned },
        Place::Absent(false) => return Bound::None(Shape::One { owned }),
        Place::Absent(true) => return Bound::None(Shape::Many { owned }),
    };
    if b.option {
        Bound::Some(Box::new(v))
    } else {
        v
    }
}

impl Seen<'_> {
    /// Checks a value against the input from `self.at` on. Returns its span.
    fn tree<W: World<T = Sx>>(&mut self, t: &Tok, binds: bool) -> Span {
        let Some(n) = &t.item.item.node else {
            let i = self.at;
            self.at += 1;
            self.text.push_str(&format!("{i} "));
            if i >= self.toks.len() {
                W::fail(|| "more tokens in the result than in the input".to_string());
            }
            W::require(W::eq(&t.ty, &self.toks[i]), || format!("token {i} of the input is out of place in the result"));
            return Span::new(10 * i, 10 * i + 7);
        };
        let first = self.at;
        self.text.push_str(&format!("{}(", n.code));
        for k in &n.toks {
            self.tree::<W>(k, binds);
        }
        self.text.push_str(") ");
        // reductions happen bottom up, left to right
        self.next += 1;
        let span = Span::new(10 * first, 10 * (self.at - 1) + 7);
        let Some((rule, alts)) = self.alts.get(&n.code) else {
            W::fail(|| format!("code block {} ran, which no alternative has", n.code))
        };
        let fits: Vec<_> = alts
            .iter()
            .filter(|e| e.syms.len() == n.toks.len())
            .map(|e| {
                let b: Vec<_> = e.syms.iter().zip(&n.toks).map(|(s, t)| W::eq(&t.ty, &val(s))).collect();
                (e, W::and(&b))
            })
            .collect();
        if binds {
            let good: Vec<_> = fits
                .iter()
                .map(|(e, f)| {
                    let same = n.binds.len() == e.binds.len()
                        && n.binds.iter().all(|(name, b)| {
                            e.binds.get(*name).is_some_and(|want| place(want, &n.toks) == *b)
                        });
                    W::and(&[*f, W::b(same)])
                })
                .collect();
            for (name, b) in &n.binds {
                self.text.push_str(&format!("{name}={b:?} "));
            }
            W::reached("aliases of a reduction");
            W::require(W::or(&good), || {
                let tys: Vec<_> = n.toks.iter().map(|t| syms::name(t.ty.constant().unwrap_or(-1))).collect();
                format!("code block {} got {tys:?} with the aliases {:?}", n.code, n.binds)
            });
            W::require(W::b(t.item.span == span), || {
                format!("code block {}: the span of its value is {:?}, not {span:?}", n.code, t.item.span)
            });
        } else {
            let good: Vec<_> = fits.iter().map(|f| f.1).collect();
            W::reached("reductions");
            W::require(W::and(&[W::or(&good), W::eq(&t.ty, &Sx::c(*rule))]), || {
                let tys: Vec<_> = n.toks.iter().map(|t| format!("{:?}", t.ty)).collect();
                format!("code block {} ran for the symbols {tys:?}, which its alternative does not derive", n.code)
            });
        }
        span
    }
}

pub fn body<W: World<T = Sx>>(t: &Template, binds: bool) {
    let g = wopgen::ALL.iter().find(|g| g.name == t.name).expect("the template was generated");
    let (mk_rules, mk_red) = match g.made {
        Ok(m) => m,
        Err(e) => W::fail(|| e.to_string()),
    };
    let m = t.meaning();
    let r = reference(&m);
    obs::reset();
    let toks: Shared<W> = Toks::<W>::free(t.n);
    toks.borrow_mut().gaps = vec![syms::TOKENS];
    let run = W::guarded(|| {
        let parser = Clr::new(grammar(mk_rules()));
        let mut red: ReductMap<Meta<V>, Sx> = mk_red();
        red.insert(Sx::c(START), vec![top]);
        let stream = Stream::<W, _> { toks: toks.clone(), i: 0, mk: leaf };
        let mut d: Dfa<Meta<V>, Sx, _> = parser.dfa(stream, red);
        let r = d.start();
        (r.is_ok(), d.items.pop())
    });
    let (ok, item) = match run {
        End::Done(x) => x,
        End::Panic(m) => W::fail(|| format!("the generated code panicked: {m}")),
        End::Hang => W::fail(|| "parsing with the generated code does not terminate".to_string()),
    };
    let (v, ended) = {
        let s = toks.borrow();
        (s.v.clone(), s.ended)
    };
    W::note(if ok { "accepted" } else { "rejected" });
    let res = Res::of(&r);
    let mut lang = Lang::<W>::new(&res, &v);
    let n = v.len();
    if ok {
        W::reached("accepted");
    } else {
        W::reached("rejected");
    }
    if !binds {
        let good = match (ok, ended) {
            (true, _) => lang.derives(0, 0, n),
            (false, true) => W::not(lang.derives(0, 0, n)),
            (false, false) => W::not(lang.viable(0, 0, n)),
        };
        W::require(good, || {
            format!(
                "the generated parser {} what the source {}",
                if ok { "accepts" } else { "rejects" },
                if ok { "does not describe" } else { "describes" }
            )
        });
    }
    if !ok {
        return;
    }
    let Some(item) = item else { W::fail(|| "no value".to_string()) };
    let alts = m
        .rules
        .iter()
        .zip(&m.alts)
        .flat_map(|(r, a)| a.iter().map(move |(k, e)| (*k, (*r, &e[..]))))
        .collect();
    let mut seen = Seen { alts, toks: &v, at: 0, text: String::new(), next: 0 };
    let mut item = item;
    item.ty = syms::S;
    seen.tree::<W>(&item, binds);
    let _ = seen.next;
    W::require(W::b(seen.at == n), || "tokens of the input are missing in the result".to_string());
    W::note(&seen.text);
}

thread_local! {
    static CACHE: RefCell<HashMap<String, std::rc::Rc<Template>>> = RefCell::new(HashMap::new());
}

pub fn template(name: &str) -> std::rc::Rc<Template> {
    CACHE.with(|c| {
        let mut c = c.borrow_mut();
        if c.is_empty() {
            for t in wobs::templates::templates() {
                c.insert(t.name.clone(), t.into());
            }
        }
        c.get(name).cloned().unwrap_or_else(|| panic!("no template {name}"))
    })
}
