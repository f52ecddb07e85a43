//! The properties. Each function runs the code under test on one symbolic path and states the
//! property as a formula; `W::require` asks the solver for values that falsify it.
use crate::engine::End;
use crate::gram::{instantiate, Gram, Item, Piece, Res, Sy, Template, Theory, EOF, LAYOUTS, TOKENS};
use crate::lang::Lang;
use crate::run::{
    build, clear_calls, derivation, dfa, parse, parse_with, reductors, same, sentence, stream, Any,
    Out, Ran, Shared, Toks, KINDS,
};
use crate::world::World;
use crate::on;
use lrp::{Action, Parser, State, Tabler, Token};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Job {
    pub prop: String,
    pub tmpl: Template,
    pub layout: usize,
    pub cube: Vec<Piece>,
    /// Bound on the number of free tokens.
    pub n: usize,
    /// A sentence with holes instead of free tokens.
    pub text: Option<String>,
}

impl Job {
    fn toks<W: World>(&self) -> Shared<W> {
        match &self.text {
            Some(t) => sentence::<W>(&self.tmpl, t, &LAYOUTS[self.layout]),
            None => Toks::<W>::free(self.n),
        }
    }
    fn gram<W: World>(&self) -> Gram<W::T> {
        instantiate::<W>(&self.tmpl, &LAYOUTS[self.layout], &self.cube)
    }
}

pub const IDS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13",
    "C14", "C15", "C16", "C17", "C18", "C24",
];

pub fn body<W: World>(job: &Job) {
    match job.prop.as_str() {
        "C01" => soundness::<W>(job),
        "C02" => completeness::<W>(job),
        "C03" => first::<W>(job),
        "C04" => follow::<W>(job),
        "C05" => table::<W>(job, 0),
        "C06" => table::<W>(job, 1),
        "C07" => table::<W>(job, 2),
        "C08" => evaluation::<W>(job),
        "C09" => construction::<W>(job),
        "C10" => termination::<W>(job),
        "C11" => errors::<W>(job),
        "C12" => reduction::<W>(job),
        "C13" => reuse::<W>(job),
        "C14" => agreement::<W>(job),
        "C15" => integrity::<W>(job),
        "C16" => grammar::<W>(job),
        "C17" => ambiguity::<W>(job),
        "C18" => entry_points::<W>(job),
        "C24" => states::<W>(job),
        p => panic!("no property {p}"),
    }
}

/// A grammar whose rules are all productive, and its resolution.
fn clean<W: World>(job: &Job) -> (Gram<W::T>, Res<W::T>) {
    let g = job.gram::<W>();
    let r = Res::of(&g);
    if !r.productive() {
        W::discard();
    }
    (g, r)
}

/// Any grammar, and its resolution.
fn whole<W: World>(job: &Job) -> (Gram<W::T>, Res<W::T>) {
    let g = job.gram::<W>();
    let r = Res::of(&g);
    W::reached(if r.productive() { "productive" } else { "with a rule that derives nothing" });
    (g, r)
}

/// Every parser on every token sequence of the job.
fn each_parse<W: World>(
    job: &Job,
    mut f: impl FnMut(usize, &Any<W::T>, &Gram<W::T>, &Res<W::T>, &Shared<W>, Ran<W>),
) {
    let (g, r) = if job.prop == "C11" { clean::<W>(job) } else { whole::<W>(job) };
    let ps = parsers::<W>(&g);
    for kind in 0..3 {
        W::explore(kind, || {
            let p = ps[kind].as_ref().unwrap();
            let toks = job.toks::<W>();
            let ran = parse::<W>(p, &g, &toks);
            entries::<W>(kind, p, &g, &toks, &ran);
            f(kind, p, &g, &r, &toks, ran);
        });
    }
}

/// One parser of each kind, where it is going to be used.
fn parsers<W: World>(g: &Gram<W::T>) -> Vec<Option<Any<W::T>>> {
    (0..3).map(|k| W::wants(k).then(|| build::<W>(k, g))).collect()
}

/// The parser's own entry points answer what the traced run did.
fn entries<W: World>(kind: usize, p: &Any<W::T>, g: &Gram<W::T>, toks: &Shared<W>, ran: &Ran<W>) {
    let k = KINDS[kind];
    clear_calls();
    let o = match W::guarded(|| on!(p, p => p.parse(stream::<W>(toks), reductors(g)))) {
        End::Done(r) => Out::of(r),
        End::Panic(m) => W::fail(|| format!("{k}::parse panicked: {m}")),
        End::Hang => W::fail(|| format!("{k}::parse does not terminate")),
    };
    W::require(same::<W>(&ran.out, &o), || {
        format!("{k}: trace answers {}, parse {}", ran.out.kind(), o.kind())
    });
    let unit: Vec<_> = toks.borrow().v.iter().map(|t| Token::empty(t.clone())).collect();
    let ok = match W::guarded(|| on!(p, p => p.validate(unit))) {
        End::Done(r) => r,
        End::Panic(m) => W::fail(|| format!("{k}::validate panicked: {m}")),
        End::Hang => W::fail(|| format!("{k}::validate does not terminate")),
    };
    if ok != matches!(ran.out, Out::Accept(_)) {
        W::fail(|| format!("{k}: trace answers {}, validate {ok}", ran.out.kind()));
    }
}

/// The tokens the parser read, without the one it stopped at.
fn taken<W: World>(toks: &Shared<W>, ran: &Ran<W>) -> Vec<W::T> {
    toks.borrow().v[..ran.consumed].to_vec()
}

fn soundness<W: World>(job: &Job) {
    each_parse::<W>(job, |kind, _, _, r, toks, ran| match &ran.out {
        Out::Accept(_) => {
            let w = toks.borrow().v.clone();
            let d = Lang::<W>::new(r, &w).derives(0, 0, w.len());
            W::reached("accepted");
            W::require(d, || {
                format!("{} accepts {} tokens that the grammar does not derive", KINDS[kind], w.len())
            });
        }
        Out::Internal(e) => W::fail(|| format!("{} answers {e}", KINDS[kind])),
        _ => {}
    });
}

fn completeness<W: World>(job: &Job) {
    each_parse::<W>(job, |kind, p, _, r, toks, ran| {
        let w = toks.borrow().v.clone();
        match &ran.out {
            Out::Accept(_) => {}
            Out::Conflict(_) => {
                W::require(W::b(p.conflicts() > 0), || {
                    format!("{} answers Conflict on a table that reports none", KINDS[kind])
                });
            }
            _ if !toks.borrow().ended && job.text.is_none() && r.productive() => {
                // stopped at the last token read: no sentence may start like this
                let v = Lang::<W>::new(r, &w).viable(0, 0, w.len());
                W::reached("rejected early");
                W::require(W::not(v), || {
                    format!(
                        "{} rejects at token {} although a sentence starts with these {} tokens",
                        KINDS[kind],
                        ran.consumed,
                        w.len()
                    )
                });
            }
            _ => {
                // what is left of the input, if the parser did not read all of it
                let mut i = w.len();
                while toks.borrow_mut().get(i).is_some() {
                    i += 1;
                }
                let w = toks.borrow().v.clone();
                let d = Lang::<W>::new(r, &w).derives(0, 0, w.len());
                W::reached("rejected at the end");
                W::require(W::not(d), || {
                    format!("{} rejects a sentence of {} tokens: {}", KINDS[kind], w.len(), ran.out.kind())
                });
            }
        }
    });
}

/// `s` is no rule name.
fn is_term<W: World>(g: &Gram<W::T>, s: &W::T) -> W::B {
    W::not(W::among(s, &g.names))
}

fn first_formula<W: World>(g: &Gram<W::T>, x: &W::T) -> Vec<W::B> {
    let mut f = vec![W::f(); g.names.len()];
    for _ in 0..g.names.len() {
        f = g
            .rules
            .iter()
            .map(|ps| {
                let v: Vec<_> = ps.iter().map(|p| head_formula::<W>(g, &f, &p[0], x)).collect();
                W::or(&v)
            })
            .collect();
    }
    f
}

/// `x` starts what `s` derives, given FIRST of the rules at `x`.
fn head_formula<W: World>(g: &Gram<W::T>, first: &[W::B], s: &W::T, x: &W::T) -> W::B {
    let mut v = vec![W::and(&[W::eq(s, x), is_term::<W>(g, s)])];
    for (m, f) in g.names.iter().zip(first) {
        v.push(W::and(&[W::eq(s, m), *f]));
    }
    W::or(&v)
}

fn tabler<W: World>(g: &Gram<W::T>) -> Tabler<W::T> {
    match W::guarded(|| Tabler::new(g.lrp())) {
        End::Done(t) => t,
        End::Panic(m) => W::fail(|| format!("FIRST/FOLLOW construction panicked: {m}")),
        End::Hang => W::fail(|| "FIRST/FOLLOW construction does not terminate".into()),
    }
}

fn sets<W: World>(
    what: &str,
    g: &Gram<W::T>,
    got: &lrp::Table<W::T>,
    x: &W::T,
    want: &[W::B],
) {
    W::note(&format!("{:?}", got.values().map(BTreeSet::len).collect::<Vec<_>>()));
    let mut goods = vec![];
    for (i, n) in g.names.iter().enumerate() {
        let Some(s) = got.get(n) else {
            W::fail(|| format!("no {what} set for rule {i}"))
        };
        let has = W::among(x, s);
        W::reached("set compared");
        goods.push((W::iff(has, want[i]), "of a rule differs from the definition at one symbol"));
    }
    W::require_all(&goods);
}

fn first<W: World>(job: &Job) {
    let g = job.gram::<W>();
    let t = tabler::<W>(&g);
    let x = W::fresh(&[], &[TOKENS]);
    let want = first_formula::<W>(&g, &x);
    sets::<W>("FIRST", &g, &t.first, &x, &want);
}

fn follow<W: World>(job: &Job) {
    let g = job.gram::<W>();
    let used = Res::of(&g).reachable();
    let mut t = tabler::<W>(&g);
    if !used {
        // a rule in no body has no set, or an empty one
        for n in &g.names {
            t.follow.entry(n.clone()).or_default();
        }
        W::reached("with an unreachable rule");
    }
    let x = W::fresh(&[], &[TOKENS]);
    let first = first_formula::<W>(&g, &x);
    let n = g.names.len();
    let mut f = vec![W::f(); n];
    // what follows an occurrence directly; one round per rule closes over last positions
    for _ in 0..=n {
        let mut v: Vec<Vec<W::B>> = vec![vec![]; n];
        v[0].push(W::eq(&x, &g.eof));
        for (a, ps) in g.rules.iter().enumerate() {
            for p in ps {
                for k in 0..p.len() {
                    let next = match p.get(k + 1) {
                        Some(s) => head_formula::<W>(&g, &first, s, &x),
                        None => f[a],
                    };
                    for (m, name) in g.names.iter().enumerate() {
                        v[m].push(W::and(&[W::eq(&p[k], name), next]));
                    }
                }
            }
        }
        f = v.iter().map(|v| W::or(v)).collect();
    }
    sets::<W>("FOLLOW", &g, &t.follow, &x, &f);
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Act {
    Shift(usize),
    Goto(usize),
    Reduce(usize, usize),
    Acc,
}

/// The actions of a cell; a conflict is the set of its alternatives.
fn flat<'a, T>(a: &'a Action<T>, out: &mut Vec<&'a Action<T>>) {
    if let Action::Conflict(x, y) = a {
        flat(x, out);
        flat(y, out);
    } else {
        out.push(a);
    }
}

const CAP: usize = 400;

type RefTable = Vec<BTreeMap<Sy, BTreeSet<Act>>>;
const END: Sy = Sy::T(EOF);

/// The textbook table of the method.
fn reference<T>(r: &Res<T>, kind: usize) -> Option<RefTable> {
    let th = Theory::new(r);
    let mut st = th.canonical(CAP)?;
    if kind > 0 {
        st = Theory::<T>::merged(&st);
        // the initial state first
        let i = st.iter().position(|s| s.iter().any(|i| i.0 == 0 && i.2 == 0)).unwrap();
        st.swap(0, i);
    }
    let index: BTreeMap<_, _> = st.iter().enumerate().map(|(i, s)| (core(s, kind), i)).collect();
    Some(
        st.iter()
            .map(|s| {
                let mut row: BTreeMap<Sy, BTreeSet<Act>> = BTreeMap::new();
                let mut next: BTreeMap<Sy, BTreeSet<Item>> = BTreeMap::new();
                for &(n, p, d, l) in s {
                    let act = if n == 0 { Act::Acc } else { Act::Reduce(n, p) };
                    match r.rules[n][p].get(d) {
                        Some(s) => {
                            next.entry(*s).or_default().insert((n, p, d + 1, l));
                        }
                        None if kind == 2 => {
                            for t in &th.follow[n] {
                                row.entry(Sy::T(*t)).or_default().insert(act.clone());
                            }
                        }
                        None => {
                            row.entry(Sy::T(l)).or_default().insert(act);
                        }
                    }
                }
                for (s, k) in next {
                    let j = index[&core(&th.close(k), kind)];
                    row.entry(s).or_default().insert(match s {
                        Sy::N(_) => Act::Goto(j),
                        Sy::T(_) => Act::Shift(j),
                    });
                }
                row
            })
            .collect(),
    )
}

/// What identifies a state: its items, without lookaheads where states are merged.
fn core(s: &BTreeSet<Item>, kind: usize) -> BTreeSet<Item> {
    s.iter().map(|i| (i.0, i.1, i.2, if kind == 0 { i.3 } else { 0 })).collect()
}

fn table<W: World>(job: &Job, kind: usize) {
    let (g, r) = clean::<W>(job);
    let p = build::<W>(kind, &g);
    let Some(want) = reference(&r, kind) else {
        W::discard()
    };
    let rows = &p.tables().actions;
    W::note(&format!("{} rows {} conflicts", rows.len(), p.conflicts()));
    let k = KINDS[kind];
    let name_of = |s: &W::T| g.names.iter().position(|n| n == s);
    let mut at: Vec<Option<usize>> = vec![None; rows.len()];
    if rows.is_empty() {
        W::fail(|| format!("the {k} table is empty"));
    }
    at[0] = Some(0);
    let mut todo = vec![0];
    let mut seen_ref = BTreeSet::from([0]);
    let mut eqs = vec![];
    while let Some(row) = todo.pop() {
        let st = at[row].unwrap();
        let mut got: BTreeMap<Sy, BTreeSet<Act>> = BTreeMap::new();
        for (sym, a) in &rows[row] {
            let s = if let Some(n) = name_of(sym) {
                Sy::N(n)
            } else if *sym == g.eof {
                END
            } else if let Some(t) = r.terms.iter().position(|t| t == sym) {
                Sy::T(t)
            } else {
                W::fail(|| format!("{k} row {row} has an entry for a symbol outside the grammar"))
            };
            let mut acts = vec![];
            flat(a, &mut acts);
            let mut set = BTreeSet::new();
            for a in &acts {
                set.insert(match a {
                    Action::Shift(to) | Action::Goto(to) => {
                        let shift = matches!(a, Action::Shift(_));
                        let target = want[st].get(&s).and_then(|w| {
                            w.iter().find_map(|w| match w {
                                Act::Shift(j) if shift => Some(*j),
                                Act::Goto(j) if !shift => Some(*j),
                                _ => None,
                            })
                        });
                        let Some(j) = target else {
                            W::fail(|| format!("{k} row {row} has a transition the method does not have"))
                        };
                        if *to >= rows.len() {
                            W::fail(|| format!("{k} row {row} leads to row {to} of {}", rows.len()));
                        }
                        match at[*to] {
                            None => {
                                at[*to] = Some(j);
                                seen_ref.insert(j);
                                todo.push(*to);
                            }
                            Some(x) if x == j => {}
                            Some(_) => W::fail(|| {
                                format!("{k} row {to} stands for two different states of the method")
                            }),
                        }
                        if shift {
                            Act::Shift(j)
                        } else {
                            Act::Goto(j)
                        }
                    }
                    Action::Reduce(n, prod) => {
                        let Some(n) = name_of(n) else {
                            W::fail(|| format!("{k} row {row} reduces to something that is no rule"))
                        };
                        if let Some(body) = g.rules[n].get(prod.1) {
                            if body.len() == prod.0.len() {
                                eqs.extend(body.iter().zip(&prod.0).map(|(x, y)| W::eq(x, y)));
                            } else {
                                W::fail(|| format!("{k} row {row} reduces a wrong body"));
                            }
                        }
                        Act::Reduce(n, prod.1)
                    }
                    Action::Acc => Act::Acc,
                    Action::Conflict(..) => unreachable!(),
                });
            }
            if acts.len() > 1 && set.len() == 1 {
                W::fail(|| format!("{k} row {row} reports a conflict between equal actions"));
            }
            got.insert(s, set);
        }
        if got != want[st] {
            W::fail(|| {
                format!("{k} row {row} is {got:?} where the method has {:?}", want[st])
            });
        }
    }
    W::reached(if p.conflicts() > 0 { "table with conflicts" } else { "table without conflicts" });
    W::require(W::and(&eqs), || format!("{k} reduces with a body that is not the production's"));
    if at.iter().any(Option::is_none) {
        W::fail(|| format!("a row of the {k} table is unreachable"));
    }
    if kind > 0 && rows.len() != want.len() {
        W::fail(|| format!("{k} has {} rows, the method {}", rows.len(), want.len()));
    }
    let cells: usize = rows
        .iter()
        .flat_map(BTreeMap::values)
        .filter(|a| matches!(a, Action::Conflict(..)))
        .count();
    if p.conflicts() != cells {
        W::fail(|| format!("{k} reports {} conflicts of {cells}", p.conflicts()));
    }
}

/// The positions of a listed state as items of the theory; the bodies they show go to `eqs`.
fn items<W: World>(
    g: &Gram<W::T>,
    r: &Res<W::T>,
    state: &State<W::T>,
    looks: bool,
    eqs: &mut Vec<W::B>,
) -> Result<BTreeSet<Item>, String> {
    let mut v = BTreeSet::new();
    for p in state {
        let Some(n) = g.names.iter().position(|n| *n == p.rule) else {
            return Err("a position of something that is no rule".into());
        };
        let Some(body) = g.rules[n].get(p.seq.1) else {
            return Err(format!("a position of rule {n} in alternative {}", p.seq.1));
        };
        if body.len() != p.seq.0.len() || p.point > body.len() {
            return Err(format!("a position of rule {n} out of its production"));
        }
        eqs.extend(body.iter().zip(&p.seq.0).map(|(x, y)| W::eq(x, y)));
        if !looks {
            v.insert((n, p.seq.1, p.point, 0));
            continue;
        }
        if p.look.is_empty() {
            return Err(format!("a position of rule {n} without lookahead"));
        }
        for l in &p.look {
            let l = if *l == g.eof {
                EOF
            } else if let Some(t) = r.terms.iter().position(|t| t == l) {
                t
            } else {
                return Err(format!("a lookahead of rule {n} that is no terminal"));
            };
            v.insert((n, p.seq.1, p.point, l));
        }
    }
    Ok(v)
}

/// The listed states and the functions that print them say what the table does.
fn states<W: World>(job: &Job) {
    let (g, r) = clean::<W>(job);
    let th = Theory::new(&r);
    let Some(canonical) = th.canonical(CAP) else {
        W::discard()
    };
    let merged = Theory::<W::T>::merged(&canonical);
    let bare = |s: &BTreeSet<Item>| core(s, 1);
    for kind in 0..3 {
        let k = KINDS[kind];
        let any = build::<W>(kind, &g);
        let t = any.tables();
        W::note(&format!("{} states", t.states.len()));
        if t.states.len() != t.actions.len() {
            W::fail(|| format!("{k} lists {} states for {} rows", t.states.len(), t.actions.len()));
        }
        let mut eqs = vec![];
        let mut listed = vec![];
        for (i, s) in t.states.iter().enumerate() {
            match items::<W>(&g, &r, s, kind < 2, &mut eqs) {
                Ok(v) => listed.push(v),
                Err(m) => W::fail(|| format!("{k} state {i} has {m}")),
            }
        }
        // what the method makes of a set of items
        let state_of = |s: BTreeSet<Item>| match kind {
            0 => th.close(s),
            1 => {
                let c = bare(&th.close(s));
                merged.iter().find(|m| bare(m) == c).cloned().unwrap_or_default()
            }
            _ => bare(&th.close(s)),
        };
        if listed[0] != state_of(BTreeSet::from([(0, 0, 0, EOF)])) {
            W::fail(|| format!("{k} state 0 is {:?}", listed[0]));
        }
        let symbols: Vec<(Sy, W::T)> = (0..g.names.len())
            .map(|n| (Sy::N(n), g.names[n].clone()))
            .chain(r.terms.iter().enumerate().map(|(t, s)| (Sy::T(t), s.clone())))
            .chain([(END, g.eof.clone())])
            .collect();
        for (i, s) in t.states.iter().enumerate() {
            let mut row: BTreeMap<Sy, BTreeSet<Act>> = BTreeMap::new();
            for &(n, p, d, l) in listed[i].iter().filter(|x| x.2 == r.rules[x.0][x.1].len()) {
                debug_assert!(d > 0);
                let act = if n == 0 { Act::Acc } else { Act::Reduce(n, p) };
                let on: Vec<usize> =
                    if kind == 2 { th.follow[n].iter().copied().collect() } else { vec![l] };
                for l in on {
                    row.entry(Sy::T(l)).or_default().insert(act.clone());
                }
            }
            for (sy, sym) in &symbols {
                let kernel = Tabler::sym_filter(s, sym);
                let adv: BTreeSet<Item> = listed[i]
                    .iter()
                    .filter(|x| r.rules[x.0][x.1].get(x.2) == Some(sy))
                    .map(|x| (x.0, x.1, x.2 + 1, x.3))
                    .collect();
                let got = match items::<W>(&g, &r, &kernel, kind < 2, &mut eqs) {
                    Ok(v) => v,
                    Err(m) => W::fail(|| format!("{k} kernel of state {i} has {m}")),
                };
                if got != adv {
                    W::fail(|| format!("{k} kernel of state {i} on {sy:?} is {got:?}, not {adv:?}"));
                }
                if adv.is_empty() {
                    continue;
                }
                // what main.rs prints for it
                let (fin, to) = match W::guarded(|| {
                    on!(&any, p => (p.final_kernel(&kernel).cloned(), p.state_from_kernel(&kernel)))
                }) {
                    End::Done(x) => x,
                    End::Panic(m) => W::fail(|| format!("{k} looking up a kernel panicked: {m}")),
                    End::Hang => W::fail(|| format!("{k} looking up a kernel does not terminate")),
                };
                let (Some(fin), Some(to)) = (fin, to) else {
                    W::fail(|| format!("{k} has no state for the kernel of state {i} on {sy:?}"))
                };
                let again = on!(&any, p => p.state_from_kernel(&fin));
                if to >= listed.len() || again != Some(to) {
                    W::fail(|| format!("{k} leads the kernel of state {i} on {sy:?} to {to}, {again:?}"));
                }
                if listed[to] != state_of(adv) {
                    W::fail(|| format!("{k} state {to} is {:?}", listed[to]));
                }
                let whole: BTreeSet<Item> =
                    listed[to].iter().filter(|x| x.2 > 0).copied().collect();
                match items::<W>(&g, &r, &fin, kind < 2, &mut eqs) {
                    Ok(v) if v == whole => {}
                    Ok(v) => W::fail(|| format!("{k} state {to} has the kernel {whole:?}, listed {v:?}")),
                    Err(m) => W::fail(|| format!("{k} final kernel of state {i} has {m}")),
                }
                row.entry(*sy).or_default().insert(match sy {
                    Sy::N(_) => Act::Goto(to),
                    Sy::T(_) => Act::Shift(to),
                });
            }
            let mut got: BTreeMap<Sy, BTreeSet<Act>> = BTreeMap::new();
            for (sym, a) in &t.actions[i] {
                let Some((sy, _)) = symbols.iter().find(|(_, s)| s == sym) else {
                    W::fail(|| format!("{k} row {i} has an entry for a symbol outside the grammar"))
                };
                let mut acts = vec![];
                flat(a, &mut acts);
                for a in acts {
                    let act = match a {
                        Action::Shift(j) => Act::Shift(*j),
                        Action::Goto(j) => Act::Goto(*j),
                        Action::Acc => Act::Acc,
                        Action::Reduce(n, prod) => match g.names.iter().position(|x| x == n) {
                            Some(n) => Act::Reduce(n, prod.1),
                            None => W::fail(|| format!("{k} row {i} reduces to no rule")),
                        },
                        Action::Conflict(..) => unreachable!(),
                    };
                    got.entry(*sy).or_default().insert(act);
                }
            }
            if got != row {
                W::fail(|| format!("{k} row {i} is {got:?} where its state says {row:?}"));
            }
        }
        W::reached("states explained");
        W::require(W::and(&eqs), || format!("{k} lists a body that is not the production's"));
    }
}

fn evaluation<W: World>(job: &Job) {
    each_parse::<W>(job, |kind, _, g, r, toks, ran| {
        if let Out::Accept(t) = &ran.out {
            // the value of the start rule's (single symbol) production
            let top = r.rules[0][0][0];
            let w = toks.borrow().v.clone();
            let (mut pos, mut seq, mut eqs) = (0, 0, vec![]);
            let res = derivation::<W>(r, t, top, None, &w, &mut pos, &mut seq, &mut eqs);
            if let Err(m) = res {
                W::fail(|| format!("{}: {m}", KINDS[kind]));
            }
            W::reached("tree checked");
            W::require(W::and(&eqs), || {
                format!("{}: the evaluated tree does not derive the input", KINDS[kind])
            });
            if pos != w.len() {
                W::fail(|| format!("{}: the value covers {pos} of {} tokens", KINDS[kind], w.len()));
            }
            if seq != ran.calls {
                W::fail(|| {
                    format!("{}: {} semantic actions ran for a tree of {seq}", KINDS[kind], ran.calls)
                });
            }
        }
        let _ = g;
    });
}

fn construction<W: World>(job: &Job) {
    let g = job.gram::<W>();
    for kind in 0..3 {
        let p = build::<W>(kind, &g);
        let t = p.tables();
        W::note(&format!("{}", t.actions.len()));
        W::reached("constructed");
        if t.actions.len() != t.states.len() || t.actions.is_empty() {
            W::fail(|| {
                format!("{} has {} rows for {} states", KINDS[kind], t.actions.len(), t.states.len())
            });
        }
    }
}

fn termination<W: World>(job: &Job) {
    let g = job.gram::<W>();
    let rules = g.names.len();
    let ps = parsers::<W>(&g);
    for kind in 0..3 {
        W::explore(kind, || {
            let p = ps[kind].as_ref().unwrap();
            let toks = job.toks::<W>();
            let k = KINDS[kind];
            let rows = p.tables().actions.len();
            let limit = |read: usize| 2 * (read + 1) * (rules + 1) + 2;
            let ran = parse_with::<W>(p, &g, &toks, |steps, d| {
                if d.states.len() != d.items.len() + 1 {
                    W::fail(|| {
                        format!("{k}: {} states for {} items", d.states.len(), d.items.len())
                    });
                }
                if d.states.last() != Some(&d.top) || d.states.iter().any(|s| *s >= rows) {
                    W::fail(|| format!("{k}: the stack of states is not one of the table"));
                }
                let read = toks.borrow().v.len();
                if steps > limit(read) {
                    W::fail(|| format!("{k}: more than {} steps after {read} tokens", limit(read)));
                }
                let leaves: usize = d.items.iter().map(|t| t.item.leaves()).sum();
                if leaves > read {
                    W::fail(|| format!("{k}: {leaves} tokens on the stack of {read} read"));
                }
            });
            W::reached("parse ended");
            if let Out::Internal(e) = ran.out {
                W::fail(|| format!("{k} answers {e}"));
            }
        });
    }
}

fn errors<W: World>(job: &Job) {
    each_parse::<W>(job, |kind, p, g, r, toks, ran| {
        let k = KINDS[kind];
        let pre = taken::<W>(toks, &ran);
        let n = pre.len();
        let stop = toks.borrow().v.get(n).cloned();
        let mut eofs = pre.clone();
        eofs.push(g.eof.clone());
        match &ran.out {
            Out::Unexpected(found, expected) => {
                // the symbol named is the one the parser stopped at
                let at = stop.clone().unwrap_or_else(|| g.eof.clone());
                W::reached("unexpected token");
                let mut l = Lang::<W>::new(r, &eofs);
                let v = l.viable(0, 0, n);
                let whole = l.derives(0, 0, n);
                let x_eof = W::eq(&at, &g.eof);
                let mut ext = pre.clone();
                ext.push(at.clone());
                let cont = Lang::<W>::new(r, &ext).viable(0, 0, n + 1);
                let fits = W::or(&[W::and(&[x_eof, whole]), W::and(&[W::not(x_eof), cont])]);
                let mut goods = vec![
                    (W::eq(found, &at), "another token than the next is blamed"),
                    (v, "tokens that start no sentence were read over"),
                    (W::not(fits), "the blamed token fits"),
                ];
                // only tokens are listed, and not the blamed one
                for e in expected {
                    let ok = W::and(&[
                        W::not(W::eq(e, found)),
                        W::or(&[W::among(e, &r.terms), W::eq(e, &g.eof)]),
                    ]);
                    goods.push((ok, "something that is no token, or the blamed one, is expected"));
                }
                // and each token the row has an action for, once
                let row = &p.tables().actions[ran.top];
                let keys: Vec<_> = row.iter().filter(|(_, a)| !matches!(a, Action::Goto(_))).collect();
                if keys.len() != expected.len() {
                    W::fail(|| format!("{k} expects {} tokens where the table has {}", expected.len(), keys.len()));
                }
                for (s, _) in keys {
                    goods.push((W::among(s, expected), "a token that the table has an action for is not expected"));
                }
                // canonical LR(1): exactly the tokens that fit, for any token x
                if kind == 0 {
                    let x = W::fresh(&[], &[TOKENS]);
                    let x_eof = W::eq(&x, &g.eof);
                    let mut ext = pre;
                    ext.push(x.clone());
                    let cont = Lang::<W>::new(r, &ext).viable(0, 0, n + 1);
                    let fits = W::or(&[W::and(&[x_eof, whole]), W::and(&[W::not(x_eof), cont])]);
                    let listed = W::among(&x, expected);
                    W::reached("expected list compared");
                    goods.push((W::iff(listed, fits), "the expected tokens are not the ones that fit"));
                } else if expected.is_empty() {
                    W::fail(|| format!("{k} expects nothing at all"));
                }
                W::require_all(&goods);
            }
            Out::Incomplete => {
                let Some(at) = stop else {
                    W::fail(|| format!("{k} answers IncompleteExec at the end of the input"))
                };
                let d = Lang::<W>::new(r, &eofs).derives(0, 0, n);
                let ok = W::and(&[W::eq(&at, &g.eof), d]);
                W::reached("incomplete");
                W::require(ok, || format!("{k} answers IncompleteExec without an end marker after a sentence"));
            }
            Out::Conflict(named) => {
                // the actions of the cell it stopped at
                let at = stop.clone().unwrap_or_else(|| g.eof.clone());
                let mut alt = vec![];
                for (s, a) in &p.tables().actions[ran.top] {
                    let mut v = vec![];
                    flat(a, &mut v);
                    if v.len() > 1 && v.iter().all(|a| named.contains(a)) && named.iter().all(|a| v.contains(&a)) {
                        alt.push(W::eq(s, &at));
                    }
                }
                W::reached("conflict");
                W::require(W::and(&[W::b(p.conflicts() > 0), W::or(&alt)]), || {
                    format!("{k} answers Conflict with actions that are not in conflict there")
                });
            }
            Out::Accept(_) => {
                if stop.is_some() || n != toks.borrow().v.len() {
                    W::fail(|| format!("{k} accepts with tokens left"));
                }
            }
            Out::Internal(e) => W::fail(|| format!("{k} answers {e}")),
        }
    });
}

fn reduction<W: World>(job: &Job) {
    let (g, _) = whole::<W>(job);
    let ps = parsers::<W>(&g);
    let mut qs = parsers::<W>(&g);
    for kind in 0..3 {
        if let Some(q) = &mut qs[kind] {
            let k = KINDS[kind];
            let p = ps[kind].as_ref().unwrap();
            match W::guarded(|| q.reduce_equals()) {
                End::Done(()) => {}
                End::Panic(m) => W::fail(|| format!("{k}: reduce_equals panicked: {m}")),
                End::Hang => W::fail(|| format!("{k}: reduce_equals does not terminate")),
            }
            let (a, b) = (&p.tables().actions, &q.tables().actions);
            if b.len() > a.len() {
                W::fail(|| format!("{k}: reduce_equals made the table longer"));
            }
            W::reached(if b.len() < a.len() { "rows merged" } else { "no rows to merge" });
            for (i, x) in b.iter().enumerate() {
                for a in x.values() {
                    let mut v = vec![];
                    flat(a, &mut v);
                    if v.iter().any(|a| matches!(a, Action::Shift(t) | Action::Goto(t) if *t >= b.len())) {
                        W::fail(|| format!("{k}: reduced row {i} leads out of the table"));
                    }
                }
            }
            if (p.conflicts() == 0) != (q.conflicts() == 0) {
                W::fail(|| format!("{k}: reduce_equals changes whether there are conflicts"));
            }
        }
        W::explore(kind, || {
            let k = KINDS[kind];
            let (p, q) = (ps[kind].as_ref().unwrap(), qs[kind].as_ref().unwrap());
            let toks = job.toks::<W>();
            let x = parse::<W>(p, &g, &toks);
            let y = parse::<W>(q, &g, &toks);
            let e = same::<W>(&x.out, &y.out);
            let ok = W::and(&[e, W::b(x.consumed == y.consumed)]);
            W::require(ok, || {
                format!("{k}: {} before reduce_equals, {} after", x.out.kind(), y.out.kind())
            });
        });
    }
}

fn reuse<W: World>(job: &Job) {
    let (g, _) = whole::<W>(job);
    let ps = parsers::<W>(&g);
    for kind in 0..3 {
        W::explore(kind, || {
            let k = KINDS[kind];
            let p = ps[kind].as_ref().unwrap();
            let first = Toks::<W>::free(job.n.saturating_sub(1).max(1));
            let mut d = dfa::<W>(p, &g, &first);
            let mut go = |t: &Shared<W>| {
                clear_calls();
                match W::guarded(|| d.parse(stream::<W>(t))) {
                    End::Done(r) => Out::of(r),
                    End::Panic(m) => W::fail(|| format!("{k}: Dfa::parse panicked: {m}")),
                    End::Hang => W::fail(|| format!("{k}: Dfa::parse does not terminate")),
                }
            };
            let o1 = go(&first);
            let second = job.toks::<W>();
            let o2 = go(&second);
            let fresh = parse::<W>(p, &g, &second);
            W::note(o1.kind());
            W::reached(match o1 {
                Out::Accept(_) => "after an accepted input",
                _ => "after a rejected input",
            });
            W::require(same::<W>(&o2, &fresh.out), || {
                format!(
                    "{k}: a Dfa used before (which ended with {}) answers {}, a new one {}",
                    o1.kind(),
                    o2.kind(),
                    fresh.out.kind()
                )
            });
        });
    }
}

fn agreement<W: World>(job: &Job) {
    let (g, _) = whole::<W>(job);
    let ps: Vec<_> = (0..3).map(|k| build::<W>(k, &g)).collect();
    let c: Vec<_> = ps.iter().map(Any::conflicts).collect();
    W::note(&format!("{:?}", c.iter().map(|c| *c > 0).collect::<Vec<_>>()));
    if c[2] == 0 && c[1] > 0 {
        W::fail(|| "an SLR(1) grammar has LALR(1) conflicts".into());
    }
    if c[1] == 0 && c[0] > 0 {
        W::fail(|| "an LALR(1) grammar has LR(1) conflicts".into());
    }
    W::reached(match (c[0], c[1], c[2]) {
        (0, 0, 0) => "SLR(1) grammar",
        (0, 0, _) => "LALR(1) grammar",
        (0, ..) => "LR(1) grammar",
        _ => "not LR(1)",
    });
    W::explore(0, || {
        let toks = job.toks::<W>();
        let outs: Vec<_> = ps.iter().map(|p| parse::<W>(p, &g, &toks)).collect();
        for a in 0..3 {
            for b in a + 1..3 {
                let (x, y) = (&outs[a].out, &outs[b].out);
                // a conflict met in a larger table is no disagreement
                if matches!(x, Out::Conflict(_)) || matches!(y, Out::Conflict(_)) {
                    if matches!(x, Out::Conflict(_)) && matches!(y, Out::Accept(_)) {
                        W::fail(|| format!("{} has a conflict where {} accepts", KINDS[a], KINDS[b]));
                    }
                    continue;
                }
                let ok = match (x, y) {
                    (Out::Unexpected(s, _), Out::Unexpected(t, _)) => W::eq(s, t),
                    _ => same::<W>(x, y),
                };
                W::require(W::and(&[ok, W::b(outs[a].consumed == outs[b].consumed)]), || {
                    format!("{} answers {}, {} answers {}", KINDS[a], x.kind(), KINDS[b], y.kind())
                });
            }
        }
    });
}

fn integrity<W: World>(job: &Job) {
    let g = job.gram::<W>();
    let mut goods = vec![];
    for kind in 0..3 {
        let k = KINDS[kind];
        let p = build::<W>(kind, &g);
        let rows = &p.tables().actions;
        let mut reach = vec![false; rows.len()];
        let mut todo = vec![0];
        let mut eqs = vec![];
        while let Some(i) = todo.pop() {
            if i >= rows.len() {
                W::fail(|| format!("{k}: a transition leads to row {i} of {}", rows.len()));
            }
            if std::mem::replace(&mut reach[i], true) {
                continue;
            }
            for (s, a) in &rows[i] {
                let name = W::among(s, &g.names);
                let is_eof = W::eq(s, &g.eof);
                let mut v = vec![];
                flat(a, &mut v);
                for a in v {
                    eqs.push(match a {
                        Action::Shift(t) => {
                            todo.push(*t);
                            let known = W::among(s, &g.slots());
                            W::and(&[W::not(name), W::not(is_eof), known])
                        }
                        Action::Goto(t) => {
                            todo.push(*t);
                            name
                        }
                        Action::Reduce(n, prod) => {
                            let mut alt = vec![];
                            for (m, ps) in g.names.iter().zip(&g.rules).skip(1) {
                                if let Some(b) = ps.get(prod.1).filter(|b| b.len() == prod.0.len()) {
                                    let mut c = vec![W::eq(n, m)];
                                    c.extend(b.iter().zip(&prod.0).map(|(x, y)| W::eq(x, y)));
                                    alt.push(W::and(&c));
                                }
                            }
                            W::and(&[W::not(name), W::or(&alt)])
                        }
                        Action::Acc => is_eof,
                        Action::Conflict(..) => unreachable!(),
                    });
                }
            }
        }
        W::note(&format!("{}", rows.len()));
        W::reached("table checked");
        goods.push((W::and(&eqs), "an action does not belong in its cell"));
        if reach.contains(&false) {
            W::fail(|| format!("{k}: a row cannot be reached from row 0"));
        }
    }
    W::require_all(&goods);
}

fn grammar<W: World>(job: &Job) {
    let g = job.gram::<W>();
    let x = W::fresh(&[], &[TOKENS]);
    let (l, is) = match W::guarded(|| {
        let l = g.lrp();
        let is = l.is_terminal(&x);
        (l, is)
    }) {
        End::Done(l) => l,
        End::Panic(m) => W::fail(|| format!("Grammar::new panicked: {m}")),
        End::Hang => W::fail(|| "Grammar::new does not terminate".into()),
    };
    W::note(&format!("{} {} {is}", l.terminals.len(), l.symbols.len()));
    let name = W::among(&x, &g.names);
    let used = W::among(&x, &g.slots());
    let eof = W::eq(&x, &g.eof);
    let term = W::or(&[eof, W::and(&[used, W::not(name)])]);
    W::reached("classified");
    let sym = W::or(&[name, term]);
    let listed: Vec<_> = l.symbols().collect();
    let mut goods = vec![
        (W::iff(W::b(is), W::not(name)), "is_terminal is wrong at one symbol"),
        (W::iff(W::among(&x, &l.terminals), term), "the terminals are wrong at one symbol"),
        (W::iff(W::among(&x, &l.symbols), sym), "the symbols are wrong at one symbol"),
        (W::iff(W::among(&x, &listed), sym), "symbols() is wrong at one symbol"),
    ];
    // rules and productions are the declared ones, in order
    let rules: Vec<_> = l.rules().collect();
    if rules.len() != g.names.len() || l.rules.len() != g.names.len() {
        W::fail(|| format!("{} rules of {}", rules.len(), g.names.len()));
    }
    for (n, ps) in g.names.iter().zip(&g.rules) {
        let Some(rule) = rules.iter().find(|r| r.name == *n) else {
            W::fail(|| "a rule is missing".into())
        };
        let got: Vec<_> = rule.prods().collect();
        if got.len() != ps.len() {
            W::fail(|| format!("{} productions of {}", got.len(), ps.len()));
        }
        for (i, (a, b)) in got.iter().zip(ps).enumerate() {
            let mut v = vec![W::b(a.1 == i && a.0.len() == b.len())];
            v.extend(a.0.iter().zip(b).map(|(x, y)| W::eq(x, y)));
            goods.push((W::and(&v), "a production is not the declared one"));
        }
    }
    let b = l.basis();
    let mut v = vec![
        W::eq(&b.rule, &g.names[0]),
        W::b(b.point == 0 && b.look.len() == 1 && b.seq.0.len() == g.rules[0][0].len()),
        W::among(&g.eof, &b.look),
    ];
    v.extend(b.seq.0.iter().zip(&g.rules[0][0]).map(|(x, y)| W::eq(x, y)));
    goods.push((W::and(&v), "the basis is not the start production before its first symbol"));
    W::require_all(&goods);
}

fn ambiguity<W: World>(job: &Job) {
    each_parse::<W>(job, |kind, _, _, r, toks, ran| {
        if let Out::Accept(_) = &ran.out {
            let w = toks.borrow().v.clone();
            let (_, two) = Lang::<W>::new(r, &w).trees(0, 0, w.len());
            W::reached("accepted");
            W::require(W::not(two), || {
                format!("{} accepts a sentence that has two derivation trees", KINDS[kind])
            });
        } else if matches!(ran.out, Out::Conflict(_)) {
            W::reached("conflict");
        }
    });
}

fn entry_points<W: World>(job: &Job) {
    let (g, _) = whole::<W>(job);
    let ps = parsers::<W>(&g);
    let qs: Vec<_> = (0..3)
        .map(|kind| {
            let k = KINDS[kind];
            W::wants(kind).then(|| {
                match W::guarded(|| Any::with_table(kind, Tabler::new(g.lrp()))) {
                    End::Done(q) => q,
                    End::Panic(m) => W::fail(|| format!("{k}::with_table panicked: {m}")),
                    End::Hang => W::fail(|| format!("{k}::with_table does not terminate")),
                }
            })
        })
        .collect();
    for kind in 0..3 {
        W::explore(kind, || {
            let k = KINDS[kind];
            let (p, q) = (ps[kind].as_ref().unwrap(), qs[kind].as_ref().unwrap());
            let toks = job.toks::<W>();
            let base = parse::<W>(p, &g, &toks);
            let other = parse::<W>(q, &g, &toks);
            W::reached(base.out.kind());
            W::require(same::<W>(&base.out, &other.out), || {
                format!("{k}: new answers {}, with_table {}", base.out.kind(), other.out.kind())
            });
            // Parser::parse
            clear_calls();
            let r = W::guarded(|| on!(p, p => p.parse(stream::<W>(&toks), reductors(&g))));
            let o = match r {
                End::Done(r) => Out::of(r),
                End::Panic(m) => W::fail(|| format!("{k}::parse panicked: {m}")),
                End::Hang => W::fail(|| format!("{k}::parse does not terminate")),
            };
            W::require(same::<W>(&base.out, &o), || {
                format!("{k}: trace answers {}, parse {}", base.out.kind(), o.kind())
            });
            // Parser::validate, simple_dfa
            let all = toks.borrow().v.clone();
            let unit = |v: &[W::T]| v.iter().map(|t| Token::empty(t.clone())).collect::<Vec<_>>();
            let accepts = matches!(base.out, Out::Accept(_));
            let v = W::guarded(|| {
                let a = on!(p, p => p.validate(unit(&all)));
                let b = on!(p, p => p.simple_dfa(unit(&all)).start().err());
                // Parser::cloned: the value is the first symbol of what was reduced last
                let c = on!(p, p => {
                    let toks: Vec<_> = all.iter().map(|t| Token::new(t.clone(), t.clone())).collect();
                    p.parse(toks.clone(), p.cloned::<std::vec::IntoIter<Token<W::T, W::T>>>()).err()
                });
                // one travel at a time
                let d = on!(p, p => {
                    let mut d = p.simple_dfa(unit(&all));
                    let mut n = 0;
                    let e = d.trace(|_| n += 1).err();
                    (e, n)
                });
                (a, b, c, d)
            });
            match v {
                End::Done((a, b, c, (d, n))) => {
                    if a != accepts {
                        W::fail(|| format!("{k}: accepts {accepts}, validate {a}"));
                    }
                    for (name, e) in [("simple_dfa", b), ("cloned", c), ("trace", d)] {
                        let Some(e) = e else {
                            if !accepts {
                                W::fail(|| format!("{k}: {} by functions, {name} accepts", base.out.kind()));
                            }
                            continue;
                        };
                        let o = Out::of(Err(e));
                        W::require(same::<W>(&base.out, &o), || {
                            format!("{k}: {} by functions, {name} answers {}", base.out.kind(), o.kind())
                        });
                    }
                    if n != base.steps {
                        W::fail(|| format!("{k}: {} steps by functions, {n} without", base.steps));
                    }
                }
                End::Panic(m) => W::fail(|| format!("{k}::validate panicked: {m}")),
                End::Hang => W::fail(|| format!("{k}::validate does not terminate")),
            }
        });
    }
}
