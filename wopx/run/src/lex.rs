//! The lexer of wop sources, on symbolic bytes.
use crate::interp::{self, Byte, Tok};
use crate::src::sym;
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use symx::engine::{self, Sx};
use symx::world::{Native, Sym, World};
use wobs::refer::{self, Kind, KINDS};

#[derive(Clone, Debug)]
pub struct Lex {
    /// The bytes of the text; `None` is any ASCII byte.
    pub text: Vec<Option<u8>>,
}

impl Lex {
    /// `?` is a hole.
    pub fn of(text: &str) -> Self {
        Self { text: text.bytes().map(|b| (b != b'?').then_some(b)).collect() }
    }
    pub fn dump(&self) -> String {
        self.text.iter().map(|b| b.map_or("? ".to_string(), |b| format!("{b:02x} "))).collect()
    }
    pub fn load(s: &str) -> Self {
        Self {
            text: s
                .split_whitespace()
                .map(|x| (x != "?").then(|| u8::from_str_radix(x, 16).unwrap()))
                .collect(),
        }
    }
    pub fn title(&self) -> String {
        String::from_utf8_lossy(&self.text.iter().map(|b| b.unwrap_or(b'?')).collect::<Vec<_>>()).into_owned()
    }
}

/// What the lexer yields first: a token (`None` is the end of the text) and where.
type First = (Option<Kind>, usize, usize);

enum Bt<W: World> {
    Is(u8),
    Any(W::T),
}

/// Formulas that do not depend on the token looked for.
struct Cache<B> {
    strings: HashMap<usize, Vec<B>>,
    skipped: HashMap<(usize, usize), B>,
    tokens: HashMap<(usize, Kind, usize), B>,
    /// Nothing begins here.
    errors: HashMap<usize, B>,
    /// The formulas that say what the names used stand for.
    defs: Vec<B>,
}

impl<B> Default for Cache<B> {
    fn default() -> Self {
        Self {
            strings: HashMap::new(),
            skipped: HashMap::new(),
            tokens: HashMap::new(),
            errors: HashMap::new(),
            defs: vec![],
        }
    }
}

thread_local! {
    /// The formulas of the text being explored: they live as long as its exploration.
    static KEPT: RefCell<(usize, String, Cache<<Sym as World>::B>)> = RefCell::new((0, String::new(), Cache::default()));
}

/// The reference, as formulas: which texts have `want` as their first token.
struct Ref<'a, W: World> {
    b: &'a [Bt<W>],
    want: First,
    memo: HashMap<usize, W::B>,
    kept: &'a mut Cache<W::B>,
    defs: Vec<W::B>,
}

impl<W: World> Ref<'_, W> {
    fn is(&self, i: usize, ranges: &[(u8, u8)]) -> W::B {
        match &self.b[i] {
            Bt::Is(b) => W::b(ranges.iter().any(|r| (r.0..=r.1).contains(b))),
            Bt::Any(x) => {
                let v: Vec<_> = ranges.iter().map(|r| W::between(x, i64::from(r.0), i64::from(r.1))).collect();
                W::or(&v)
            }
        }
    }
    fn c(&self, i: usize, c: u8) -> W::B {
        self.is(i, &[(c, c)])
    }
    fn word(&self, i: usize) -> W::B {
        self.is(i, &[(b'a', b'z'), (b'A', b'Z'), (b'0', b'9'), (b'_', b'_')])
    }
    fn n(&self) -> usize {
        self.b.len()
    }
    /// The two bytes `x` first stand together at `q`, from `p` on.
    fn first_at(&self, x: &[u8; 2], p: usize, q: usize) -> W::B {
        let mut v = vec![];
        for i in p..q {
            let both = W::and(&[self.c(i, x[0]), self.c(i + 1, x[1])]);
            v.push(W::not(both));
        }
        v.push(self.c(q, x[0]));
        v.push(self.c(q + 1, x[1]));
        W::and(&v)
    }
    fn literal(&self, p: usize, s: &str) -> W::B {
        if p + s.len() > self.n() {
            return W::f();
        }
        let v: Vec<_> = s.bytes().enumerate().map(|(k, c)| self.c(p + k, c)).collect();
        W::and(&v)
    }
    /// A string that opens at `p` and ends before `e`, for each `e`.
    fn strings(&mut self, p: usize) -> Vec<W::B> {
        if let Some(v) = self.kept.strings.get(&p) {
            return v.clone();
        }
        let n = self.n();
        let mut out = vec![W::f(); n + 1];
        let mut open = vec![W::f(); n + 2];
        open[p + 1] = self.c(p, b'"');
        for i in p + 1..n {
            let o = W::named(open[i], 's', &mut self.kept.defs);
            let (q, b) = (self.c(i, b'"'), self.c(i, b'\\'));
            out[i + 1] = W::and(&[o, q]);
            let plain = W::and(&[o, W::not(q), W::not(b)]);
            open[i + 1] = W::or(&[open[i + 1], plain]);
            if i + 1 < n {
                // the escaped character may have several bytes
                let len = match &self.b[i + 1] {
                    Bt::Is(b) if *b >= 0xF0 => 4,
                    Bt::Is(b) if *b >= 0xE0 => 3,
                    Bt::Is(b) if *b >= 0xC0 => 2,
                    _ => 1,
                };
                let nl = self.c(i + 1, b'\n');
                let esc = W::and(&[o, b, W::not(nl)]);
                if i + 1 + len <= n {
                    open[i + 1 + len] = W::or(&[open[i + 1 + len], esc]);
                }
            }
        }
        self.kept.strings.insert(p, out.clone());
        out
    }
    /// Tokens of kind `k` at `p` ending before `e`; `k` neither a string nor an error.
    fn token(&mut self, p: usize, k: Kind, e: usize) -> W::B {
        if let Some(b) = self.kept.tokens.get(&(p, k, e)) {
            return *b;
        }
        let b = self.token_formula(p, k, e);
        self.kept.tokens.insert((p, k, e), b);
        b
    }
    fn token_formula(&self, p: usize, k: Kind, e: usize) -> W::B {
        let n = self.n();
        let single = |c| if e == p + 1 { self.c(p, c) } else { W::f() };
        match k {
            Kind::Assign => single(b'='),
            Kind::Pipe => single(b'|'),
            Kind::OpenParen => single(b'('),
            Kind::CloseParen => single(b')'),
            Kind::Sc => single(b';'),
            Kind::Glob => single(b'*'),
            Kind::Optional => single(b'?'),
            Kind::Clone => single(b'&'),
            Kind::TwoDots => {
                let more = if p + 1 < n { self.c(p + 1, b':') } else { W::f() };
                W::and(&[single(b':'), W::not(more)])
            }
            Kind::PathAccess if e == p + 2 => self.literal(p, "::"),
            Kind::CodeBlock if e >= p + 4 => {
                let a = self.literal(p, "->");
                W::and(&[a, self.first_at(b"}%", p + 2, e - 2)])
            }
            Kind::AliasWord | Kind::UseWord | Kind::Ident => {
                let mut v = vec![self.is(p, &[(b'a', b'z'), (b'A', b'Z'), (b'_', b'_')])];
                v.extend((p + 1..e).map(|i| self.word(i)));
                if e < n {
                    v.push(W::not(self.word(e)));
                }
                let key = |s: &str| if e - p == s.len() { self.literal(p, s) } else { W::f() };
                let (a, u) = (key("alias"), key("use"));
                v.push(match k {
                    Kind::AliasWord => a,
                    Kind::UseWord => u,
                    _ => W::not(W::or(&[a, u])),
                });
                W::and(&v)
            }
            _ => W::f(),
        }
    }
    /// Something skipped at `p` ending before `e`.
    fn skipped(&mut self, p: usize, e: usize) -> W::B {
        if let Some(b) = self.kept.skipped.get(&(p, e)) {
            return *b;
        }
        let b = self.skipped_formula(p, e);
        self.kept.skipped.insert((p, e), b);
        b
    }
    fn skipped_formula(&self, p: usize, e: usize) -> W::B {
        let n = self.n();
        let mut v = vec![];
        if e == p + 1 {
            v.push(self.is(p, &[(b' ', b' '), (b'\t', b'\n'), (b'\r', b'\r')]));
        }
        if e >= p + 2 {
            let mut l = vec![self.literal(p, "//")];
            l.extend((p + 2..e).map(|i| W::not(self.c(i, b'\n'))));
            if e < n {
                l.push(self.c(e, b'\n'));
            }
            v.push(W::and(&l));
        }
        if e >= p + 4 {
            let a = self.literal(p, "/*");
            v.push(W::and(&[a, self.first_at(b"*/", p + 2, e - 2)]));
        }
        W::or(&v)
    }
    /// Nothing else begins here.
    fn error(&mut self, p: usize) -> W::B {
        if let Some(b) = self.kept.errors.get(&p) {
            return *b;
        }
        let mut any = self.strings(p);
        for e in p + 1..=self.n() {
            any.push(self.skipped(p, e));
            for k in KINDS {
                any.push(self.token(p, k, e));
            }
        }
        let b = W::not(W::or(&any));
        self.kept.errors.insert(p, b);
        b
    }
    fn from(&mut self, p: usize) -> W::B {
        let n = self.n();
        if p == n {
            return W::b(self.want.0.is_none());
        }
        if let Some(b) = self.memo.get(&p) {
            return *b;
        }
        let mut ors = vec![];
        for e in p + 1..=n {
            let s = self.skipped(p, e);
            if !W::never(&s) {
                let rest = self.from(e);
                ors.push(W::and(&[s, rest]));
            }
        }
        match self.want {
            (Some(Kind::Error), _, _) => {
                ors.push(self.error(p));
            }
            (Some(k), s, e) if s == p && e > p && e <= n => {
                ors.push(if k == Kind::StrLit { self.strings(p)[e] } else { self.token(p, k, e) });
            }
            _ => {}
        }
        let r = W::named(W::or(&ors), 'd', &mut self.defs);
        self.memo.insert(p, r);
        r
    }
}

fn kind(name: &str) -> Option<Kind> {
    KINDS.iter().find(|k| format!("{:?}", sym(**k)) == name).copied()
}

/// The tokens the real lexer finds, up to the first error.
fn real(s: &str) -> Result<Vec<(Kind, usize, usize)>, String> {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut v = vec![];
        for t in wop::lexer(s) {
            let k = kind(&format!("{:?}", t.ty)).ok_or(format!("the token {:?}", t.ty))?;
            match t.item.item {
                wop::Ast::Token(x) if x == t.ty => {}
                ref x => return Err(format!("a token {:?} with the value {x:?}", t.ty)),
            }
            v.push((k, t.item.span.start, t.item.span.end));
            if k == Kind::Error {
                break;
            }
        }
        Ok(v)
    }));
    r.unwrap_or_else(|p| Err(format!("the lexer panicked: {}", engine::panic_text(&*p))))
}

fn shown(s: &str, v: &[(Kind, usize, usize)]) -> String {
    let v: Vec<_> = v.iter().map(|t| format!("{:?} {:?}", t.0, s.get(t.1..t.2).unwrap_or(""))).collect();
    v.join(", ")
}

/// Compares all tokens of a text.
fn concrete<W: World>(s: &str) -> Result<First, String> {
    let got = real(s).map_err(|m| format!("{m} on {s:?}"))?;
    let want: Vec<_> = refer::tokens(s).iter().map(|t| (t.kind, t.start, t.end)).collect();
    let same = got.len() == want.len()
        && got.iter().zip(&want).all(|(a, b)| a == b || (a.0 == Kind::Error && b.0 == Kind::Error));
    if !same {
        return Err(format!("the tokens of {s:?} are {}, should be {}", shown(s, &got), shown(s, &want)));
    }
    let f = got.first();
    Ok(f.map_or((None, s.len(), s.len()), |f| (Some(f.0), f.1, f.2)))
}

fn text<W: World>(b: &[Bt<W>]) -> String {
    let vars: Vec<W::T> = b
        .iter()
        .filter_map(|b| match b {
            Bt::Any(x) => Some(x.clone()),
            Bt::Is(_) => None,
        })
        .collect();
    let mut vals = W::pin(&vars).into_iter();
    let bytes = b
        .iter()
        .map(|b| match b {
            Bt::Is(b) => *b,
            Bt::Any(_) => vals.next().unwrap() as u8,
        })
        .collect();
    String::from_utf8(bytes).expect("the text is UTF-8")
}

fn note<W: World>(f: &First) {
    match f.0 {
        Some(Kind::Error) => W::note("Error"),
        None => W::note("end"),
        _ => W::note(&format!("{f:?}")),
    }
}

fn bytes<W: World>(job: &Lex) -> Vec<Bt<W>> {
    job.text
        .iter()
        .map(|b| match b {
            Some(b) => Bt::Is(*b),
            None => Bt::Any(W::fresh(&[], &[(-1, 128)])),
        })
        .collect()
}

fn obligation<W: World>(b: &[Bt<W>], f: First, kept: &mut Cache<W::B>) {
    let mut r = Ref::<W> { b, want: f, memo: HashMap::new(), kept, defs: vec![] };
    let good = r.from(0);
    // wherever the names stand for what they should
    let mut defs = r.defs;
    defs.extend(&kept.defs);
    let defs = W::not(W::and(&defs));
    let good = W::or(&[defs, good]);
    W::require(good, || match f.0 {
        Some(k) => format!("the first token is {k:?}, bytes {}..{}, where the notation has another", f.1, f.2),
        None => "the lexer finds no token in a text that has one".to_string(),
    });
}

/// Classes of bytes the notation tells apart, for code that cannot be executed symbolically.
const CLASSES: &[&[u8]] = &[
    b" \t", b"\n", b"\r", b"/", b"*", b"-", b">", b"}", b"%", b"\"", b"\\", b":", b"=", b"|", b"(", b")", b";", b"?", b"&",
    b"alius", b"bcZ_", b"0159", b"#.{\x00\x7f",
];

pub fn native(job: &Lex) {
    let b = bytes::<Native>(job);
    let s = text::<Native>(&b);
    match real(&s) {
        Err(m) => Native::fail(|| m),
        Ok(v) => {
            let f = v.first().map_or((None, s.len(), s.len()), |f| (Some(f.0), f.1, f.2));
            note::<Native>(&f);
            obligation::<Native>(&b, f, &mut Cache::default());
        }
    }
    if let Err(m) = concrete::<Native>(&s) {
        Native::fail(|| m);
    }
}

pub fn symbolic(job: &Lex) {
    let b = bytes::<Sym>(job);
    let bs: Vec<Byte> = b
        .iter()
        .map(|b| match b {
            Bt::Is(b) => Byte::Fixed(*b),
            Bt::Any(x) => Byte::Sym(*x),
        })
        .collect();
    let done = match interp::program() {
        Err(e) => Err(e.clone()),
        Ok(p) => {
            let mut r = interp::Run::new(p, &bs);
            r.next().map(|()| {
                let k = match r.tok.take().expect("a token") {
                    Tok::End => None,
                    Tok::Error => Some(Kind::Error),
                    Tok::Set(n) => Some(kind(&n).unwrap_or_else(|| Sym::fail(|| format!("the lexer yields the token {n}")))),
                };
                (k, r.start, r.end)
            })
        }
    };
    match done {
        Ok(f) => {
            note::<Sym>(&f);
            Sym::reached(match f.0 {
                None => "texts without a token",
                Some(Kind::Error) => "texts beginning with an error",
                _ => "texts beginning with a token",
            });
            KEPT.with(|k| {
                let mut k = k.borrow_mut();
                let me = (engine::session_number(), job.dump());
                if (k.0, &k.1) != (me.0, &me.1) {
                    *k = (me.0, me.1, Cache::default());
                }
                obligation::<Sym>(&b, f, &mut k.2);
            });
            let s = text::<Sym>(&b);
            match concrete::<Sym>(&s) {
                Ok(_) => {}
                Err(m) => Sym::fail(|| m),
            }
        }
        Err(e) => {
            if std::env::var("WOPX_WHY").is_ok() {
                println!("not understood: {e}");
            }
            // one representative of each class instead
            let mut left = 3;
            let mut chosen: Vec<(Sx, i64)> = vec![];
            for x in &b {
                if let Bt::Any(x) = x {
                    if left == 0 {
                        break;
                    }
                    left -= 1;
                    let k = engine::branch(|e| {
                        CLASSES
                            .iter()
                            .map(|c| {
                                let v: Vec<_> = c
                                    .iter()
                                    .map(|c| {
                                        let (a, c) = (e.ast(*x), e.ast(Sx::c(i64::from(*c))));
                                        e.z.eq(a, c)
                                    })
                                    .collect();
                                e.z.or(&v)
                            })
                            .collect()
                    });
                    chosen.push((*x, k as i64));
                }
            }
            let s = text::<Sym>(&b);
            Sym::reached("texts whose lexing was not understood symbolically");
            match concrete::<Sym>(&s) {
                Ok(f) => note::<Sym>(&f),
                Err(m) => Sym::fail(|| m),
            }
        }
    }
}
