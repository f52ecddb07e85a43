//! The reference reading of the wop notation, written from its description (wop/src/wop.grammar,
//! wop/README.md), not from the code: tokens, declarations, and what a rule's alternatives expand to.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Kind {
    AliasWord,
    UseWord,
    Assign,
    Pipe,
    OpenParen,
    CloseParen,
    Sc,
    PathAccess,
    TwoDots,
    Glob,
    Optional,
    Clone,
    Ident,
    StrLit,
    CodeBlock,
    Error,
}

pub const KINDS: [Kind; 16] = [
    Kind::AliasWord,
    Kind::UseWord,
    Kind::Assign,
    Kind::Pipe,
    Kind::OpenParen,
    Kind::CloseParen,
    Kind::Sc,
    Kind::PathAccess,
    Kind::TwoDots,
    Kind::Glob,
    Kind::Optional,
    Kind::Clone,
    Kind::Ident,
    Kind::StrLit,
    Kind::CodeBlock,
    Kind::Error,
];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct T {
    pub kind: Kind,
    pub start: usize,
    pub end: usize,
}

/// The tokens of a text. Ends after the first error.
pub fn tokens(s: &str) -> Vec<T> {
    let mut out = vec![];
    let mut i = 0;
    while i < s.len() {
        let r = &s[i..];
        let word = |r: &str| r.find(|c: char| !(c.is_alphanumeric() || c == '_')).unwrap_or(r.len());
        let c = r.chars().next().unwrap();
        let (kind, n) = if r.starts_with([' ', '\t', '\n', '\r']) {
            (None, 1)
        } else if r.starts_with("//") {
            (None, r.find('\n').unwrap_or(r.len()))
        } else if r.starts_with("/*") {
            match r[2..].find("*/") {
                Some(n) => (None, n + 4),
                None => (Some(Kind::Error), 1),
            }
        } else if r.starts_with("->") {
            match r.find("}%") {
                Some(n) => (Some(Kind::CodeBlock), n + 2),
                None => (Some(Kind::Error), 1),
            }
        } else if c == '"' {
            let mut esc = false;
            let mut end = None;
            for (k, c) in r.char_indices().skip(1) {
                if esc {
                    if c == '\n' {
                        break;
                    }
                    esc = false;
                } else if c == '\\' {
                    esc = true;
                } else if c == '"' {
                    end = Some(k + 1);
                    break;
                }
            }
            match end {
                Some(n) => (Some(Kind::StrLit), n),
                None => (Some(Kind::Error), 1),
            }
        } else if c.is_ascii_alphabetic() || c == '_' {
            let n = word(r);
            (
                Some(match &r[..n] {
                    "alias" => Kind::AliasWord,
                    "use" => Kind::UseWord,
                    _ => Kind::Ident,
                }),
                n,
            )
        } else if r.starts_with("::") {
            (Some(Kind::PathAccess), 2)
        } else {
            (
                Some(match c {
                    '=' => Kind::Assign,
                    '|' => Kind::Pipe,
                    '(' => Kind::OpenParen,
                    ')' => Kind::CloseParen,
                    ';' => Kind::Sc,
                    ':' => Kind::TwoDots,
                    '*' => Kind::Glob,
                    '?' => Kind::Optional,
                    '&' => Kind::Clone,
                    _ => Kind::Error,
                }),
                c.len_utf8(),
            )
        };
        if let Some(kind) = kind {
            out.push(T { kind, start: i, end: i + n });
            if kind == Kind::Error {
                break;
            }
        }
        i += n;
    }
    out
}

type Span = (usize, usize);

#[derive(Clone, Debug)]
pub enum What {
    Path(Span),
    Str(Span),
    Group(Vec<Alt>),
}

#[derive(Clone, Debug)]
pub struct Item {
    pub span: Span,
    pub what: What,
    pub optional: bool,
    pub alias: Option<Span>,
    pub clone: bool,
}

#[derive(Clone, Debug)]
pub struct Alt {
    pub items: Vec<Item>,
    pub code: Option<Span>,
}

#[derive(Clone, Debug)]
pub enum Decl {
    Use(Span),
    Alias(Span, Span),
    Rule { name: Span, ty: Span, alts: Vec<Alt> },
}

struct P<'a> {
    t: &'a [T],
    i: usize,
}

impl P<'_> {
    fn peek(&self) -> Option<Kind> {
        self.t.get(self.i).map(|t| t.kind)
    }
    fn eat(&mut self, k: Kind) -> Option<T> {
        if self.peek() == Some(k) {
            self.i += 1;
            return Some(self.t[self.i - 1]);
        }
        None
    }
    fn path(&mut self) -> Option<Span> {
        let a = self.eat(Kind::Ident)?;
        let mut end = a.end;
        while self.peek() == Some(Kind::PathAccess) && self.t.get(self.i + 1).map(|t| t.kind) == Some(Kind::Ident) {
            end = self.t[self.i + 1].end;
            self.i += 2;
        }
        Some((a.start, end))
    }
    fn item(&mut self) -> Option<Item> {
        let start = self.t.get(self.i)?.start;
        let what = match self.peek()? {
            Kind::Ident => What::Path(self.path()?),
            Kind::StrLit => {
                let t = self.eat(Kind::StrLit)?;
                What::Str((t.start, t.end))
            }
            _ => {
                self.eat(Kind::OpenParen)?;
                let g = self.alts()?;
                self.eat(Kind::CloseParen)?;
                What::Group(g)
            }
        };
        let optional = self.eat(Kind::Optional).is_some();
        let mut clone = false;
        let alias = if self.eat(Kind::TwoDots).is_some() {
            clone = self.eat(Kind::Clone).is_some();
            let t = self.eat(Kind::Ident)?;
            Some((t.start, t.end))
        } else {
            None
        };
        Some(Item { span: (start, self.t[self.i - 1].end), what, optional, alias, clone })
    }
    fn alts(&mut self) -> Option<Vec<Alt>> {
        let mut v = vec![];
        loop {
            let mut items = vec![self.item()?];
            while matches!(self.peek(), Some(Kind::Ident | Kind::StrLit | Kind::OpenParen)) {
                items.push(self.item()?);
            }
            let code = self.eat(Kind::CodeBlock).map(|t| (t.start, t.end));
            v.push(Alt { items, code });
            if self.eat(Kind::Pipe).is_none() {
                return Some(v);
            }
        }
    }
    fn decl(&mut self) -> Option<Decl> {
        let d = match self.peek()? {
            Kind::UseWord => {
                self.i += 1;
                let mut p = self.path()?;
                if self.eat(Kind::PathAccess).is_some() {
                    p.1 = self.eat(Kind::Glob)?.end;
                }
                Decl::Use(p)
            }
            Kind::AliasWord => {
                self.i += 1;
                let t = self.eat(Kind::Ident).or_else(|| self.eat(Kind::StrLit))?;
                Decl::Alias((t.start, t.end), self.path()?)
            }
            _ => {
                let name = self.path()?;
                self.eat(Kind::TwoDots)?;
                let ty = self.path()?;
                self.eat(Kind::Assign)?;
                Decl::Rule { name, ty, alts: self.alts()? }
            }
        };
        self.eat(Kind::Sc)?;
        Some(d)
    }
}

/// The declarations of a source, `None` when it is not one.
pub fn parse(s: &str) -> Option<Vec<Decl>> {
    let t = tokens(s);
    let mut p = P { t: &t, i: 0 };
    let mut v = vec![];
    while p.i < t.len() {
        v.push(p.decl()?);
    }
    (!v.is_empty()).then_some(v)
}

/// What may be said about a well-formed source: no rule and no alias twice, a code block after
/// each alternative of a rule and after none of a group.
pub fn sound(s: &str, ds: &[Decl]) -> bool {
    fn plain(items: &[Item]) -> bool {
        items.iter().all(|i| match &i.what {
            What::Group(g) => g.iter().all(|a| a.code.is_none() && plain(&a.items)),
            _ => true,
        })
    }
    let (mut rules, mut aliases) = (BTreeSet::new(), BTreeSet::new());
    ds.iter().all(|d| match d {
        Decl::Use(_) => true,
        Decl::Alias(a, _) => aliases.insert(&s[a.0..a.1]),
        Decl::Rule { name, alts, .. } => {
            rules.insert(&s[name.0..name.1]) && alts.iter().all(|a| a.code.is_some() && plain(&a.items))
        }
    })
}

/// Where an alias lies in an expansion: symbols `a..b`.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Place {
    One(usize),
    Many(usize, usize),
    /// Not there, and whether it would be a range.
    Absent(bool),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Binding {
    pub place: Place,
    /// An `Option`.
    pub option: bool,
    pub clone: bool,
}

/// One way to write an alternative without `?` and groups.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Expansion {
    pub syms: Vec<String>,
    pub binds: BTreeMap<String, Binding>,
}

/// The aliases declared anywhere inside, as they look where they are absent.
fn names(s: &str, items: &[Item], out: &mut BTreeMap<String, Binding>) {
    for i in items {
        if let Some(a) = i.alias {
            let range = matches!(i.what, What::Group(_));
            out.entry(s[a.0..a.1].to_string()).or_insert(Binding {
                place: Place::Absent(range),
                option: true,
                clone: i.clone,
            });
        }
        if let What::Group(g) = &i.what {
            for a in g {
                names(s, &a.items, out);
            }
        }
    }
}

/// Every expansion of `items`; `defs` are the aliases of symbols.
pub fn expand(s: &str, defs: &BTreeMap<String, String>, items: &[Item]) -> Vec<Expansion> {
    let mut out = vec![Expansion { syms: vec![], binds: BTreeMap::new() }];
    for i in items {
        let mut next = vec![];
        for e in &out {
            let at = e.syms.len();
            let mut ways: Vec<Expansion> = vec![];
            match &i.what {
                What::Path(p) | What::Str(p) => {
                    let t = s[p.0..p.1].to_string();
                    let mut e = e.clone();
                    e.syms.push(defs.get(&t).cloned().unwrap_or(t));
                    ways.push(e);
                }
                What::Group(g) => {
                    let mut inside = BTreeMap::new();
                    for a in g {
                        names(s, &a.items, &mut inside);
                    }
                    for a in g {
                        for x in expand(s, defs, &a.items) {
                            let mut e = e.clone();
                            for (n, absent) in &inside {
                                let mut b = x.binds.get(n).unwrap_or(absent).clone();
                                b.option = true;
                                match &mut b.place {
                                    Place::One(p) => *p += at,
                                    Place::Many(p, q) => {
                                        *p += at;
                                        *q += at;
                                    }
                                    Place::Absent(_) => {}
                                }
                                e.binds.insert(n.clone(), b);
                            }
                            e.syms.extend(x.syms);
                            ways.push(e);
                        }
                    }
                }
            }
            if let Some(a) = i.alias {
                for w in &mut ways {
                    let place = match i.what {
                        What::Group(_) => Place::Many(at, w.syms.len()),
                        _ => Place::One(at),
                    };
                    w.binds.insert(
                        s[a.0..a.1].to_string(),
                        Binding { place, option: i.optional, clone: i.clone },
                    );
                }
            }
            if i.optional {
                let mut w = e.clone();
                names(s, std::slice::from_ref(i), &mut w.binds);
                ways.push(w);
            }
            next.extend(ways);
        }
        out = next;
    }
    out
}

/// The definitions of symbols in force at declaration `upto`.
pub fn defs(s: &str, ds: &[Decl], upto: usize) -> BTreeMap<String, String> {
    ds[..upto]
        .iter()
        .filter_map(|d| match d {
            Decl::Alias(a, t) => Some((s[a.0..a.1].to_string(), s[t.0..t.1].to_string())),
            _ => None,
        })
        .collect()
}

/// A rule: its name, its type, and for each alternative its expansions and the text of its code.
#[derive(Clone, Debug)]
pub struct Rule {
    pub name: String,
    pub ty: String,
    pub alts: Vec<(Vec<Expansion>, String)>,
}

pub fn rules(s: &str, ds: &[Decl]) -> Vec<Rule> {
    ds.iter()
        .enumerate()
        .filter_map(|(k, d)| match d {
            Decl::Rule { name, ty, alts } => {
                let defs = defs(s, ds, k);
                Some(Rule {
                    name: s[name.0..name.1].to_string(),
                    ty: s[ty.0..ty.1].to_string(),
                    alts: alts
                        .iter()
                        .map(|a| {
                            let code = a.code.map_or(String::new(), |c| s[c.0..c.1].to_string());
                            (expand(s, &defs, &a.items), code)
                        })
                        .collect(),
                })
            }
            _ => None,
        })
        .collect()
}
