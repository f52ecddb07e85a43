//! What each property is explored over: shapes of grammars with symbolic holes, and token bounds.
use crate::gram::{Piece, Slot, Template};
use crate::props::Job;

/// One rule, or two: every grammar of the shape over any symbols.
const TINY: &[&str] = &[
    "S=??|?",
    "S=???|?",
    "S=??|??",
    "S=?|A;A=??|?",
    "S=A?;A=?A|?",
    "S=?A|?;A=?",
];

const TWO: &[&str] = &["S=A?|?;A=?A|??", "S=A#|#A#;A=?|??", "S=?|A?;A=?A?|#", "S=A|A?;A=??|?"];

/// Three and more rules: cycles, propagation of lookaheads, nesting.
const THREE: &[&str] = &[
    "S=A#|?;A=B?|#;B=?A|#",
    "S=aA#|bB#|aB#|bA#;A=e;B=e",
    "S=A|?Bb;A=B#?;B=c|d?",
    "S=A|?Bb;A=B?;B=#C;C=?",
    "S=A;A=B?|#;B=C?|#;C=A?|c",
    "S=A;A=?B|#;B=?C|#;C=?A|c",
];

/// Known grammars; two symbol occurrences at a time become holes.
const KNOWN: &[&str] = &[
    // dragon book, LALR but not SLR
    "S=L=R|R;L=*R|i;R=L",
    // expressions
    "E=E+T|T;T=T*F|F;F=(E)|i",
    // dragon book 4.54
    "S=CC;C=cC|d",
    // LR(1) but not LALR
    "S=aEa|bEb|aFb|bFa;E=e;F=e",
    // LALR but not SLR, lookaheads from the context
    "S=aAd|bAc|Bd;A=e;B=ef|aed",
    // brackets
    "S=(S)|[S]|()|[]",
    // statements with declarations
    "P=DL;D=dD|d;L=LsE|sE;E=i|E+i",
    // a list with a right recursive tail
    "L=(A)|();A=I|I,A;I=x|L",
];

/// Rules of the deep grammars.
const DEEP: usize = 40;

/// Larger than the rest in one direction: alternatives, body length, rules, terminals.
const WIDE: &[&str] = &[
    "S=a|b|c|d|e|f|g|h|i|j|k|lS|mSm",
    "S=abAcdBefgA|h;A=xyz|x;B=pqrstuv|B,w",
    "A=B+A|B;B=C-B|C;C=D*C|D;D=E/D|E;E=F.E|F;F=(A)|x",
    "A=aB|z;B=bC|y;C=cD|x;D=dE|w;E=eF|v;F=fG|u;G=gH|t;H=hI|s;I=iJ|r;J=jA|q",
    "S=SA|A;A=aB|bC|cD|dE;B=x|xB;C=y|yCy;D=z|zD|z,D;E=(S)|[S]|{S}",
];

/// Canonical states that differ only in how their lookaheads are split: equal rows.
const SPLIT: &[&str] = &["S=aAc|aAd|bAB;A=e;B=c|d", "S=aAc|aAd|bAB|cAB;A=eA|e;B=c|d"];

/// Long ways between rules: what travels from rule to rule has to go far.
fn deep(n: usize) -> Vec<String> {
    let names: Vec<char> = ('A'..='Z').chain('g'..='z').take(n).collect();
    let rule = |f: &dyn Fn(usize, char) -> String| {
        (0..n).map(|i| format!("{}={}", names[i], f(i, names[i]))).collect::<Vec<_>>().join(";")
    };
    let next = |i: usize| names[(i + 1) % n];
    vec![
        // levels of an expression grammar, most of them without an operator
        rule(&|i, a| match i {
            _ if i + 1 == n => format!("0|({})", names[0]),
            _ if i == n / 3 => format!("{}|{a}+{}", next(i), next(i)),
            _ if i == n / 2 => format!("{}|{}*{a}", next(i), next(i)),
            _ => next(i).to_string(),
        }),
        // a cycle of right recursions
        rule(&|i, _| if i == n / 2 { format!("1{}|2", next(i)) } else { format!("1{}", next(i)) }),
        // a cycle of left recursions
        rule(&|i, _| if i == n / 2 { format!("{}1|2", next(i)) } else { format!("{}1", next(i)) }),
    ]
}

/// More alternatives, longer bodies and more states than a byte counts.
fn vast() -> Vec<String> {
    let t: Vec<char> = ('a'..='z').take(17).collect();
    let pairs: Vec<String> = t.iter().flat_map(|a| t.iter().map(move |b| format!("{a}{b}"))).collect();
    let body: String = (0..300).map(|i: usize| t[i * i % 7]).collect();
    vec![
        format!("S={}", pairs.join("|")),
        format!("S=SA|A;A={}", pairs[..270].join("|")),
        format!("S={body}|aaA;A=bAb|c"),
    ]
}

/// Some of the templates with one occurrence made a hole.
fn some(v: &[String], every: usize) -> Vec<Template> {
    v.iter().flat_map(|t| Template::with_holes(t, 1).into_iter().skip(every / 2).step_by(every)).collect()
}

fn cubes(t: &Template, depth: usize) -> Vec<Vec<Piece>> {
    let n = t.rules.len();
    let kinds: Vec<Slot> = t
        .rules
        .iter()
        .flatten()
        .flatten()
        .copied()
        .filter(|s| matches!(s, Slot::Any | Slot::AnyT | Slot::AnyN))
        .collect();
    let mut out = vec![vec![]];
    for k in kinds.iter().take(depth) {
        let mut pieces: Vec<Piece> = vec![];
        if !matches!(k, Slot::AnyT) {
            pieces.extend((0..n - 1).map(Piece::Nt));
        }
        if !matches!(k, Slot::AnyN) {
            pieces.push(Piece::Term);
        }
        out = out
            .into_iter()
            .flat_map(|c: Vec<Piece>| {
                pieces.iter().map(move |p| {
                    let mut c = c.clone();
                    c.push(*p);
                    c
                })
            })
            .collect();
    }
    out
}

pub struct Plan {
    pub prop: String,
    pub jobs: Vec<Job>,
    pub families: Vec<String>,
}

impl Plan {
    fn add(&mut self, name: &str, tmpls: Vec<Template>, layouts: &[usize], n: usize, depth: usize) {
        let mut jobs = vec![];
        for t in &tmpls {
            for l in layouts {
                for cube in cubes(t, depth) {
                    jobs.push(Job {
                        prop: self.prop.clone(),
                        tmpl: t.clone(),
                        layout: *l,
                        cube,
                        n,
                        text: None,
                    });
                }
            }
        }
        let ts: Vec<_> = tmpls.iter().map(|t| t.text.clone()).collect();
        let ts = if ts.len() > 8 { format!("{} templates", ts.len()) } else { ts.join("  ") };
        self.families.push(format!(
            "{name}: {ts:.400}; {} symbol layouts; {} jobs; at most {n} free tokens",
            layouts.len(),
            jobs.len()
        ));
        self.jobs.extend(jobs);
    }
    fn text(&mut self, tmpl: &str, texts: &[String]) {
        let t = Template::parse(tmpl);
        for x in texts {
            self.jobs.push(Job {
                prop: self.prop.clone(),
                tmpl: t.clone(),
                layout: self.jobs.len() % 3,
                cube: vec![],
                n: 0,
                text: Some(x.clone()),
            });
        }
        self.families.push(format!("inputs of {tmpl:.100}: {} sentences of about {} tokens, two of them symbolic", texts.len(), texts[0].len()));
    }
}

fn parse_all(v: &[&str]) -> Vec<Template> {
    v.iter().map(|t| Template::parse(t)).collect()
}

fn holes(v: &[&str], k: usize) -> Vec<Template> {
    v.iter().flat_map(|t| Template::with_holes(t, k)).collect()
}

/// Sentences of `len` tokens of a grammar with two tokens replaced by holes.
fn long(tmpl: &str, len: usize, count: usize) -> Vec<String> {
    let t = Template::parse(tmpl);
    let mut texts: Vec<String> = (1..200).map(|seed| t.sentence(len, seed)).collect();
    texts.sort_by_key(|s| (s.chars().count() < len * 3 / 4, s.chars().count() > len * 2));
    texts
        .iter()
        .take(count)
        .enumerate()
        .map(|(i, s)| {
            let mut s: Vec<char> = s.chars().collect();
            let n = s.len();
            // the holes move through the sentence; every third pair is adjacent
            let a = (i * 7919) % n;
            let b = if i % 3 == 0 { (a + 1) % n } else { (i * 104_729 + 3) % n };
            s[a] = '?';
            s[b] = '?';
            s.into_iter().collect()
        })
        .collect()
}

/// Every shape of `rules` rules whose bodies hold `total` symbols, bodies of at most three.
fn shapes(rules: usize, total: usize) -> Vec<String> {
    fn rec(rule: usize, rules: usize, left: usize, open: bool, cur: String, out: &mut Vec<String>) {
        if left == 0 {
            if rule == rules && open {
                out.push(cur);
            }
            return;
        }
        for len in 1..=left.min(3) {
            let body = "?".repeat(len);
            if open {
                rec(rule, rules, left - len, true, format!("{cur}|{body}"), out);
            }
            if rule < rules {
                let sep = if rule == 0 { "" } else { ";" };
                let name = (b'A' + rule as u8) as char;
                rec(rule + 1, rules, left - len, true, format!("{cur}{sep}{name}={body}"), out);
            }
        }
    }
    let mut out = vec![];
    rec(0, rules, total, false, String::new(), &mut out);
    out
}

pub fn plan(prop: &str, thorough: bool) -> Plan {
    let mut p = Plan {
        prop: prop.to_string(),
        jobs: vec![],
        families: vec![],
    };
    if let Ok(t) = std::env::var("SYMX_TMPL") {
        let n = std::env::var("SYMX_N").ok().and_then(|s| s.parse().ok()).unwrap_or(3);
        p.add("given", vec![Template::parse(&t)], &[0], n, 2);
        return p;
    }
    match prop {
        "C03" | "C04" | "C05" | "C06" | "C07" | "C09" | "C15" | "C16" | "C24" => tables(&mut p, thorough),
        _ => tokens(&mut p, thorough),
    }
    // the largest first
    p.jobs.sort_by_key(|j| std::cmp::Reverse((j.tmpl.rules.len() > 30, j.tmpl.holes.saturating_sub(j.cube.len()))));
    p
}

/// Properties of grammars and tables.
fn tables(p: &mut Plan, thorough: bool) {
    p.add("one or two rules", parse_all(TINY), &[0, 1, 2], 0, 1);
    if p.prop == "C16" && !thorough {
        p.add("known grammars, one hole", holes(KNOWN, 1), &[0, 1, 2], 0, 0);
        p.add("wide grammars, one hole", holes(WIDE, 1), &[0, 1, 2], 0, 0);
        return;
    }
    p.add("two rules", parse_all(TWO), &[1], 0, 3);
    p.add("three rules", parse_all(&THREE[1..]), &[2], 0, 3);
    p.add("known grammars, two holes", holes(KNOWN, 2), &[0], 0, 0);
    p.add("wide grammars, one hole", holes(WIDE, 1), &[1], 0, 0);
    p.add("deep grammars, some holes", some(&deep(DEEP), 9), &[2], 0, 0);
    p.add("vast grammars, some holes", some(&vast(), 101), &[1], 0, 0);
    if thorough {
        p.add("vast grammars, more holes", some(&vast(), 17), &[0], 0, 0);
        p.add("deep grammars, one hole", some(&deep(DEEP), 1), &[0, 1], 0, 0);
        p.add("three rules, all", parse_all(THREE), &[0, 1, 2], 0, 2);
        p.add("two rules, all orders", parse_all(TWO), &[0, 2], 0, 2);
        p.add("known grammars, other orders", holes(KNOWN, 2), &[1, 2], 0, 0);
        p.add("wide grammars, other orders", holes(WIDE, 1), &[0, 2], 0, 0);
        for t in 2..=6 {
            for r in 1..=2 {
                let s = shapes(r, t);
                let v: Vec<_> = s.iter().map(|s| Template::parse(s)).collect();
                p.add(&format!("every shape of {r} rules and {t} symbols"), v, &[0, 1, 2], 0, 2);
            }
        }
        for t in 3..=5 {
            let s = shapes(3, t);
            let v: Vec<_> = s.iter().map(|s| Template::parse(s)).collect();
            p.add(&format!("every shape of 3 rules and {t} symbols"), v, &[0, 1, 2], 0, 2);
        }
        p.add("wide grammars, two holes", holes(WIDE, 2), &[0], 0, 0);
    }
}

/// Properties of parses.
fn tokens(p: &mut Plan, thorough: bool) {
    let x = usize::from(thorough);
    if p.prop == "C12" {
        p.add("equal rows, one hole", holes(SPLIT, 1), &[0], 3 + x, 0);
        p.add("equal rows, more tokens", holes(SPLIT, 0), &[1, 2], 5 + x, 0);
    }
    if p.prop == "C13" {
        // two inputs one after the other
        p.add("one or two rules", parse_all(&TINY[..3]), &[2], 2 + x, 2);
        p.add("known grammars, one hole", holes(&KNOWN[..4], 1), &[0], 2 + x, 0);
        p.add("known grammars, more tokens", holes(KNOWN, 0), &[1, 2], 3 + x, 0);
        p.add("wide grammars", holes(WIDE, 0), &[2], 2, 0);
        for k in KNOWN.iter().chain(WIDE) {
            p.text(k, &long(k, 24, 2 + 40 * x));
            p.text(k, &long(k, 300, 1 + 8 * x));
        }
        if thorough {
            p.add("two rules", parse_all(&TINY[3..]), &[1], 3, 2);
            p.add("known grammars, all, one hole", holes(KNOWN, 1), &[1], 3, 0);
            p.add("known grammars, four tokens", holes(KNOWN, 0), &[0], 4, 0);
        }
        return;
    }
    p.add("one or two rules", parse_all(&TINY[..4]), if thorough { &[0, 1, 2] } else { &[2] }, 3 + x, 2);
    p.add("two rules", parse_all(&TINY[4..]), &[1], 3 + x, 2);
    p.add("known grammars, one hole", holes(KNOWN, 1), &[0], 3 + x, 0);
    p.add("known grammars, more tokens", holes(KNOWN, 0), &[1, 2], 5 + x, 0);
    p.add("wide grammars, one hole", holes(WIDE, 1), &[2], 1 + x, 0);
    for k in KNOWN.iter().chain(WIDE) {
        p.text(k, &long(k, 24, 6 + 40 * x));
    }
    if matches!(p.prop.as_str(), "C08" | "C10" | "C12" | "C14" | "C18") {
        // no language to decide here: far longer inputs are within reach
        for k in KNOWN.iter().chain(WIDE) {
            p.text(k, &long(k, 300, 2 + 8 * x));
        }
    }
    p.add("deep grammars, some holes", some(&deep(DEEP), 27), &[2], 1, 0);
    for k in &deep(DEEP) {
        p.text(k, &long(k, 24, 1 + x));
    }
    p.add("vast grammars, some holes", some(&vast(), 151), &[0], 1, 0);
    for k in &vast() {
        p.text(k, &long(k, 300, 1 + x));
    }
    if thorough {
        p.add("vast grammars", vast().iter().map(|t| Template::parse(t)).collect(), &[1], 2, 0);
        p.add("three rules", parse_all(THREE), &[0, 1, 2], 4, 2);
        p.add("two rules, all", parse_all(TWO), &[0, 1, 2], 4, 2);
        p.add("known grammars, two holes", holes(KNOWN, 2), &[0], 3, 0);
        for t in 2..=5 {
            for r in 1..=2 {
                let s = shapes(r, t);
                let v: Vec<_> = s.iter().map(|s| Template::parse(s)).collect();
                p.add(&format!("every shape of {r} rules and {t} symbols"), v, &[t % 3], 4, 2);
            }
        }
    }
}

/// The functions of the repository executed symbolically for a property.
pub fn functions(prop: &str) -> Vec<String> {
    let tab = "lrp::Tabler::{new, gen_first, proc_first, gen_follow, proc_follow, first_step, follow_step, first_of, sym_filter, conflicts}";
    let build = "lrp::{Clr, Lalr, Slr}::{with_table, proc_actions, proc_closures, closure, prop_closure, goto, decision} and what they call, lrp::Parser provided methods";
    let dfa = "lrp::Dfa::{new, start, trace, travel, shift, goto, reduce, accept, unexpected}";
    let g = "lrp::Grammar::new, lrp::grammar::Rule::new";
    let v: &[&str] = match prop {
        "C16" => &[g, "lrp::Grammar::{is_terminal, rules, symbols, basis}, lrp::grammar::Rule::prods"],
        "C03" | "C04" => &[g, tab],
        "C05" | "C06" | "C07" | "C09" | "C15" => &[g, tab, build],
        "C24" => &[g, tab, build, "lrp::Parser::{final_kernel, state_from_kernel}, lrp::Tabler::sym_filter, lrp::Position::{top, clone_next, no_look, body_eq}"],
        "C12" => &[g, tab, build, dfa, "lrp::Tabler::{reduce_equals, reduced_actions, update_entry}"],
        "C13" => &[g, tab, build, dfa, "lrp::Dfa::{parse, reset}"],
        "C18" => &[g, tab, build, dfa, "lrp::Parser::{new, with_table, dfa, simple_dfa, cloned, empty, parse, validate}"],
        _ => &[g, tab, build, dfa],
    };
    v.iter().map(|s| (*s).to_string()).collect()
}

pub fn assumptions(prop: &str) -> Vec<String> {
    let mut v = vec![
        "no empty productions; the start rule has one production of one symbol and is in no body; the end marker is in no body",
        "symbol types with a total order whose Ord, Eq and Clone agree (the code under test can only compare symbols)",
        "release profile with debug assertions and overflow checks",
    ];
    if matches!(prop, "C05" | "C06" | "C07" | "C11" | "C24") {
        v.push("every rule derives some string");
    }
    if prop == "C02" {
        v.push("every rule derives some string, where wrong input must be rejected without delay");
    }
    v.into_iter().map(String::from).collect()
}
