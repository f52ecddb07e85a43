//! Sources whose generated code is compiled and executed. `~` stands for a code block.
use crate::refer;
use std::collections::BTreeMap;

pub struct Template {
    pub name: String,
    /// The source, with the code blocks in place.
    pub src: String,
    pub quick: bool,
    /// Length of the symbolic inputs.
    pub n: usize,
}

/// Items over the symbols 1, 2, 3, 4 with the aliases p, q, r.
pub const ITEMS: &[&str] = &[
    "1:p",
    "1:&p",
    "1?",
    "1?:p",
    "1?:&p",
    "(1|2)",
    "(1|2):p",
    "(1|2):&p",
    "(1|2)?:p",
    "(1|2 3)?:&p",
    "(1 2|3):p",
    "(1:p|2:q)",
    "(1:p|2:&q 3)?",
    "(1:p|2:p)",
    "(1:&p|2)?",
    "(1:p 2?:&q)?:r",
    "(1? 2?:p)",
    "(1? 2?):p",
    "(1?:p 2?:q 3):&r",
    "(1 (2|3):p):q",
    "((1|2)?:p 3)?:q",
    "(1 (2 (3:p|4)?)?:q)?",
    "(1?:&p 2)?",
    "((1:p)?:q|2:&r)",
    "(1|2|3:&p):q",
    "((1:p|2) (3:&q|4))?",
    "(1:p (2|3 4):q)?:&r",
    "(((1|2):p 3)?:q 4):r",
    "(1? 2 3?:p):&q",
    "(1:p 2:q 3:r|4)",
    "(1 (2:p)?|3 (4:p)?)",
    "((1|2):p|(3|4):q)",
];

/// The aliases of an item list, in the order of their first appearance.
fn aliases(s: &str, items: &[refer::Item], out: &mut Vec<String>) {
    for i in items {
        if let Some(a) = i.alias {
            let a = s[a.0..a.1].to_string();
            if !out.contains(&a) {
                out.push(a);
            }
        }
        if let refer::What::Group(g) = &i.what {
            for a in g {
                aliases(s, &a.items, out);
            }
        }
    }
}

/// Puts code blocks that record what they see in place of `~`.
fn with_code(text: &str) -> String {
    let s = text.replace('~', "->%{}%");
    let ds = refer::parse(&s).unwrap_or_else(|| panic!("a template is no program: {text}"));
    let mut out = String::new();
    let mut at = 0;
    let mut k = 0;
    for d in &ds {
        if let refer::Decl::Rule { alts, .. } = d {
            for a in alts {
                let code = a.code.expect("a code block");
                out.push_str(&s[at..code.0]);
                at = code.1;
                if &s[code.0..code.1] != "->%{}%" {
                    // a block of its own: numbered by the template
                    out.push_str(&s[code.0..code.1]);
                    k += 1;
                    continue;
                }
                let mut names = vec![];
                aliases(&s, &a.items, &mut names);
                let binds: Vec<_> = names.iter().map(|n| format!("(\"{n}\", bind(&{n}))")).collect();
                out.push_str(&format!("-> {{ node({k}, toks, vec![{}]) }}%", binds.join(", ")));
                k += 1;
            }
        }
    }
    out.push_str(&s[at..]);
    out
}

const USE: &str = "use crate::obs::*; use crate::syms::*;\n";

fn item(form: &str, terms: &[&str], names: &[&str]) -> String {
    let mut o = String::new();
    for c in form.chars() {
        match c {
            '1'..='4' => {
                o.push(' ');
                o.push_str(terms[c as usize - '1' as usize]);
                o.push(' ');
            }
            'p' | 'q' | 'r' => o.push_str(names[c as usize - 'p' as usize]),
            c => o.push(c),
        }
    }
    o
}

/// Programs written out. Symbols A..L, Plus, Open, Close, Y, Z; rules S (start), R, Q, U, m::R.
const WHOLE: &[(&str, usize)] = &[
    ("S:V=A~;", 3),
    ("S:V=S:x A:&y~|A~;", 5),
    ("S:V=A:x S?:&y~;", 5),
    ("alias \"+\" Plus; S:V=S:&l \"+\" R:&r~|R:x~; R:V=A:&a~|\"+\" R:x~;", 5),
    ("alias \"(\" Open; alias \")\" Close; S:V=\"(\" S:x \")\"~|A:&y~;", 6),
    ("alias x A; S:V=x:&x x~;", 4),
    ("alias x A; alias y x; S:V=x:x B:&y~;", 4),
    ("alias \"m\" m::A; S:V=\"m\" A~|m::B:x \"m\":&y~;", 4),
    ("S:V=R:x R:y~; R:V=A~|B R:z~;", 5),
    ("S:V=(R|Q):x Z~|R:&y Y~; R:V=A~; Q:V=B (R Q)?:x~;", 6),
    ("S:V=R:x~; R:V=Q:y~|A Q:&z~; Q:V=B~;", 4),
    ("S:V=(A S B|C):x~;", 6),
    ("S:V=S (A:x|B:x|C:&y)? Z~|Z~;", 6),
    ("// comment\nS:V= /* one */ A:x /**/ B~ /* two ***/ | // three }% ;\n C:&x~;// end", 3),
    ("S:V=A:x -> {{ /* } */ let y = {1}; let _ = y; node(0, toks, vec![(\"x\", {bind(&x)})])}}%|B~;", 3),
    ("S:V=A->{node(0,toks,vec![])}%|A B->{{node(1,toks,vec![])}}%;", 3),
    ("use crate::syms::m::*; use crate::syms::A; S:V=crate::syms::A:x m::B:&y~;", 3),
    ("S:V=((((A:x))))~|((B|C):x (D|E):&y):z~;", 4),
    ("S:V=A?:x B?:y C?:z Z~;", 5),
    ("S:V=Z A?:x B?:&y C?:z~;", 5),
    ("S:V=(A? B? C?):x Z:y~;", 5),
    ("S:V=(A:x|B:y|C:z) (D:u|E:v)? F:w~;", 4),
    ("S:V=(A:x (B:y (C:z)?)?)? Z:&w~;", 5),
    ("S:V=(A (B|C D):&x (E|F G):y H?):z~;", 7),
    ("S:V=(R:x|Q:&x):z Z~; R:V=A B~; Q:V=A C~;", 4),
    ("R:V=A:x R?:y~; S:V=R:x (B R:&y)?:z~;", 6),
    ("U:crate::obs::V=A~|(U:x B)~; S:V=U:x (C:y|D)?:&z~;", 5),
    ("S:V=R:x~|S:x Plus R:&y~; R:V=Q:x~|R:x Z Q:&y~; Q:V=A~|Open S:x Close~;", 6),
    ("S:V=m::R:x Z~; m::R:V=A~|m::R:&x B~;", 4),
    ("S:V=A|B~;", 3),
];

#[must_use]
pub fn templates() -> Vec<Template> {
    let mut v = vec![];
    let mut push = |name: String, body: &str, quick: bool, n: usize| {
        let src = with_code(&format!("{USE}{body}"));
        v.push(Template { name, src, quick, n });
    };
    for (k, (w, n)) in WHOLE.iter().enumerate() {
        if *w == "S:V=A|B~;" {
            continue; // no block after the first alternative: not sound
        }
        push(format!("w{k}"), w, true, *n);
    }
    let one = ["A", "B", "C", "D"];
    let two = ["E", "F", "G", "H"];
    for (a, f) in ITEMS.iter().enumerate() {
        let x = item(f, &one, &["p", "q", "r"]);
        push(format!("f{a}"), &format!("S:V={x} Z~;"), true, 6);
        push(format!("l{a}"), &format!("S:V=Z:z {x}~;"), true, 6);
        for (b, g) in ITEMS.iter().enumerate() {
            let y = item(g, &two, &["u", "v", "w"]);
            push(
                format!("p{a}.{b}"),
                &format!("S:V={x} {y} Z:z~;"),
                (a + b) % 6 == 0,
                8,
            );
        }
    }
    v
}

/// What a template's rules mean, over symbol values.
pub struct Meaning {
    /// Names of rules, the start rule first.
    pub rules: Vec<i64>,
    /// For each rule and alternative, the number of its code block and its expansions.
    pub alts: Vec<Vec<(usize, Vec<refer::Expansion>)>>,
}

impl Template {
    #[must_use]
    pub fn meaning(&self) -> Meaning {
        let ds = refer::parse(&self.src).expect("a program");
        assert!(refer::sound(&self.src, &ds), "unsound template {}", self.name);
        let mut k = 0;
        let mut all: Vec<(i64, Vec<(usize, Vec<refer::Expansion>)>)> = refer::rules(&self.src, &ds)
            .into_iter()
            .map(|r| {
                let name = crate::syms::value(&r.name).expect("a rule symbol");
                let alts = r
                    .alts
                    .into_iter()
                    .map(|(e, _)| {
                        k += 1;
                        (k - 1, e)
                    })
                    .collect();
                (name, alts)
            })
            .collect();
        let start = crate::syms::value("S").unwrap();
        all.sort_by_key(|x| x.0 != start);
        let (rules, alts) = all.into_iter().unzip();
        Meaning { rules, alts }
    }
}

/// The names of the aliases of each code block, to tell a missing one from an unexpected one.
#[must_use]
pub fn names(m: &Meaning) -> BTreeMap<usize, Vec<String>> {
    m.alts
        .iter()
        .flatten()
        .map(|(k, es)| (*k, es[0].binds.keys().cloned().collect()))
        .collect()
}
