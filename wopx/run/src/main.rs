//! `wopx check <property> <tier> <evidence file> <out dir>`, `wopx replay <file>`: see `symx::driver`.
mod dump;
mod families;
mod gen;
mod interp;
mod lex;
mod src;

use std::collections::BTreeMap;
use symx::driver::{self, Case, Plan};
use symx::world::{Cex, Consts, Native, Sym, World};

#[derive(Clone)]
enum Job {
    /// Generated code: template, whether the aliases are the subject.
    Gen { name: String, binds: bool },
    Src(src::Src),
    Lex(lex::Lex),
}

impl Case for Job {
    fn sym(&self) {
        match self {
            Self::Gen { name, binds } => {
                let t = gen::template(name);
                if gen::conflicts(&t.meaning()) == 0 {
                    gen::body::<Sym>(&t, *binds);
                } else {
                    Sym::reached("programs left out because of LR(1) conflicts");
                }
            }
            Self::Src(s) => src::body::<Sym>(s),
            Self::Lex(l) => lex::symbolic(l),
        }
    }
    fn native(&self) {
        match self {
            Self::Gen { name, binds } => gen::body::<Consts>(&gen::template(name), *binds),
            Self::Src(s) => src::body::<Native>(s),
            Self::Lex(l) => lex::native(l),
        }
    }
    fn dump(&self) -> String {
        match self {
            Self::Gen { name, binds } => format!("kind gen\nname {name}\nbinds {binds}\n"),
            Self::Src(s) => format!("kind src\nprop {}\ntext {}\nn {}\n", s.prop, s.text, s.n),
            Self::Lex(l) => format!("kind lex\ntext {}\n", l.dump()),
        }
    }
    fn load(f: &BTreeMap<String, String>) -> Self {
        match f["kind"].as_str() {
            "gen" => Self::Gen { name: f["name"].clone(), binds: f["binds"] == "true" },
            "src" => Self::Src(src::Src { prop: f["prop"].clone(), text: f["text"].clone(), n: f["n"].parse().unwrap() }),
            "lex" => Self::Lex(lex::Lex::load(&f["text"])),
            k => panic!("kind {k}"),
        }
    }
    fn title(&self) -> String {
        match self {
            Self::Gen { name, .. } => name.clone(),
            Self::Src(s) => format!("source {} {}", s.text, s.n),
            Self::Lex(l) => format!("text {}", l.title()),
        }
    }
    fn explain(&self, cex: &Cex) -> String {
        match self {
            Self::Gen { name, .. } => {
                let t = gen::template(name);
                let toks: Vec<_> = cex.vals.iter().map(|v| wobs::syms::name(*v)).collect();
                format!("{}\nthe code generated for this source\n{}\non the input {toks:?}", cex.msg, t.src)
            }
            Self::Src(_) => cex.msg.clone(),
            Self::Lex(l) => {
                let mut v = cex.vals.iter();
                let b: Vec<u8> = l.text.iter().map(|b| b.unwrap_or_else(|| v.next().map_or(b'?', |v| *v as u8))).collect();
                format!("{}\ntext {:?}", cex.msg, String::from_utf8_lossy(&b))
            }
        }
    }
}

fn plan(prop: &str, thorough: bool) -> Plan<Job> {
    let mut jobs = vec![];
    if matches!(prop, "C20" | "C21" | "C22" | "C23") {
        for (text, n) in families::sources(prop, thorough) {
            jobs.push(Job::Src(src::Src { prop: prop.into(), text, n }));
        }
    }
    if matches!(prop, "C21" | "C22") {
        for t in wobs::templates::templates() {
            jobs.push(Job::Gen { name: t.name, binds: prop == "C22" });
        }
    }
    if prop == "C19" {
        jobs.extend(families::texts(thorough).iter().map(|t| Job::Lex(lex::Lex::of(t))));
    }
    Plan {
        prop: prop.into(),
        jobs,
        families: families::bounds(prop, thorough),
        functions: families::functions(prop),
        assumptions: families::assumptions(prop),
    }
}

fn main() {
    if std::env::var("WOPX_CONFLICTS").is_ok() {
        for t in wobs::templates::templates() {
            let n = gen::conflicts(&t.meaning());
            if n > 0 { println!("{} {n} {}", t.name, t.src); }
        }
        return;
    }
    if std::env::args().nth(1).as_deref() == Some("work") {
        // the builder prints remarks
        use std::os::fd::AsRawFd;
        if let Ok(f) = std::fs::OpenOptions::new().write(true).open("/dev/null") {
            if std::env::var("WOPX_STDERR").is_err() {
                unsafe { dup2(f.as_raw_fd(), 2) };
            }
        }
    }
    driver::main::<Job>(plan)
}

extern "C" {
    fn dup2(a: i32, b: i32) -> i32;
}
