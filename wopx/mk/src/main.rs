//! `mk <dir> <file of lines "module error text"> [probe]`: runs the real builder on every template and
//! writes the code it generates, one module each, into `dir`/gen/src; and the code it generates for
//! the notation's own grammar into `dir`/itself/src; `probe` takes one template in twenty only. `mk one <n>`: prints one module.
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Read;
use std::path::Path;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use wobs::templates::{templates, Template};

fn module(t: &Template) -> String {
    let mut b: wop::builder::Builder = t.src.parse().unwrap_or_else(|e| panic!("rejected: {e:?}"));
    b.entry_type = "Tok".into();
    format!(
        "#![allow(warnings)]\npub fn grammar() -> lrp::RuleMap<symx::engine::Sx> {}\n\
         pub fn reductors() -> lrp::ReductMap<lrp::Meta<crate::obs::V>, symx::engine::Sx> {}\n",
        b.dump_grammar(&t.src),
        b.dump_reductor(&t.src)
    )
}

/// The parser of the notation, made from its own description.
fn itself() -> String {
    let src = std::fs::read_to_string("/repo/wop/src/wop.grammar").expect("wop.grammar");
    let mut b: wop::builder::Builder = src.parse().unwrap_or_else(|e| panic!("rejected: {e:?}"));
    b.entry_type = "Gramem".into();
    format!(
        "pub fn grammar() -> lrp::RuleMap<Sym> {}\npub fn reductors() -> lrp::ReductMap<Meta<Ast>, Sym> {}\n",
        b.dump_grammar(&src),
        b.dump_reductor(&src)
    )
}

/// The module of template `n`, made in a process of its own, or why there is none.
fn made(n: &str) -> Result<String, String> {
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args(["one", n])
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let mut out = c.stdout.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = out.read_to_string(&mut s);
        s
    });
    let t0 = Instant::now();
    let status = loop {
        if let Some(s) = c.try_wait().unwrap() {
            break Some(s);
        }
        if t0.elapsed() > Duration::from_secs(20) {
            let _ = c.kill();
            let _ = c.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(2));
    };
    let s = reader.join().unwrap();
    match status {
        None => Err("the builder does not end (20 s)".into()),
        Some(st) if st.success() => Ok(s),
        Some(st) if st.code() == Some(101) => Err(format!("the builder failed: {s}")),
        Some(st) => Err(format!("the builder crashed: {st}")),
    }
}

fn put(path: &Path, text: &str) {
    if std::fs::read_to_string(path).ok().as_deref() != Some(text) {
        std::fs::write(path, text).expect("write");
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let ts = templates();
    if a[1] == "one" {
        std::panic::set_hook(Box::new(|i| {
            let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| (*s).to_string()));
            println!("{}", m.unwrap_or_default());
        }));
        let m = if a[2] == "itself" { itself() } else { module(&ts[a[2].parse::<usize>().unwrap()]) };
        print!("{m}");
        return;
    }
    let root = Path::new(&a[1]);
    let dir = &root.join("gen/src");
    let mut bad: BTreeMap<String, String> = BTreeMap::new();
    if let Some(f) = a.get(2) {
        for l in std::fs::read_to_string(f).unwrap_or_default().lines() {
            let (m, e) = l.split_once(' ').unwrap_or((l, ""));
            bad.entry(m.to_string()).or_insert_with(|| e.to_string());
        }
    }
    let probe = a.get(3).map(String::as_str) == Some("probe");
    let tried = |i: usize| !probe || i % 20 == 0;
    std::fs::create_dir_all(dir).expect("dir");
    let next = std::sync::atomic::AtomicUsize::new(0);
    let results: Vec<std::sync::Mutex<Option<Result<String, String>>>> =
        ts.iter().map(|_| std::sync::Mutex::new(None)).collect();
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= ts.len() {
                    break;
                }
                let m = if tried(i) { made(&i.to_string()) } else { Err("not tried".into()) };
                *results[i].lock().unwrap() = Some(m);
            });
        }
    });
    let mut lib = String::from(
        "//! Written by mk: the code the builder generates for each template.\n\
         pub use wobs::{obs, syms};\n\
         pub struct Gen {\n    pub name: &'static str,\n    pub made: Result<(fn() -> lrp::RuleMap<symx::engine::Sx>, fn() -> lrp::ReductMap<lrp::Meta<obs::V>, symx::engine::Sx>), &'static str>,\n}\n",
    );
    let mut table = String::from("pub static ALL: &[Gen] = &[\n");
    for (i, (t, r)) in ts.iter().zip(results).enumerate() {
        let m = format!("t{i}");
        let file = dir.join(format!("{m}.rs"));
        let r = r.into_inner().unwrap().unwrap();
        let r = match bad.get(&m) {
            Some(e) => Err(format!("the generated code does not compile: {e}")),
            None => r,
        };
        match r {
            Ok(text) => {
                put(&file, &text);
                let _ = writeln!(lib, "mod {m};");
                let _ = writeln!(table, "    Gen {{ name: {:?}, made: Ok(({m}::grammar, {m}::reductors)) }},", t.name);
            }
            Err(e) => {
                if !probe {
                    let _ = std::fs::remove_file(&file);
                }
                let _ = writeln!(table, "    Gen {{ name: {:?}, made: Err({e:?}) }},", t.name);
            }
        }
    }
    lib.push_str(&table);
    lib.push_str("];\n");
    put(&dir.join("lib.rs"), &lib);
    let r = match bad.get("itself") {
        Some(e) => Err(format!("the generated code does not compile: {e}")),
        None => made("itself"),
    };
    let (code, value) = match r {
        Ok(text) => (text, "Ok((grammar(), reductors()))".to_string()),
        Err(e) => (String::new(), format!("Err({e:?})")),
    };
    let dir = root.join("itself/src");
    std::fs::create_dir_all(&dir).expect("dir");
    put(
        &dir.join("lib.rs"),
        &format!(
            "#![allow(warnings)]\n//! Written by mk: the code the builder generates for the notation itself.\n\
             pub use lrp::{{Meta, Span}};\npub use wop::{{Ast, Gramem, Sym}};\n\
             pub type Made = Result<(lrp::RuleMap<Sym>, lrp::ReductMap<Meta<Ast>, Sym>), &'static str>;\n\
             pub fn made() -> Made {{\n    {value}\n}}\n{code}"
        ),
    );
}
