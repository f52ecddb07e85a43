//! `symx check <property> <tier> <evidence file> <out dir>`, `symx replay <file>`: see `driver`.
use std::collections::BTreeMap;
use symx::driver::{self, Case};
use symx::families::plan;
use symx::gram::{Template, LAYOUTS};
use symx::props::{body, Job};
use symx::world::{Cex, Native, Sym};

#[derive(Clone)]
struct Lr(Job);

impl Case for Lr {
    fn sym(&self) {
        body::<Sym>(&self.0);
    }
    fn native(&self) {
        body::<Native>(&self.0);
    }
    fn dump(&self) -> String {
        let j = &self.0;
        let text = j.text.as_ref().map_or(String::new(), |t| format!("text {t}\n"));
        format!("prop {}\ntmpl {}\nlayout {}\nn {}\n{text}", j.prop, j.tmpl.text, j.layout, j.n)
    }
    fn load(f: &BTreeMap<String, String>) -> Self {
        Self(Job {
            prop: f["prop"].clone(),
            tmpl: Template::parse(&f["tmpl"]),
            layout: f["layout"].parse().unwrap(),
            cube: vec![],
            n: f["n"].parse().unwrap(),
            text: f.get("text").cloned(),
        })
    }
    fn title(&self) -> String {
        let j = &self.0;
        let text = j.text.as_ref().map_or(String::new(), |t| format!(" {t}"));
        format!("{} {}{text}", j.tmpl.text, j.layout)
    }
    fn explain(&self, cex: &Cex) -> String {
        let job = &self.0;
        let holes = job.tmpl.holes.min(cex.vals.len());
        let l = &LAYOUTS[job.layout];
        format!(
            "grammar shape {} with symbols {:?} ({} order), tokens {:?}: {}\nsymbols: start {}, rules {:?}, end marker {}, terminal c of the shape is {} and up",
            job.tmpl.text,
            &cex.vals[..holes],
            l.name,
            &cex.vals[holes..],
            cex.msg,
            l.start,
            (0..job.tmpl.rules.len() - 1).map(|i| l.nt(i)).collect::<Vec<_>>(),
            l.eof,
            l.gap.0 + 200
        )
    }
}

fn main() {
    driver::main::<Lr>(|prop, thorough| {
        let p = plan(prop, thorough);
        driver::Plan {
            functions: symx::families::functions(&p.prop),
            assumptions: symx::families::assumptions(&p.prop),
            prop: p.prop,
            jobs: p.jobs.into_iter().map(Lr).collect(),
            families: p.families,
        }
    })
}
