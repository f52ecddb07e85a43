//! Minimal FFI to libz3 (the only solver interface of this crate).
#![allow(non_camel_case_types, dead_code)]
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint};

macro_rules! opaque { ($($n:ident),*) => { $(#[repr(C)] pub struct $n { _p: [u8; 0] })* } }
opaque!(_cfg, _ctx, _solver, _ast, _sort, _sym, _model);
type Cfg = *mut _cfg;
type Ctx = *mut _ctx;
type Slv = *mut _solver;
pub type Ast = *mut _ast;
type Sort = *mut _sort;
type Sym = *mut _sym;
type Model = *mut _model;

#[link(name = "z3")]
extern "C" {
    fn Z3_get_error_msg(c: Ctx, code: c_int) -> *const c_char;
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    fn Z3_mk_config() -> Cfg;
    fn Z3_del_config(c: Cfg);
    fn Z3_mk_context(c: Cfg) -> Ctx;
    fn Z3_del_context(c: Ctx);
    fn Z3_mk_simple_solver(c: Ctx) -> Slv;
    fn Z3_solver_inc_ref(c: Ctx, s: Slv);
    fn Z3_solver_dec_ref(c: Ctx, s: Slv);
    fn Z3_solver_push(c: Ctx, s: Slv);
    fn Z3_solver_pop(c: Ctx, s: Slv, n: c_uint);
    fn Z3_solver_assert(c: Ctx, s: Slv, a: Ast);
    fn Z3_solver_check_assumptions(c: Ctx, s: Slv, n: c_uint, a: *const Ast) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Slv) -> Model;
    fn Z3_model_inc_ref(c: Ctx, m: Model);
    fn Z3_model_dec_ref(c: Ctx, m: Model);
    fn Z3_model_eval(c: Ctx, m: Model, a: Ast, completion: bool, out: *mut Ast) -> bool;
    fn Z3_get_numeral_int64(c: Ctx, a: Ast, out: *mut i64) -> bool;
    fn Z3_get_bool_value(c: Ctx, a: Ast) -> c_int;
    fn Z3_mk_int_sort(c: Ctx) -> Sort;
    fn Z3_mk_bool_sort(c: Ctx) -> Sort;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Sym;
    fn Z3_mk_const(c: Ctx, s: Sym, t: Sort) -> Ast;
    fn Z3_mk_int64(c: Ctx, v: i64, t: Sort) -> Ast;
    fn Z3_mk_lt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_ast_to_string(c: Ctx, a: Ast) -> *const c_char;
    fn Z3_get_error_code(c: Ctx) -> c_int;
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

extern "C" fn on_error(cx: Ctx, code: c_int) {
    let m = unsafe { std::ffi::CStr::from_ptr(Z3_get_error_msg(cx, code)) };
    println!("z3 error {code}: {}", m.to_string_lossy());
    std::process::exit(3);
}

pub struct Z3 {
    cx: Ctx,
    slv: Slv,
    int: Sort,
    boo: Sort,
    pub queries: u64,
    pub nanos: u64,
    t: Ast,
    f: Ast,
}

impl Z3 {
    pub fn new(seed: u64) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            static SEED: std::sync::Once = std::sync::Once::new();
            SEED.call_once(|| {
                let (k, v) = (CString::new("smt.random_seed").unwrap(), CString::new((seed % 1000).to_string()).unwrap());
                Z3_global_param_set(k.as_ptr(), v.as_ptr());
            });
            let cx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(cx, Some(on_error));
            let slv = Z3_mk_simple_solver(cx);
            Z3_solver_inc_ref(cx, slv);
            Self {
                cx,
                slv,
                int: Z3_mk_int_sort(cx),
                boo: Z3_mk_bool_sort(cx),
                queries: 0,
                nanos: 0,
                t: Z3_mk_true(cx),
                f: Z3_mk_false(cx),
            }
        }
    }
    pub fn push(&mut self) {
        unsafe { Z3_solver_push(self.cx, self.slv) }
    }
    pub fn pop(&mut self, n: u32) {
        if n > 0 {
            unsafe { Z3_solver_pop(self.cx, self.slv, n) }
        }
    }
    pub fn assert(&mut self, a: Ast) {
        unsafe { Z3_solver_assert(self.cx, self.slv, a) }
    }
    /// Is (asserted formulas and `asm`) satisfiable? On `Sat`, `vars` receives a model.
    pub fn check(&mut self, asm: Option<Ast>, want: &[Ast], vals: Option<&mut Vec<i64>>) -> Res {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        let r = unsafe {
            // a scope instead of an assumption literal: formulas need not be literals
            if let Some(a) = asm {
                Z3_solver_push(self.cx, self.slv);
                Z3_solver_assert(self.cx, self.slv, a);
            }
            let r = Z3_solver_check_assumptions(self.cx, self.slv, 0, std::ptr::null());
            let r = match r {
                1 => Res::Sat,
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            if let (Res::Sat, Some(vals)) = (r, vals) {
                let m = Z3_solver_get_model(self.cx, self.slv);
                Z3_model_inc_ref(self.cx, m);
                vals.clear();
                for w in want {
                    let mut out: Ast = std::ptr::null_mut();
                    let ok = Z3_model_eval(self.cx, m, *w, true, &mut out);
                    assert!(ok);
                    let mut v = 0i64;
                    if !Z3_get_numeral_int64(self.cx, out, &mut v) {
                        v = i64::from(Z3_get_bool_value(self.cx, out) == 1);
                    }
                    vals.push(v);
                }
                Z3_model_dec_ref(self.cx, m);
            }
            if asm.is_some() {
                Z3_solver_pop(self.cx, self.slv, 1);
            }
            r
        };
        self.nanos += t0.elapsed().as_nanos() as u64;
        r
    }
    pub fn var(&self, name: &str) -> Ast {
        let n = CString::new(name).unwrap();
        unsafe { Z3_mk_const(self.cx, Z3_mk_string_symbol(self.cx, n.as_ptr()), self.int) }
    }
    pub fn bool_var(&self, name: &str) -> Ast {
        let n = CString::new(name).unwrap();
        unsafe { Z3_mk_const(self.cx, Z3_mk_string_symbol(self.cx, n.as_ptr()), self.boo) }
    }
    pub fn num(&self, v: i64) -> Ast {
        unsafe { Z3_mk_int64(self.cx, v, self.int) }
    }
    pub fn lt(&self, a: Ast, b: Ast) -> Ast {
        unsafe { Z3_mk_lt(self.cx, a, b) }
    }
    pub fn eq(&self, a: Ast, b: Ast) -> Ast {
        unsafe { Z3_mk_eq(self.cx, a, b) }
    }
    pub fn t(&self) -> Ast {
        self.t
    }
    pub fn f(&self) -> Ast {
        self.f
    }
    pub fn not(&self, a: Ast) -> Ast {
        if a == self.t {
            self.f
        } else if a == self.f {
            self.t
        } else {
            unsafe { Z3_mk_not(self.cx, a) }
        }
    }
    pub fn and(&self, v: &[Ast]) -> Ast {
        if v.contains(&self.f) {
            return self.f;
        }
        let v: Vec<Ast> = v.iter().copied().filter(|x| *x != self.t).collect();
        match v.len() {
            0 => self.t,
            1 => v[0],
            n => unsafe { Z3_mk_and(self.cx, n as c_uint, v.as_ptr()) },
        }
    }
    pub fn or(&self, v: &[Ast]) -> Ast {
        if v.contains(&self.t) {
            return self.t;
        }
        let v: Vec<Ast> = v.iter().copied().filter(|x| *x != self.f).collect();
        match v.len() {
            0 => self.f,
            1 => v[0],
            n => unsafe { Z3_mk_or(self.cx, n as c_uint, v.as_ptr()) },
        }
    }
    pub fn xor(&self, a: Ast, b: Ast) -> Ast {
        if a == self.f {
            return b;
        }
        if b == self.f {
            return a;
        }
        unsafe { Z3_mk_xor(self.cx, a, b) }
    }
    pub fn show(&self, a: Ast) -> String {
        unsafe {
            std::ffi::CStr::from_ptr(Z3_ast_to_string(self.cx, a))
                .to_string_lossy()
                .into_owned()
        }
    }
}

impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.cx, self.slv);
            Z3_del_context(self.cx);
        }
    }
}
