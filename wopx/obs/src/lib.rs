//! What the checks of `wop` share: the reference reading of a wop source, the templates whose
//! generated code is executed, and the observations that code makes.
pub mod obs;
pub mod refer;
pub mod syms;
pub mod templates;
