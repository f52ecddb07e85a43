pub mod driver;
pub mod engine;
pub mod families;
pub mod gram;
pub mod lang;
pub mod props;
pub mod run;
pub mod world;
pub mod z3;
