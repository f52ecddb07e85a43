#![allow(non_upper_case_globals)]
//! The symbols the templates use.
use symx::engine::Sx;

macro_rules! syms {
    ($($n:ident = $v:expr),* ; $($mn:ident = $mv:expr),*) => {
        $(pub const $n: Sx = Sx::c($v);)*
        pub mod m {
            use super::Sx;
            $(pub const $mn: Sx = Sx::c($mv);)*
        }
        const TABLE: &[(&str, i64)] = &[$((stringify!($n), $v),)* $((concat!("m::", stringify!($mn)), $mv)),*];
    };
}

syms! {
    A = 1, B = 2, C = 3, D = 4, E = 5, F = 6, G = 7, H = 8, I = 9, J = 10, K = 11, L = 12,
    Plus = 13, Open = 14, Close = 15, Y = 16, Z = 17,
    S = 60, R = 61, Q = 62, U = 63, EOF = 99;
    A = 21, B = 22, R = 64
}

/// Input tokens lie strictly between these; every terminal does.
pub const TOKENS: (i64, i64) = (0, 60);

/// The value of a symbol by the name it has in a source.
#[must_use]
pub fn value(name: &str) -> Option<i64> {
    let name = name.strip_prefix("crate::syms::").or_else(|| name.strip_prefix("self::")).unwrap_or(name);
    TABLE.iter().find(|x| x.0 == name).map(|x| x.1)
}

/// A readable name of a value.
#[must_use]
pub fn name(v: i64) -> String {
    TABLE.iter().find(|x| x.1 == v).map_or_else(|| format!("(symbol {v})"), |x| x.0.to_string())
}
