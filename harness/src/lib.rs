//! Harnesses: each exported function states one property over symbolic inputs.

/// Defines exported harness functions and, natively, a table of them.
#[macro_export]
macro_rules! harnesses {
    ($($name:ident => $f:expr;)*) => {
        $(
            #[no_mangle]
            pub extern "C" fn $name() { $f }
        )*
        #[cfg(feature = "native")]
        pub fn table() -> Vec<(&'static str, $crate::H)> {
            vec![$((stringify!($name), $name as $crate::H)),*]
        }
    };
}

pub mod rt;
pub mod util;
pub mod lcs;
pub mod seqs;
pub mod edit;
pub mod apply;
pub mod diff;
pub mod unified;
pub mod cli;

pub type H = extern "C" fn();

#[cfg(feature = "native")]
pub fn table() -> Vec<(&'static str, H)> {
    let mut v: Vec<(&'static str, H)> = vec![];
    v.extend(lcs::table());
    v.extend(seqs::table());
    v.extend(edit::table());
    v.extend(apply::table());
    v.extend(diff::table());
    v.extend(unified::table());
    v.extend(cli::table());
    v
}
