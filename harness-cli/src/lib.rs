//! Proof harnesses for the command-line layer (the crate built with its default features).
#![allow(clippy::missing_safety_doc)]
#[path = "../../harness/src/rt.rs"]
#[allow(dead_code)]
pub mod rt;
#[path = "../../harness/src/gen.rs"]
#[allow(dead_code)]
pub mod gen_;
#[path = "../../harness/src/ext.rs"]
#[allow(dead_code)]
pub mod ext;
#[path = "../../harness/src/exprs.rs"]
#[allow(dead_code)]
pub mod exprs;
#[path = "../../harness/src/rels.rs"]
#[allow(dead_code)]
pub mod rels;
pub mod cli;
pub mod files;
pub mod line;

pub struct Entry {
    pub prop: &'static str,
    pub name: &'static str,
    pub f: extern "C" fn(u32),
    /// (quick, thorough) case indices
    pub cases: fn(bool) -> Vec<u32>,
}
macro_rules! entries {
    ($( $prop:literal $name:ident $m:ident :: $f:ident [ $c:expr ] ;)*) => {
        $(
            #[unsafe(no_mangle)]
            pub extern "C" fn $name(case: u32) {
                $m::$f(case)
            }
        )*
        pub fn table() -> Vec<Entry> {
            vec![$(Entry { prop: $prop, name: stringify!($name), f: $name, cases: $c }),*]
        }
    };
}
entries! {
    "C23" c23_pairs cli::pairs [cli::pairs_cases];
    "C23" c23_keep cli::keep [cli::keep_cases];
    "C23" c23_chain cli::chain [cli::chain_cases];
    "C23" c23_window cli::window [cli::window_cases];
    "C23" c23_to_data cli::to_data [cli::to_data_cases];
    "C23" c23_utf8 cli::utf8 [cli::utf8_cases];
    "C23" c23_bytes cli::bytes [cli::bytes_cases];
    "C23" c23_json_bytes cli::json_bytes [cli::json_bytes_cases];
    "C23" c23_anys cli::anys [cli::anys_cases];
    "C23" c23_issues cli::issues [cli::issues_cases];
    "C23" c23_readers cli::readers [cli::readers_cases];
    "C23" c23_writers cli::writers [cli::writers_cases];
    "C24" c24_names line::names [line::names_cases];
    "C24" c24_endings line::endings [line::endings_cases];
    "C24" c24_args line::args [line::args_cases];
    "C24" c24_resolve line::resolve [line::resolve_cases];
    "C24" c24_files line::files [line::files_cases];
}
