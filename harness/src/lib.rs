//! Proof harnesses: each entry runs real substrait-explain code on symbolic inputs.
#![allow(clippy::missing_safety_doc)]
pub mod rt;
#[path = "gen.rs"]
pub mod gen_;
pub mod aggr;
pub mod args;
pub mod c01;
pub mod canon;
pub mod damage;
pub mod exprs;
pub mod decl;
pub mod doc;
pub mod ext;
pub mod ints;
pub mod loc;
pub mod opts;
pub mod reg;
pub mod rels;
pub mod strings;
pub mod table;
pub mod temporal;
pub mod types;
pub mod wire;

pub struct Entry {
    pub prop: &'static str,
    pub name: &'static str,
    pub f: extern "C" fn(u32),
    /// (quick, thorough) case indices
    pub cases: fn(bool) -> Vec<u32>,
}
macro_rules! entries {
    ($( $prop:literal $name:ident $m:ident :: $f:ident [ $c:expr ] ;)*) => {
        $(
            #[unsafe(no_mangle)]
            pub extern "C" fn $name(case: u32) {
                $m::$f(case)
            }
        )*
        pub fn table() -> Vec<Entry> {
            vec![$(Entry { prop: $prop, name: stringify!($name), f: $name, cases: $c }),*]
        }
    };
}
entries! {
    "C01" c01_window c01::window [c01::window_cases];
    "C01" c01_insert c01::insert [c01::insert_cases];
    "C01" c01_lines c01::lines [c01::lines_cases];
    "C02" c02_expressions damage::exprs [damage::exprs_cases];
    "C02" c02_types damage::types_ [damage::types_cases];
    "C02" c02_relations damage::rels [damage::rels_cases];
    "C02" c02_roots damage::roots [damage::roots_cases];
    "C02" c02_numbers damage::numbers [damage::numbers_cases];
    "C02" c02_fields damage::fields [damage::fields_cases];
    "C03" c03_simple types::simple_ [types::simple_cases];
    "C03" c03_precision types::prec [types::prec_cases];
    "C03" c03_precision_text types::prec_text [types::prec_text_cases];
    "C03" c03_nested types::nested [types::nested_cases];
    "C03" c03_user types::user_ [types::user_cases];
    "C03" c03_name types::name [types::name_cases];
    "C03" c03_case types::letter_case [types::case_cases];
    "C03" c03_large types::large [types::large_cases];
    "C04" c04_literal ints::literal [ints::lit_cases];
    "C04" c04_constants ints::constants [ints::bool_cases];
    "C04" c04_text ints::text [ints::text_cases];
    "C04" c04_limits ints::limits [ints::fetch_cases];
    "C05" c05_ascii strings::ascii [strings::ascii_cases];
    "C05" c05_unicode strings::unicode [strings::unicode_cases];
    "C05" c05_text strings::text [strings::text_cases];
    "C05" c05_escapes strings::escapes [strings::escape_cases];
    "C05" c05_long strings::long [strings::long_cases];
    "C05" c05_bare strings::bare [strings::bare_cases];
    "C06" c06_date temporal::date [temporal::date_cases];
    "C06" c06_time temporal::time [temporal::time_cases];
    "C06" c06_stamp temporal::stamp [temporal::stamp_cases];
    "C06" c06_written temporal::written [temporal::written_cases];
    "C07" c07_value temporal::iv_value [temporal::iv_cases];
    "C07" c07_text temporal::iv_text [temporal::iv_text_cases];
    "C07" c07_precision temporal::iv_prec [temporal::iv_prec_cases];
    "C08" c08_shallow exprs::shallow [exprs::shallow_cases];
    "C08" c08_deep exprs::deep [exprs::deep_cases];
    "C08" c08_references exprs::references [exprs::refs_cases];
    "C08" c08_literals exprs::literals [exprs::literal_cases];
    "C08" c08_scale exprs::scale [exprs::scale_cases];
    "C08" c08_spaces exprs::spaces [exprs::space_cases];
    "C09" c09_single rels::single [rels::single_cases];
    "C09" c09_pair rels::pair [rels::pair_cases];
    "C09" c09_joins rels::joins [rels::join_cases];
    "C09" c09_sets rels::sets [rels::set_cases];
    "C09" c09_sorts rels::sorts [rels::sort_cases];
    "C09" c09_fetches rels::fetches [rels::fetch_cases];
    "C09" c09_virtual rels::virts [rels::virt_cases];
    "C09" c09_projects rels::projects [rels::project_cases];
    "C09" c09_reads rels::reads [rels::read_cases];
    "C09" c09_reads_direct rels::reads_direct [rels::direct_cases];
    "C09" c09_wide rels::wide [rels::wide_cases];
    "C09" c09_large rels::large [rels::large_cases];
    "C09" c09_roots rels::roots [rels::roots_cases];
    "C09" c09_values rels::values [rels::value_cases];
    "C10" c10_insert table::insert [table::insert_cases];
    "C10" c10_names table::names [table::names_cases];
    "C10" c10_many table::many [table::many_cases];
    "C10" c10_compound table::compound [table::compound_cases];
    "C11" c11_sets aggr::sets [aggr::sets_cases];
    "C11" c11_outputs aggr::outputs [aggr::outputs_cases];
    "C11" c11_foreign aggr::foreign [aggr::foreign_cases];
    "C11" c11_printed aggr::printed [aggr::printed_cases];
    "C11" c11_width aggr::width [aggr::width_cases];
    "C11" c11_large aggr::large [aggr::large_cases];
    "C12" c12_depths doc::depths [doc::depths_cases];
    "C12" c12_large doc::large [doc::large_cases];
    "C12" c12_arity doc::arity [doc::arity_cases];
    "C12" c12_addenda doc::addenda [doc::addenda_cases];
    "C12" c12_odd doc::odd [doc::odd_cases];
    "C13" c13_layout doc::layout [doc::layout_cases];
    "C13" c13_rows doc::rows [doc::rows_cases];
    "C14" c14_version doc::version [doc::version_cases];
    "C14" c14_forms doc::vforms [doc::vforms_cases];
    "C14" c14_sections doc::sections [doc::sections_cases];
    "C14" c14_headers doc::heads [doc::heads_cases];
    "C15" c15_anchors decl::anchors_ [decl::anchors_cases];
    "C15" c15_words decl::words [decl::words_cases];
    "C15" c15_numbers decl::numbers [decl::numbers_cases];
    "C15" c15_forms decl::forms [decl::forms_cases];
    "C16" c16_functions decl::functions [decl::functions_cases];
    "C16" c16_many decl::many [decl::many_cases];
    "C16" c16_written decl::written [decl::written_cases];
    "C16" c16_types decl::types_ [decl::types_cases];
    "C16" c16_type_written decl::twritten [decl::twritten_cases];
    "C22" c22_good loc::good [loc::good_cases];
    "C22" c22_bad loc::bad [loc::bad_cases];
    "C22" c22_remote loc::remote [loc::remote_cases];
    "C22" c22_added loc::added [loc::added_cases];
    "C22" c22_window loc::window [loc::window_cases];
    "C17" c17_byte canon::byte [canon::byte_cases];
    "C17" c17_window canon::window [canon::window_cases];
    "C17" c17_insert canon::insert [canon::insert_cases];
    "C17" c17_lines canon::lines [canon::lines_cases];
    "C18" c18_literals opts::literals [opts::literals_cases];
    "C18" c18_args opts::args [opts::args_cases];
    "C18" c18_names opts::names [opts::names_cases];
    "C18" c18_rows opts::rows [opts::rows_cases];
    "C18" c18_plans opts::plans [opts::plans_cases];
    "C18" c18_hidden opts::hidden [opts::hidden_cases];
    "C18" c18_indent opts::indent [opts::indent_cases];
    "C19" c19_spaces reg::spaces [reg::spaces_cases];
    "C19" c19_names reg::names [reg::names_cases];
    "C19" c19_full reg::full [reg::full_cases];
    "C19" c19_copies reg::copies [reg::copies_cases];
    "C19" c19_payloads reg::any [reg::any_cases];
    "C20" c20_handled args::handled [args::handled_cases];
    "C20" c20_many args::many [args::many_cases];
    "C20" c20_convert args::convert [args::convert_cases];
    "C20" c20_tuple args::tuple [args::tuple_cases];
    "C20" c20_whole args::whole [args::whole_cases];
    "C20" c20_build args::build [args::build_cases];
    "C20" c20_columns args::columns [args::columns_cases];
    "C21" c21_values ext::values [ext::values_cases];
    "C21" c21_tuples ext::tuples [ext::tuples_cases];
    "C21" c21_ints ext::ints [ext::ints_cases];
    "C21" c21_strings ext::strings_ [ext::strings_cases];
    "C21" c21_counts ext::counts [ext::counts_cases];
    "C21" c21_columns ext::out_columns [ext::columns_cases];
    "C21" c21_context ext::context [ext::context_cases];
    "C21" c21_addenda ext::addenda [ext::addenda_cases];
    "C21" c21_order ext::order [ext::order_cases];
    "C21" c21_named_order ext::named_order [ext::named_order_cases];
    "C21" c21_bad ext::bad [ext::bad_cases];
    "C21" c21_unknown ext::unknown [ext::unknown_cases];
    "C21" c21_unregistered ext::unregistered [ext::unreg_cases];
    "C21" c21_names ext::names [ext::names_cases];
}
