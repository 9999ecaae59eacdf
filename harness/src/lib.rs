//! One entry per question; an entry takes up to four concrete numbers, and
//! everything else is symbolic.
#[macro_use]
pub mod types;
pub mod spec;
pub mod sym;

pub mod cmp;
pub mod comp;
pub mod lists;
pub mod misc;
pub mod parse;
pub mod whole;

pub type Entry = extern "C" fn(usize, usize, usize, usize);

macro_rules! table {
    ($($m:ident :: $f:ident),* $(,)?) => {
        pub static TABLE: &[(&str, Entry)] = &[$((stringify!($f), $m::$f as Entry)),*];
    };
}
table! {
    parse::p01_tag,
    parse::p01_utf8,
    parse::p02_type,
    parse::p02_utf8,
    parse::p03_bytes,
    parse::p03_text,
    comp::p04_comp,
    comp::p04_own,
    comp::p05_tag,
    comp::p05_private,
    comp::p05_typed,
    comp::p06_language,
    comp::p06_extension,
    comp::p10_kind,
    comp::p11_parse,
    comp::p11_each,
    comp::p18_valid,
    comp::p18_comp,
    comp::p18_list,
    lists::p07_variants,
    lists::p07_mixed,
    lists::p08_iter,
    lists::p08_extension,
    lists::p08_get,
    lists::p09_iter,
    lists::p09_empty,
    lists::p09_sizes,
    lists::p07_rest,
    lists::p09_rest,
    cmp::p12_eq,
    cmp::p12_hash,
    cmp::p12_hash_long,
    cmp::p12_long,
    cmp::p12_cut,
    cmp::p12_parts,
    cmp::p13_cut,
    cmp::p13_cmp,
    cmp::p13_long,
    cmp::p14_mixed,
    cmp::p14_long,
    misc::p15_owned,
    misc::p15_cmp,
    misc::p15_long,
    misc::p15_hash,
    misc::p17_byte,
    misc::p17_char,
    misc::p17_text,
    misc::p17_same,
    misc::p19_print,
    misc::p19_other,
    whole::p20_make,
    whole::p20_parts,
    whole::p20_list,
    whole::p21_ask,
    whole::p21_refuse,
    whole::p21_single,
    whole::p21_walk,
    misc::p16_ser,
    misc::p16_de,
}
