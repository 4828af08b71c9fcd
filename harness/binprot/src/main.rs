mod layout;
mod big;
mod io;
mod ints;
mod loose;
mod poly;
mod props;
mod refm;
mod seq;
mod types;
mod wide;
use big::Big;
use ints::*;
use io::*;
use loose::{h_custom_bigint, h_custom_unknown, h_custom_vector, h_hybrid, h_index_name, h_index_num, h_index_other, h_loose_bomb, h_nat0_rule, h_unsupported, h_versus_0, h_versus_1, h_versus_2, h_versus_3, h_versus_4, h_versus_6, h_versus_7, h_versus_8, h_versus_12, h_versus_14};
use poly::*;
use seq::*;
use props::*;
use refm::*;
use types::*;
use wide::*;

/// one harness per property and type
macro_rules! typed {
    ($($n:ident : $t:ty, $len:expr;)*) => { $(
        mod $n {
            #[allow(unused_imports)]
            use super::*;
            pub fn wire() { super::wire::<$t>() }
            pub fn round() { super::round::<$t>() }
            pub fn accept() { super::accept::<$t>($len) }
            pub fn strict() { super::strict::<$t>($len) }
            pub fn prefix() { super::prefix::<$t>() }
            pub fn total() { super::total::<$t>($len) }
            pub fn drip() { super::drip::<$t>() }
            pub fn emit() { super::drop_by_drop::<$t>() }
        } )*
        fn typed(n: &str) -> bool {
            $( if let Some(p) = n.strip_prefix(concat!(stringify!($n), ".")) {
                match p {
                    "wire" => $n::wire(), "round" => $n::round(), "accept" => $n::accept(),
                    "strict" => $n::strict(), "prefix" => $n::prefix(), "total" => $n::total(),
                    "drip" => $n::drip(), "emit" => $n::emit(),
                    _ => return false,
                }
                return true;
            } )*
            false
        }
    }
}
typed! {
    i8_: i8, 4; i16_: i16, 5; i32_: i32, 7; i64_: i64, 10; u8_: u8, 3; u16_: u16, 5; u32_: u32, 7; u64_: u64, 10;
    bool_: bool, 3; unit_: (), 3; char_: char, 3; f32_: F32, 6; f64_: F64, 10; string_: String, 5;
    opt_: Option<Option<i16>>, 6; vec_: Vec<u8>, 6; vecopt_: Vec<Option<bool>>, 6; vecint_: Vec<i16>, 5;
    vecvec_: Vec<Vec<bool>>, 5; optvec_: Option<Vec<u8>>, 6; arr_: [Option<u8>; 3], 7; arrb_: [u8; 4], 6;
    tuple_: (u8, bool, Option<()>, i8), 7; vectup_: Vec<(u8, bool)>, 6; twostr_: (String, Option<Box<String>>), 5;
    e3_: E3, 3; rec_: Rec, 9; tup_: Tup, 7; new_: New, 10; ustruct_: Unit, 3; v_: V, 7; p_: P, 8; vecp_: Vec<P>, 11;
    outer_: Outer, 9; empty_: Empty, 2; text_: Text, 7; big_: Big, 3; vecunit_: Vec<()>, 5; optbox_: Option<Box<Rec>>, 8;
    optstr_: Option<String>, 5;
    w_: W, 7; wrec_: WR, 13; wtup_: WT, 11; one_: One, 5; q_: Q, 9; r_: R, 7; tup1_: (i16,), 5; tup8_: (u8, bool, u8, u8, u8, u8, (), u8), 10;
    arr1_: [i16; 1], 5; arr9_: [u8; 9], 11; arrarr_: [[u8; 2]; 3], 8; opt4_: Option<Option<Option<Option<bool>>>>, 6; vecbig_: Vec<(E3, u8)>, 6;
    nest_: Vec<Option<Vec<u8>>>, 5; vecrec_: Vec<One>, 5;
}

/// `<property>.<layout number>`
fn layouts(n: &str) -> bool {
    let (p, k) = match n.split_once('.') {
        Some(x) => x,
        None => return false,
    };
    let k = match k.as_bytes() {
        [a] => *a - b'0',
        [a, b] => (*a - b'0') * 10 + (*b - b'0'),
        _ => return false,
    };
    match p {
        "agree" => loose::agree(k),
        "rewrite" => loose::rewrite(k),
        "total" => loose::total(k),
        _ => return false,
    }
    true
}
fn run(n: &str) -> bool {
    typed(n) || layouts(n) || layout::run(n) || sym::dispatch!(n, h_int_write, h_int_read, h_nat_write, h_list_len, h_nat_read, h_with_nat_write, h_list_len, h_with_int_write, h_with_nat_read, h_with_int_read, h_prim_ext, h_char_any, h_vec_small, h_vec_large, h_str_small, h_str_large, h_unit_small, h_unit_large, h_straddle, h_strict_boundary, h_bomb_string, h_bomb_bytes, h_bomb_vec, h_read_bytes, h_map_total, h_read_i64, h_read_rec, h_read_string, h_read_vec, h_read_poly, h_read_float, h_strict_rec, h_strict_vec, h_strict_string, h_strict_i64, h_fail_rec, h_fail_string, h_fail_vec, h_fail_float, h_sfail_rec, h_sfail_string, h_sfail_vec, h_sfail_float, h_write_i64, h_write_f32, h_write_f64, h_write_rec, h_write_string, h_write_vec, h_write_poly, h_write_v, h_wfail_rec, h_wfail_poly, h_wfail_f64, h_wfail_text, h_wfail_v, h_hash_short, h_hash_long, h_hash_long_wire, h_mixed_names, h_unknown_tag, h_tag_bits, h_custom_vector, h_custom_bigint, h_custom_unknown, h_versus_0, h_versus_1, h_versus_2, h_versus_3, h_versus_4, h_versus_6, h_versus_7, h_versus_8, h_versus_12, h_versus_14, h_hybrid, h_nat0_rule, h_unsupported, h_loose_bomb, h_index_num, h_index_name, h_index_other)
}
sym::entry!(run);
