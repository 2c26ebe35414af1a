//! Name, Namespace, LocalName, PrefixedName (properties N..).
use super::support::*;
use core::str::FromStr;
use rdftk_iri::error::NameParseError;
use rdftk_iri::{LocalName, Name, Namespace, PrefixedName};

// ------------------------------------------------------------------------------------------------
// N01 / N02: the two grammars, exactly
// ------------------------------------------------------------------------------------------------

fn name_grammar(s: &str, cs: &[u32]) {
    let want = is_pn_local(cs);
    match Name::from_str(s) {
        Ok(n) => {
            assert!(want, "N01: accepted a string outside PN_LOCAL");
            assert!(same(n.as_ref(), s), "N01: the accepted text was altered");
        }
        Err(_) => assert!(!want, "N01: rejected a PN_LOCAL string"),
    }
    assert!(Name::is_valid_str(s) == want, "N01: is_valid_str disagrees with the grammar");
    witness!(want);
    witness!(!want);
}

fn namespace_grammar(s: &str, cs: &[u32]) {
    let want = is_pname_ns(cs);
    match Namespace::from_str(s) {
        Ok(n) => {
            assert!(want, "N02: accepted a string outside PNAME_NS");
            assert!(same(n.as_ref(), s), "N02: the accepted text was altered");
        }
        Err(_) => assert!(!want, "N02: rejected a PNAME_NS string"),
    }
    assert!(Namespace::is_valid_str(s) == want, "N02: is_valid_str disagrees with the grammar");
    witness!(want);
    witness!(!want);
}

fn name_ascii<const N: usize>() {
    let b = ascii_array::<N>();
    name_grammar(text(&b), &widen(&b));
}

fn namespace_ascii<const N: usize>() {
    let b = ascii_array::<N>();
    namespace_grammar(text(&b), &widen(&b));
}

fn name_wide<const N: usize, const LEN: usize>(w: [u8; N]) {
    let (b, cs) = wide_chars::<N, LEN>(w);
    name_grammar(text(&b), &cs);
}

/// Arbitrary scalar values of the given widths, then `:`.
fn namespace_wide<const N: usize, const LEN: usize, const CS: usize>(w: [u8; N]) {
    let (b, cs) = wide_chars::<N, LEN>(w);
    let mut full = [0u8; 16];
    let mut all = [0u32; CS];
    let mut i = 0;
    while i < LEN {
        full[i] = b[i];
        i += 1;
    }
    full[LEN] = b':';
    i = 0;
    while i < N {
        all[i] = cs[i];
        i += 1;
    }
    all[N] = 0x3a;
    namespace_grammar(text(&full[..LEN + 1]), &all);
}

harnesses! {
    [ALL]
    fn n01q_ascii_1 [6] { name_ascii::<1>() }
    fn n01q_ascii_2 [6] { name_ascii::<2>() }
    fn n01q_ascii_3 [6] { name_ascii::<3>() }
    fn n01q_ascii_5 [8] { name_ascii::<5>() }
    fn n01q_ascii_8 [11] { name_ascii::<8>() }
    fn n01q_ascii_12 [15] { name_ascii::<12>() }
    fn n01t_ascii_20 [23] { name_ascii::<20>() }

    fn n02q_ascii_1 [6] { namespace_ascii::<1>() }
    fn n02q_ascii_2 [6] { namespace_ascii::<2>() }
    fn n02q_ascii_3 [6] { namespace_ascii::<3>() }
    fn n02q_ascii_5 [8] { namespace_ascii::<5>() }
    fn n02q_ascii_8 [11] { namespace_ascii::<8>() }
    fn n02q_ascii_12 [15] { namespace_ascii::<12>() }
    fn n02t_ascii_20 [23] { namespace_ascii::<20>() }

    // N03
    fn n03q_ascii_2_at0 [6] { local_ascii::<2>(0) }
    fn n03q_ascii_2_at1 [6] { local_ascii::<2>(1) }
    fn n03q_ascii_2_at2 [6] { local_ascii::<2>(2) }
    fn n03q_ascii_4_at0 [8] { local_ascii::<4>(0) }
    fn n03q_ascii_4_at1 [8] { local_ascii::<4>(1) }
    fn n03q_ascii_4_at2 [8] { local_ascii::<4>(2) }
    fn n03q_ascii_4_at3 [8] { local_ascii::<4>(3) }
    fn n03q_ascii_4_at4 [8] { local_ascii::<4>(4) }
    fn n03q_ascii_6_at0 [10] { local_ascii::<6>(0) }
    fn n03q_ascii_6_at1 [10] { local_ascii::<6>(1) }
    fn n03q_ascii_6_at2 [10] { local_ascii::<6>(2) }
    fn n03q_ascii_6_at3 [10] { local_ascii::<6>(3) }
    fn n03q_ascii_6_at4 [10] { local_ascii::<6>(4) }
    fn n03q_ascii_6_at5 [10] { local_ascii::<6>(5) }
    fn n03q_ascii_6_at6 [10] { local_ascii::<6>(6) }
    fn n03q_ascii_8_at0 [12] { local_ascii::<8>(0) }
    fn n03q_ascii_8_at1 [12] { local_ascii::<8>(1) }
    fn n03q_ascii_8_at2 [12] { local_ascii::<8>(2) }
    fn n03q_ascii_8_at3 [12] { local_ascii::<8>(3) }
    fn n03q_ascii_8_at4 [12] { local_ascii::<8>(4) }
    fn n03q_ascii_8_at5 [12] { local_ascii::<8>(5) }
    fn n03q_ascii_8_at6 [12] { local_ascii::<8>(6) }
    fn n03q_ascii_8_at7 [12] { local_ascii::<8>(7) }
    fn n03q_ascii_8_at8 [12] { local_ascii::<8>(8) }
    fn n03t_ascii_3_at0 [7] { local_ascii::<3>(0) }
    fn n03t_ascii_3_at1 [7] { local_ascii::<3>(1) }
    fn n03t_ascii_3_at2 [7] { local_ascii::<3>(2) }
    fn n03t_ascii_3_at3 [7] { local_ascii::<3>(3) }
    fn n03t_ascii_5_at0 [9] { local_ascii::<5>(0) }
    fn n03t_ascii_5_at1 [9] { local_ascii::<5>(1) }
    fn n03t_ascii_5_at2 [9] { local_ascii::<5>(2) }
    fn n03t_ascii_5_at3 [9] { local_ascii::<5>(3) }
    fn n03t_ascii_5_at4 [9] { local_ascii::<5>(4) }
    fn n03t_ascii_5_at5 [9] { local_ascii::<5>(5) }
    fn n03t_ascii_7_at0 [11] { local_ascii::<7>(0) }
    fn n03t_ascii_7_at1 [11] { local_ascii::<7>(1) }
    fn n03t_ascii_7_at2 [11] { local_ascii::<7>(2) }
    fn n03t_ascii_7_at3 [11] { local_ascii::<7>(3) }
    fn n03t_ascii_7_at4 [11] { local_ascii::<7>(4) }
    fn n03t_ascii_7_at5 [11] { local_ascii::<7>(5) }
    fn n03t_ascii_7_at6 [11] { local_ascii::<7>(6) }
    fn n03t_ascii_7_at7 [11] { local_ascii::<7>(7) }
    fn n03t_ascii_12_at0 [16] { local_ascii::<12>(0) }
    fn n03t_ascii_12_at1 [16] { local_ascii::<12>(1) }
    fn n03t_ascii_12_at2 [16] { local_ascii::<12>(2) }
    fn n03t_ascii_12_at3 [16] { local_ascii::<12>(3) }
    fn n03t_ascii_12_at4 [16] { local_ascii::<12>(4) }
    fn n03t_ascii_12_at5 [16] { local_ascii::<12>(5) }
    fn n03t_ascii_12_at6 [16] { local_ascii::<12>(6) }
    fn n03t_ascii_12_at7 [16] { local_ascii::<12>(7) }
    fn n03t_ascii_12_at8 [16] { local_ascii::<12>(8) }
    fn n03t_ascii_12_at9 [16] { local_ascii::<12>(9) }
    fn n03t_ascii_12_at10 [16] { local_ascii::<12>(10) }
    fn n03t_ascii_12_at11 [16] { local_ascii::<12>(11) }
    fn n03t_ascii_12_at12 [16] { local_ascii::<12>(12) }

    // N04
    fn n04q_name_3 [8] { name_text::<3>() }
    fn n04q_name_6 [11] { name_text::<6>() }
    fn n04q_namespace_1 [6] { namespace_text::<1>() }
    fn n04q_namespace_3 [8] { namespace_text::<3>() }
    fn n04q_namespace_6 [11] { namespace_text::<6>() }
    fn n04q_local_2_2 [10] { local_text::<2, 2, 4>() }
    fn n04q_local_1_3 [10] { local_text::<1, 3, 4>() }
    fn n04q_local_3_1 [10] { local_text::<3, 1, 4>() }
    fn n04q_curie_2_2 [10] { local_curie::<2, 2>() }
    fn n04q_curie_1_3 [10] { local_curie::<1, 3>() }
    fn n04q_prefixed [9] { prefixed_text::<2, 2>() }
    fn n04q_prefixed_from [9] { prefixed_from() }
    fn n04t_name_12 [17] { name_text::<12>() }
    fn n04t_namespace_12 [17] { namespace_text::<12>() }
    fn n04t_local_5_5 [17] { local_text::<5, 5, 10>() }
    fn n04t_curie_5_5 [17] { local_curie::<5, 5>() }

    // N05
    fn n05q_empty [4] { errors_empty() }
    fn n05q_name_1 [6] { name_errors::<1>() }
    fn n05q_name_4 [8] { name_errors::<4>() }
    fn n05q_namespace_1 [6] { namespace_errors::<1>() }
    fn n05q_namespace_2 [6] { namespace_errors::<2>() }
    fn n05q_namespace_3 [7] { namespace_errors::<3>() }
    fn n05q_namespace_5 [9] { namespace_errors::<5>() }
    fn n05q_local_3_at0 [7] { local_errors::<3>(0) }
    fn n05q_local_3_at1 [7] { local_errors::<3>(1) }
    fn n05q_local_3_at2 [7] { local_errors::<3>(2) }
    fn n05q_local_3_at3 [7] { local_errors::<3>(3) }
    fn n05q_local_5_at0 [9] { local_errors::<5>(0) }
    fn n05q_local_5_at1 [9] { local_errors::<5>(1) }
    fn n05q_local_5_at2 [9] { local_errors::<5>(2) }
    fn n05q_local_5_at3 [9] { local_errors::<5>(3) }
    fn n05q_local_5_at4 [9] { local_errors::<5>(4) }
    fn n05q_local_5_at5 [9] { local_errors::<5>(5) }
    fn n05t_local_4_at0 [8] { local_errors::<4>(0) }
    fn n05t_local_4_at1 [8] { local_errors::<4>(1) }
    fn n05t_local_4_at2 [8] { local_errors::<4>(2) }
    fn n05t_local_4_at3 [8] { local_errors::<4>(3) }
    fn n05t_local_4_at4 [8] { local_errors::<4>(4) }
    fn n05t_local_8_at0 [12] { local_errors::<8>(0) }
    fn n05t_local_8_at1 [12] { local_errors::<8>(1) }
    fn n05t_local_8_at2 [12] { local_errors::<8>(2) }
    fn n05t_local_8_at3 [12] { local_errors::<8>(3) }
    fn n05t_local_8_at4 [12] { local_errors::<8>(4) }
    fn n05t_local_8_at5 [12] { local_errors::<8>(5) }
    fn n05t_local_8_at6 [12] { local_errors::<8>(6) }
    fn n05t_local_8_at7 [12] { local_errors::<8>(7) }
    fn n05t_local_8_at8 [12] { local_errors::<8>(8) }
    fn n05t_name_10 [14] { name_errors::<10>() }
    fn n05t_namespace_10 [14] { namespace_errors::<10>() }

    // N06
    fn n06q_named_0 [6] { namespace_constructors::<0>() }
    fn n06q_named_1 [6] { namespace_constructors::<1>() }
    fn n06q_named_2 [7] { namespace_constructors::<2>() }
    fn n06q_named_3 [8] { namespace_constructors::<3>() }
    fn n06q_named_5 [10] { namespace_constructors::<5>() }
    fn n06q_default [6] { namespace_default() }
    fn n06q_qualify_1_2 [9] { qualify::<1, 2>() }
    fn n06q_qualify_3_2 [9] { qualify::<3, 2>() }
    fn n06q_unchecked_2_2 [9] { local_unchecked::<2, 2>() }
    fn n06q_unchecked_1_3 [9] { local_unchecked::<1, 3>() }
    fn n06t_named_10 [15] { namespace_constructors::<10>() }

    // N08
    fn n08q_name_2_2 [8] { name_order::<2, 2>() }
    fn n08q_name_2_3 [8] { name_order::<2, 3>() }
    fn n08q_namespace_3_3 [8] { namespace_order::<3, 3>() }
    fn n08q_namespace_2_3 [8] { namespace_order::<2, 3>() }
    fn n08q_local_2_2 [8] { local_order::<2, 1, 2, 1>() }
    fn n08q_local_2_3 [8] { local_order::<2, 2, 3, 1>() }
    fn n08q_prefixed [8] { prefixed_order() }
    fn n08t_name_6_6 [12] { name_order::<6, 6>() }
    fn n08t_local_3_3 [10] { local_order::<3, 3, 3, 3>() }
}

wide_harnesses! {
    [ALL_WIDE]
    fn n01q_wide_2 [7] { name_wide::<1, 2>([2]) }
    fn n01q_wide_3 [8] { name_wide::<1, 3>([3]) }
    fn n01q_wide_4 [9] { name_wide::<1, 4>([4]) }
    fn n01q_wide_12 [8] { name_wide::<2, 3>([1, 2]) }
    fn n01q_wide_13 [9] { name_wide::<2, 4>([1, 3]) }
    fn n01q_wide_14 [10] { name_wide::<2, 5>([1, 4]) }
    fn n01q_wide_21 [8] { name_wide::<2, 3>([2, 1]) }
    fn n01q_wide_31 [9] { name_wide::<2, 4>([3, 1]) }
    fn n01q_wide_41 [10] { name_wide::<2, 5>([4, 1]) }
    fn n01q_wide_22 [9] { name_wide::<2, 4>([2, 2]) }
    fn n01q_wide_33 [11] { name_wide::<2, 6>([3, 3]) }
    fn n01q_wide_121 [9] { name_wide::<3, 4>([1, 2, 1]) }
    fn n01q_wide_131 [10] { name_wide::<3, 5>([1, 3, 1]) }
    fn n01t_wide_44 [13] { name_wide::<2, 8>([4, 4]) }
    fn n01t_wide_23 [10] { name_wide::<2, 5>([2, 3]) }
    fn n01t_wide_32 [10] { name_wide::<2, 5>([3, 2]) }
    fn n01t_wide_24 [11] { name_wide::<2, 6>([2, 4]) }
    fn n01t_wide_42 [11] { name_wide::<2, 6>([4, 2]) }
    fn n01t_wide_34 [12] { name_wide::<2, 7>([3, 4]) }
    fn n01t_wide_43 [12] { name_wide::<2, 7>([4, 3]) }
    fn n01t_wide_141 [11] { name_wide::<3, 6>([1, 4, 1]) }
    fn n01t_wide_222 [11] { name_wide::<3, 6>([2, 2, 2]) }
    fn n01t_wide_333 [14] { name_wide::<3, 9>([3, 3, 3]) }
    fn n01t_wide_112 [9] { name_wide::<3, 4>([1, 1, 2]) }
    fn n01t_wide_113 [10] { name_wide::<3, 5>([1, 1, 3]) }
    fn n01t_wide_114 [11] { name_wide::<3, 6>([1, 1, 4]) }
    fn n02q_wide_2 [7] { namespace_wide::<1, 2, 2>([2]) }
    fn n02q_wide_3 [8] { namespace_wide::<1, 3, 2>([3]) }
    fn n02q_wide_4 [9] { namespace_wide::<1, 4, 2>([4]) }
    fn n02q_wide_12 [8] { namespace_wide::<2, 3, 3>([1, 2]) }
    fn n02q_wide_13 [9] { namespace_wide::<2, 4, 3>([1, 3]) }
    fn n02q_wide_14 [10] { namespace_wide::<2, 5, 3>([1, 4]) }
    fn n02q_wide_21 [8] { namespace_wide::<2, 3, 3>([2, 1]) }
    fn n02q_wide_31 [9] { namespace_wide::<2, 4, 3>([3, 1]) }
    fn n02q_wide_41 [10] { namespace_wide::<2, 5, 3>([4, 1]) }
    fn n02q_wide_22 [9] { namespace_wide::<2, 4, 3>([2, 2]) }
    fn n02q_wide_33 [11] { namespace_wide::<2, 6, 3>([3, 3]) }
    fn n02q_wide_121 [9] { namespace_wide::<3, 4, 4>([1, 2, 1]) }
    fn n02q_wide_131 [10] { namespace_wide::<3, 5, 4>([1, 3, 1]) }
    fn n02t_wide_44 [13] { namespace_wide::<2, 8, 3>([4, 4]) }
    fn n02t_wide_23 [10] { namespace_wide::<2, 5, 3>([2, 3]) }
    fn n02t_wide_32 [10] { namespace_wide::<2, 5, 3>([3, 2]) }
    fn n02t_wide_141 [11] { namespace_wide::<3, 6, 4>([1, 4, 1]) }
    fn n02t_wide_222 [11] { namespace_wide::<3, 6, 4>([2, 2, 2]) }
    fn n02t_wide_333 [14] { namespace_wide::<3, 9, 4>([3, 3, 3]) }
    fn n02t_wide_112 [9] { namespace_wide::<3, 4, 4>([1, 1, 2]) }
    fn n02t_wide_113 [10] { namespace_wide::<3, 5, 4>([1, 1, 3]) }
    fn n02t_wide_114 [11] { namespace_wide::<3, 6, 4>([1, 1, 4]) }
    fn n03q_wide_2_2 [10] { local_wide::<5>(2, 2) }
    fn n03q_wide_3_1 [10] { local_wide::<5>(3, 1) }
    fn n03q_wide_1_3 [10] { local_wide::<5>(1, 3) }
    fn n03t_wide_4_4 [14] { local_wide::<9>(4, 4) }
    fn n03t_wide_3_3 [12] { local_wide::<7>(3, 3) }
    fn n04q_name_wide_12 [8] { name_text_wide::<2, 3>([1, 2]) }
    fn n04q_name_wide_31 [9] { name_text_wide::<2, 4>([3, 1]) }
    fn n04q_name_wide_4 [9] { name_text_wide::<1, 4>([4]) }
}

// ------------------------------------------------------------------------------------------------
// N03: a local name is the decomposition of its text at the first ':'
// ------------------------------------------------------------------------------------------------

fn local_parse(s: &str, cs: &[u32]) {
    let mut at = cs.len();
    let mut byte = 0;
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == 0x3a {
            at = i;
            break;
        }
        byte += utf8_len(cs[i]);
        i += 1;
    }
    let want = at < cs.len() && is_pname_ns(&cs[..at + 1]) && is_pn_local(&cs[at + 1..]);
    match LocalName::from_str(s) {
        Ok(l) => {
            assert!(want, "N03: accepted a string which is not PNAME_LN");
            assert!(same(l.namespace().as_ref(), &s[..byte + 1]), "N03: wrong namespace part");
            assert!(same(l.name().as_ref(), &s[byte + 1..]), "N03: wrong name part");
            assert!(l.is_namespace_default() == (byte == 0), "N03: is_namespace_default");
        }
        Err(_) => assert!(!want, "N03: rejected a PNAME_LN string"),
    }
    witness!(want || at >= cs.len() || at + 1 == cs.len());
    witness!(!want);
}

/// Arbitrary ASCII bytes whose first ':' is byte `k` (from 1), or without one (0).
fn colon_array<const N: usize>(k: usize) -> [u8; N] {
    let mut b = ascii_array::<N>();
    let mut i = 0;
    while i < N {
        if i + 1 == k {
            b[i] = b':';
        } else if k == 0 || i + 1 < k {
            kani::assume(b[i] != b':');
        }
        i += 1;
    }
    colon_at(if k == 0 { usize::MAX } else { k });
    b
}

/// The first ':' is byte `k` (from 1), or there is none (0).
fn local_ascii<const N: usize>(k: usize) {
    let b = colon_array::<N>(k);
    local_parse(text(&b), &widen(&b));
}

/// One scalar value of width `wa`, ':', one of width `wb`.
fn local_wide<const LEN: usize>(wa: u8, wb: u8) {
    let mut b = [0u8; LEN];
    let x = wide_char(wa);
    let y = wide_char(wb);
    put_utf8(&mut b, 0, x, wa);
    b[wa as usize] = b':';
    put_utf8(&mut b, wa as usize + 1, y, wb);
    kani::assume(x != 0x3a);
    colon_at(wa as usize + 1);
    local_parse(text(&b), &[x, 0x3a, y]);
}

// ------------------------------------------------------------------------------------------------
// N04: text forms
// ------------------------------------------------------------------------------------------------

fn check_name_text(n: &Name, s: &str) {
    assert!(same(&n.to_string(), s), "N04: Name Display");
    assert!(same(n.as_ref(), s), "N04: Name as_ref");
    assert!(same(&String::from(n), s), "N04: String from &Name");
    assert!(same(&String::from(n.clone()), s), "N04: String from Name");
    // every text form was just shown to be `s`
    match Name::from_str(s) {
        Ok(again) => assert!(again == *n, "N04: Name does not survive a round trip"),
        Err(_) => panic!("N04: Name text does not parse"),
    }
}

fn name_text<const N: usize>() {
    let b = ascii_array::<N>();
    let s = text(&b);
    if let Ok(n) = Name::from_str(s) {
        check_name_text(&n, s);
        witness!(true);
    }
}

fn name_text_wide<const N: usize, const LEN: usize>(w: [u8; N]) {
    let (b, cs) = wide_chars::<N, LEN>(w);
    let s = text(&b);
    kani::assume(is_pn_local(&cs));
    let n = Name::new_unchecked(s);
    assert!(same(&n.to_string(), s), "N04: Name Display");
    assert!(same(n.as_ref(), s), "N04: Name as_ref");
    assert!(same(&String::from(n), s), "N04: String from Name");
    witness!(true);
}

fn namespace_text<const N: usize>() {
    let b = ascii_array::<N>();
    let s = text(&b);
    if let Ok(n) = Namespace::from_str(s) {
        assert!(same(&n.to_string(), s), "N04: Namespace Display");
        assert!(same(n.as_ref(), s), "N04: Namespace as_ref");
        assert!(same(&String::from(&n), s), "N04: String from &Namespace");
        // every text form was just shown to be `s`
        match Namespace::from_str(s) {
            Ok(again) => assert!(again == n, "N04: Namespace does not survive a round trip"),
            Err(_) => panic!("N04: Namespace text does not parse"),
        }
        assert!(same(&String::from(n), s), "N04: String from Namespace");
        witness!(true);
    }
}

/// A valid namespace of A bytes and a valid name of B bytes, symbolic; with their texts.
pub fn any_namespace<const A: usize>(b: &[u8; A]) -> Namespace {
    kani::assume(is_pname_ns(&widen(b)));
    Namespace::new_unchecked(text(b))
}

pub fn any_name<const B: usize>(b: &[u8; B]) -> Name {
    kani::assume(is_pn_local(&widen(b)));
    Name::new_unchecked(text(b))
}

fn local_text<const A: usize, const B: usize, const C: usize>() {
    let a = ascii_array::<A>();
    let b = ascii_array::<B>();
    let l = LocalName::new(any_namespace(&a), any_name(&b));
    let t = l.to_string();
    assert!(is_concat2(&t, &a, &b), "N04: LocalName Display is not namespace then name");
    assert!(is_concat2(&String::from(&l), &a, &b), "N04: String from &LocalName");
    // the text was just shown to be `a ++ b`; parse that copy of it
    colon_at(A);
    match LocalName::from_str(text(&concat::<A, B, C>(&a, &b))) {
        Ok(again) => assert!(again == l, "N04: LocalName does not survive a round trip"),
        Err(_) => panic!("N04: LocalName text does not parse"),
    }
    assert!(is_concat2(&String::from(l), &a, &b), "N04: String from LocalName");
    witness!(true);
}

fn local_curie<const A: usize, const B: usize>() {
    let a = ascii_array::<A>();
    let b = ascii_array::<B>();
    let l = LocalName::new(any_namespace(&a), any_name(&b));
    let c = l.as_curie();
    let n = c.len();
    assert!(n == A + B + 2, "N04: CURIE length");
    assert!(c.as_bytes()[0] == b'[' && c.as_bytes()[n - 1] == b']', "N04: CURIE brackets");
    assert!(is_concat2(&c[1..n - 1], &a, &b), "N04: CURIE is not [namespace name]");
    witness!(true);
}

fn prefixed_text<const A: usize, const B: usize>() {
    let a = ascii_array::<A>();
    let b = ascii_array::<B>();
    let ns = any_namespace(&a);
    let l = LocalName::new(ns.clone(), any_name(&b));
    let p = PrefixedName::from(l);
    assert!(is_concat2(&p.to_string(), &a, &b), "N04: PrefixedName::Local Display");
    let q = PrefixedName::from(ns);
    assert!(same(&q.to_string(), text(&a)), "N04: PrefixedName::Namespace Display");
    witness!(true);
}

fn prefixed_from() {
    let a = ascii_array::<2>();
    let b = ascii_array::<2>();
    let ns = any_namespace(&a);
    let l = LocalName::new(ns.clone(), any_name(&b));
    assert!(PrefixedName::from(&l) == PrefixedName::Local(l.clone()), "N04: from &LocalName");
    assert!(PrefixedName::from(&ns) == PrefixedName::Namespace(ns.clone()), "N04: from &Namespace");
    let p = PrefixedName::from(l.clone());
    assert!(p.is_local() && !p.is_namespace(), "N04: variant");
    match p.try_as_local() {
        Some(x) => assert!(x == l, "N04: local value"),
        None => panic!("N04: local lost"),
    }
    let q = PrefixedName::from(ns.clone());
    assert!(q.is_namespace() && !q.is_local(), "N04: variant");
    match q.try_as_namespace() {
        Some(x) => assert!(x == ns, "N04: namespace value"),
        None => panic!("N04: namespace lost"),
    }
    witness!(true);
}

// ------------------------------------------------------------------------------------------------
// N05: which error
// ------------------------------------------------------------------------------------------------

fn errors_empty() {
    assert!(matches!(Name::from_str(""), Err(NameParseError::EmptyString)), "N05: empty Name");
    assert!(
        matches!(Namespace::from_str(""), Err(NameParseError::EmptyString)),
        "N05: empty Namespace"
    );
    assert!(
        matches!(LocalName::from_str(""), Err(NameParseError::EmptyString)),
        "N05: empty LocalName"
    );
    witness!(true);
}

fn name_errors<const N: usize>() {
    let b = ascii_array::<N>();
    let s = text(&b);
    match Name::from_str(s) {
        Ok(_) => {}
        Err(NameParseError::InvalidCharacter(x)) => {
            assert!(same(&x, s), "N05: InvalidCharacter does not carry the input");
            witness!(true);
        }
        Err(_) => panic!("N05: a non-empty bad Name must report InvalidCharacter"),
    }
}

fn namespace_errors<const N: usize>() {
    let b = ascii_array::<N>();
    let s = text(&b);
    let last = b[N - 1] == b':';
    let mut colons = 0;
    let mut i = 0;
    while i < N {
        if b[i] == b':' {
            colons += 1;
        }
        i += 1;
    }
    match Namespace::from_str(s) {
        Ok(_) => {}
        Err(NameParseError::MissingSeparator(x)) => {
            assert!(!last, "N05: MissingSeparator although the text ends with ':'");
            assert!(same(&x, s), "N05: MissingSeparator does not carry the input");
        }
        Err(NameParseError::TooManySeparators(x)) => {
            assert!(last && colons > 1, "N05: TooManySeparators without two ':'");
            assert!(same(&x, s), "N05: TooManySeparators does not carry the input");
        }
        Err(NameParseError::InvalidCharacter(x)) => {
            assert!(last && colons == 1, "N05: InvalidCharacter where the separator is at fault");
            assert!(same(&x, s), "N05: InvalidCharacter does not carry the input");
        }
        Err(NameParseError::EmptyString) => panic!("N05: EmptyString for a non-empty input"),
    }
    witness!(!last);
    witness!(N == 1 || (last && colons > 1));
}

fn local_errors<const N: usize>(k: usize) {
    let b = colon_array::<N>(k);
    let s = text(&b);
    let at = if k == 0 { N } else { k - 1 };
    let ns_ok = at < N && is_pname_ns(&widen(&b)[..at + 1]);
    match LocalName::from_str(s) {
        Ok(_) => {}
        Err(NameParseError::MissingSeparator(x)) => {
            assert!(at == N, "N05: MissingSeparator although there is a ':'");
            assert!(same(&x, s), "N05: MissingSeparator does not carry the input");
        }
        Err(NameParseError::EmptyString) => {
            assert!(at + 1 == N && ns_ok, "N05: EmptyString means the name part is empty");
        }
        Err(NameParseError::InvalidCharacter(_)) => {
            assert!(at < N, "N05: no ':' must be MissingSeparator");
            assert!(!ns_ok || at + 1 < N, "N05: an empty name part must be EmptyString");
        }
        Err(NameParseError::TooManySeparators(_)) => {
            panic!("N05: the namespace part of a local name has one ':'")
        }
    }
    witness!(true);
}

// ------------------------------------------------------------------------------------------------
// N06: constructors and accessors
// ------------------------------------------------------------------------------------------------

/// `new_named`/`new_unchecked` add the ':' exactly when it is missing; `name_string` undoes it.
fn namespace_constructors<const N: usize>() {
    let b = ascii_array::<N>();
    let s = text(&b);
    let has = N > 0 && b[N - 1] == b':';
    let mut full = [0u8; 16];
    let mut i = 0;
    while i < N {
        full[i] = b[i];
        i += 1;
    }
    let n = if has {
        N
    } else {
        full[N] = b':';
        N + 1
    };
    let want = text(&full[..n]);
    let u = Namespace::new_unchecked(s);
    assert!(same(u.as_ref(), want), "N06: new_unchecked");
    assert!(u.is_default() == (n == 1), "N06: is_default");
    match u.name_string() {
        None => assert!(n == 1, "N06: name_string is None only for the default namespace"),
        Some(x) => assert!(n > 1 && same(x, text(&full[..n - 1])), "N06: name_string"),
    }
    let mut cs = [0u32; 16];
    i = 0;
    while i < n {
        cs[i] = full[i] as u32;
        i += 1;
    }
    let valid = is_pname_ns(&cs[..n]);
    match Namespace::new_named(s) {
        Ok(x) => {
            assert!(valid, "N06: new_named accepted an invalid prefix");
            assert!(x == u, "N06: new_named and new_unchecked differ on a valid prefix");
        }
        Err(_) => assert!(!valid, "N06: new_named rejected a valid prefix"),
    }
    witness!(valid);
}

fn namespace_default() {
    let d = Namespace::new_default();
    assert!(same(d.as_ref(), ":"), "N06: new_default");
    assert!(d.is_default() && d.name_string().is_none(), "N06: default accessors");
    let b = ascii_array::<2>();
    let l = LocalName::new_in_default(any_name(&b));
    assert!(l.is_namespace_default(), "N06: new_in_default");
    assert!(same(l.namespace().as_ref(), ":"), "N06: new_in_default namespace");
    assert!(same(l.name().as_ref(), text(&b)), "N06: new_in_default name");
    witness!(true);
}

fn qualify<const A: usize, const B: usize>() {
    let a = ascii_array::<A>();
    let b = ascii_array::<B>();
    let ns = any_namespace(&a);
    let n = any_name(&b);
    let l = LocalName::new(ns.clone(), n.clone());
    assert!(*l.namespace() == ns && *l.name() == n, "N06: LocalName::new");
    assert!(ns.qualify(&n) == l, "N06: Namespace::qualify");
    assert!(n.qualify(&ns) == l, "N06: Name::qualify");
    assert!(l.is_namespace_default() == (A == 1), "N06: is_namespace_default");
    witness!(true);
}

fn local_unchecked<const A: usize, const B: usize>() {
    let a = ascii_array::<A>();
    let b = ascii_array::<B>();
    let l = LocalName::new_unchecked(text(&a), text(&b));
    assert!(*l.namespace() == Namespace::new_unchecked(text(&a)), "N06: new_unchecked namespace");
    assert!(same(l.name().as_ref(), text(&b)), "N06: new_unchecked name");
    assert!(l.is_namespace_default() == (A == 1 && a[0] == b':'), "N06: is_namespace_default");
    witness!(A > 1 || a[0] == b':');
}

// ------------------------------------------------------------------------------------------------
// N08: comparison
// ------------------------------------------------------------------------------------------------

fn name_order<const A: usize, const B: usize>() {
    let a = ascii_array::<A>();
    let b = ascii_array::<B>();
    let x = any_name(&a);
    let y = any_name(&b);
    let want = order(&a, &b);
    assert!((x == y) == (want == 0), "N08: Name equality is not text equality");
    assert!(sign(x.cmp(&y)) == want, "N08: Name order is not text order");
    assert!(x.partial_cmp(&y) == Some(x.cmp(&y)), "N08: Name partial order");
    if x == y {
        assert!(fnv(&x) == fnv(&y), "N08: equal Names hash differently");
    }
    witness!(want < 0);
    witness!(A != B || want == 0);
}

fn namespace_order<const A: usize, const B: usize>() {
    let a = ascii_array::<A>();
    let b = ascii_array::<B>();
    let x = any_namespace(&a);
    let y = any_namespace(&b);
    let want = order(&a, &b);
    assert!((x == y) == (want == 0), "N08: Namespace equality is not text equality");
    assert!(sign(x.cmp(&y)) == want, "N08: Namespace order is not text order");
    assert!(x.partial_cmp(&y) == Some(x.cmp(&y)), "N08: Namespace partial order");
    if x == y {
        assert!(fnv(&x) == fnv(&y), "N08: equal Namespaces hash differently");
    }
    witness!(want < 0);
    witness!(A != B || want == 0);
}

fn local_order<const A: usize, const B: usize, const C: usize, const D: usize>() {
    let a = ascii_array::<A>();
    let b = ascii_array::<B>();
    let c = ascii_array::<C>();
    let d = ascii_array::<D>();
    let x = LocalName::new(any_namespace(&a), any_name(&b));
    let y = LocalName::new(any_namespace(&c), any_name(&d));
    let first = order(&a, &c);
    let want = if first != 0 { first } else { order(&b, &d) };
    assert!((x == y) == (want == 0), "N08: LocalName equality is not equality of both parts");
    assert!(sign(x.cmp(&y)) == want, "N08: LocalName order is not (namespace, name)");
    if x == y {
        assert!(fnv(&x) == fnv(&y), "N08: equal LocalNames hash differently");
    }
    witness!(want < 0);
    witness!(A != C || B != D || want == 0);
}

fn prefixed_order() {
    let a = ascii_array::<2>();
    let b = ascii_array::<1>();
    let c = ascii_array::<2>();
    let l = LocalName::new(any_namespace(&a), any_name(&b));
    let ns = any_namespace(&c);
    let p = PrefixedName::from(&l);
    let q = PrefixedName::from(&ns);
    assert!(p != q, "N08: a namespace equals a local name");
    assert!(PrefixedName::from(&l) == p, "N08: PrefixedName equality");
    let same_ns = PrefixedName::from(l.namespace()) == q;
    assert!(same_ns == (order(&a, &c) == 0), "N08: PrefixedName equality");
    witness!(same_ns);
}
