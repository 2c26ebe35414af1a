//! Literals (properties L..).
use super::support::*;
use rdftk_core::model::literal::{DataType, LanguageTag, Literal};
use rdftk_iri::{LocalName, Name};
use std::time::Duration;

/// The decimal text of `v`, right-aligned in one byte more than the most digits; where it starts.
fn decimal<const N: usize>(neg: bool, v: u64) -> ([u8; N], usize) {
    let mut b = [b'0'; N];
    let mut at = N;
    let mut n = v;
    let mut i = 0;
    while i + 1 < N {
        if i == 0 || n != 0 {
            at -= 1;
            b[N - 1 - i] = b'0' + (n % 10) as u8;
            n /= 10;
        }
        i += 1;
    }
    if neg {
        at -= 1;
        b[at] = b'-';
    }
    (b, at)
}

fn upper(n: u8) -> u8 {
    if n < 10 {
        b'0' + n
    } else {
        b'A' + n - 10
    }
}

fn nibble(c: u8) -> Option<u8> {
    match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' => Some(c - b'A' + 10),
        _ => None,
    }
}

fn sextet(n: u8) -> u8 {
    match n {
        0..=25 => b'A' + n,
        26..=51 => b'a' + n - 26,
        52..=61 => b'0' + n - 52,
        62 => b'+',
        _ => b'/',
    }
}

/// `$n`: the most digits `$v` has, and one.
macro_rules! native {
    ($t:ty, $data:ident, $n:literal, $v:expr) => {{
        let v: $t = $v;
        let l = Literal::from(v);
        assert!(l.data_type() == Some(&DataType::$data), "L01: the datatype is not the value's");
        assert!(l.language().is_none(), "L01: a language");
        let (b, at) = decimal::<$n>((v as i128) < 0, (v as i128).unsigned_abs() as u64);
        assert!(same(l.lexical_form(), text(&b[at..])), "L01: the lexical form is not the value's");
        core::mem::forget(l);
        v
    }};
}

/// A literal of one value compared with another value of that type.
macro_rules! equal {
    ($t:ty, $v:expr, $w:expr) => {{
        let (v, w): ($t, $t) = ($v, $w);
        let l = Literal::from(v);
        assert!((l == w) == (v == w), "L01: comparing with a native value");
        core::mem::forget(l);
        witness!(v == w);
        witness!(v != w);
    }};
}

fn small() -> u64 {
    kani::any::<u8>() as u64
}

fn check_text(l: &Literal, data: &DataType, lexical: &str) {
    assert!(l.data_type() == Some(data), "L01: the datatype is not the value's");
    assert!(l.has_data_type() && !l.has_language() && l.language().is_none(), "L01: a language");
    assert!(same(l.lexical_form(), lexical), "L01: the lexical form is not the value's");
}

/// `l`, unescaped as Turtle's STRING_LITERAL_QUOTE body, is the text given.
fn unescapes(l: &str, to: &[u8]) {
    let l = l.as_bytes();
    let mut at = 0;
    let mut i = 0;
    while i < to.len() {
        assert!(at < l.len(), "L03: text lost");
        let c = if l[at] == b'\\' {
            at += 1;
            assert!(at < l.len(), "L03: a lone backslash");
            match l[at] {
                b't' => b'\t',
                b'b' => 8,
                b'n' => b'\n',
                b'r' => b'\r',
                b'f' => 12,
                b'"' => b'"',
                b'\'' => b'\'',
                b'\\' => b'\\',
                _ => panic!("L03: no such escape"),
            }
        } else {
            assert!(l[at] != b'"' && l[at] != b'\n' && l[at] != b'\r', "L03: must be escaped");
            l[at]
        };
        assert!(c == to[i], "L03: not the text given");
        at += 1;
        i += 1;
    }
    assert!(at == l.len(), "L03: text added");
}

fn escape<const N: usize>() {
    let t: [u8; N] = ascii_array();
    let l = Literal::plain(text(&t));
    unescapes(l.lexical_form(), &t);
    witness!(t[N - 1] == b'\\');
    witness!(t[0] == b'"');
    witness!(t[0] == b'a');
    core::mem::forget(l);
}

fn escape_wide<const N: usize, const LEN: usize>(w: [u8; N]) {
    let (b, _) = wide_chars::<N, LEN>(w);
    let l = Literal::plain(text(&b));
    unescapes(l.lexical_form(), &b);
    core::mem::forget(l);
}

fn hex_of<const N: usize, const M: usize>() {
    let mut b = [0u8; N];
    let mut t = [0u8; M];
    let mut i = 0;
    while i < N {
        b[i] = kani::any();
        t[2 * i] = upper(b[i] >> 4);
        t[2 * i + 1] = upper(b[i] & 15);
        i += 1;
    }
    let l = Literal::hex_encoded(&b);
    assert!(l.data_type() == Some(&DataType::HexBinary), "L04: not a hexBinary");
    assert!(same(l.lexical_form(), text(&t)), "L04: the digits are not the bytes'");
    core::mem::forget(l);
}

fn hex_from<const N: usize>() {
    let t: [u8; N] = ascii_array();
    let l = Literal::with_data_type(text(&t), DataType::HexBinary);
    let mut good = N % 2 == 0;
    let mut i = 0;
    while i < N {
        good = good && nibble(t[i]).is_some();
        i += 1;
    }
    match Vec::<u8>::try_from(l) {
        Ok(v) => {
            assert!(good, "L04: decoded what is not hexadecimal");
            assert!(v.len() == N / 2, "L04: decoded to more or fewer bytes");
            let mut i = 0;
            while i < N / 2 {
                let (h, l) = (nibble(t[2 * i]).unwrap_or(0), nibble(t[2 * i + 1]).unwrap_or(0));
                assert!(v[i] == h << 4 | l, "L04: decoded to other bytes");
                i += 1;
            }
            core::mem::forget(v);
        }
        Err(e) => {
            assert!(!good, "L04: hexadecimal does not decode");
            core::mem::forget(e);
        }
    }
}

fn base64_text<const N: usize, const M: usize>(b: &[u8; N]) -> [u8; M] {
    let mut t = [b'='; M];
    let at = |i: usize| if i < N { b[i] } else { 0 };
    let mut i = 0;
    while 3 * i < N {
        let (x, y, z) = (at(3 * i), at(3 * i + 1), at(3 * i + 2));
        t[4 * i] = sextet(x >> 2);
        t[4 * i + 1] = sextet((x & 3) << 4 | y >> 4);
        if 3 * i + 1 < N {
            t[4 * i + 2] = sextet((y & 15) << 2 | z >> 6);
        }
        if 3 * i + 2 < N {
            t[4 * i + 3] = sextet(z & 63);
        }
        i += 1;
    }
    t
}

fn base64_of<const N: usize, const M: usize>() {
    let mut b = [0u8; N];
    let mut i = 0;
    while i < N {
        b[i] = kani::any();
        i += 1;
    }
    let l = Literal::base64_encoded(&b);
    assert!(l.data_type() == Some(&DataType::Base64Binary), "L04: not a base64Binary");
    let t = base64_text::<N, M>(&b);
    assert!(same(l.lexical_form(), text(&t)), "L04: the base64 text is not the bytes'");
    core::mem::forget(l);
}

fn base64_from<const N: usize, const M: usize>() {
    let mut b = [0u8; N];
    let mut i = 0;
    while i < N {
        b[i] = kani::any();
        i += 1;
    }
    let t = base64_text::<N, M>(&b);
    let l = Literal::with_data_type(text(&t), DataType::Base64Binary);
    match Vec::<u8>::try_from(l) {
        Ok(v) => {
            assert!(same_bytes(&v, &b), "L04: decoded to other bytes");
            core::mem::forget(v);
        }
        Err(_) => panic!("L04: base64 does not decode"),
    }
}

/// One of six kinds of literal with the lexical form given.
fn literal(kind: u8, lexical: &str, letter: u8) -> Literal {
    match kind {
        0 => Literal::plain(lexical),
        1 => Literal::with_data_type(lexical, DataType::String),
        2 => Literal::with_data_type(lexical, DataType::Byte),
        3 => Literal::with_data_type_iri(lexical, iri(HTTP, "/", None, Some(text(&[letter])))),
        4 => Literal::with_language(lexical, LanguageTag::parse("en").unwrap()),
        _ => Literal::with_language(lexical, LanguageTag::parse("fr").unwrap()),
    }
}

fn letter() -> u8 {
    let c: u8 = kani::any();
    kani::assume(c == b'a' || c == b'b' || c == b'c');
    c
}

fn coherent(ka: u8, kb: u8) {
    let (ta, tb) = (letter(), letter());
    let (fa, fb) = (letter(), letter());
    let a = literal(ka, text(&[ta]), fa);
    let b = literal(kb, text(&[tb]), fb);
    let equal = ka == kb && ta == tb && (ka != 3 || fa == fb);
    assert!((a == b) == equal, "L02: equality is not that of the parts");
    let (x, y) = (a.cmp(&b), b.cmp(&a));
    assert!(sign(x) == -sign(y), "L02: order is not antisymmetric");
    assert!((sign(x) == 0) == equal, "L02: order and equality disagree");
    assert!(a.partial_cmp(&b) == Some(x), "L02: partial and total order disagree");
    if equal {
        assert!(fnv(&a) == fnv(&b), "L02: equal literals hash differently");
    }
    core::mem::forget((a, b));
}

named_harnesses! {
    [ALL]
    fn l01q_i8 [6] { let v = native!(i8, Byte, 5, kani::any()); witness!(v < 0); witness!(v > 99); }
    fn l01q_u8 [6] { let v = native!(u8, UnsignedByte, 4, kani::any()); witness!(v == 0); witness!(v > 99); }
    fn l01q_i16 [8] { let v = native!(i16, Short, 7, kani::any()); witness!(v == i16::MIN); witness!(v > 9999); }
    fn l01q_u16 [8] { let v = native!(u16, UnsignedShort, 6, kani::any()); witness!(v == 0); witness!(v > 9999); }
    fn l01q_i32_low [13] { let v = native!(i32, Int, 12, kani::any::<i8>() as i32); witness!(v == -1); }
    fn l01q_i32_top [13] { let v = native!(i32, Int, 12, i32::MAX - kani::any::<u8>() as i32); witness!(v == i32::MAX); }
    fn l01q_i32_bottom [13] { let v = native!(i32, Int, 12, i32::MIN + kani::any::<u8>() as i32); witness!(v == i32::MIN); }
    fn l01q_u32_low [12] { let v = native!(u32, UnsignedInt, 11, kani::any::<u8>() as u32); witness!(v == 0); }
    fn l01q_u32_top [12] { let v = native!(u32, UnsignedInt, 11, u32::MAX - kani::any::<u8>() as u32); witness!(v == u32::MAX); }
    fn l01t_u64_low [23] { let v = native!(u64, UnsignedLong, 21, small()); witness!(v == 0); }
    fn l01t_u64_top [23] { let v = native!(u64, UnsignedLong, 21, u64::MAX - small()); witness!(v == u64::MAX); }
    fn l01t_i64_low [23] { let v = native!(i64, Long, 21, kani::any::<i8>() as i64); witness!(v == 0); }
    fn l01t_i64_top [23] { let v = native!(i64, Long, 21, i64::MAX - kani::any::<u8>() as i64); witness!(v == i64::MAX); }
    fn l01t_i64_bottom [23] { let v = native!(i64, Long, 21, i64::MIN + kani::any::<u8>() as i64); witness!(v == i64::MIN); }
    fn l01q_bool [7] {
        let v: bool = kani::any();
        let l = Literal::from(v);
        check_text(&l, &DataType::Boolean, if v { "true" } else { "false" });
        let w: bool = kani::any();
        assert!((l == w) == (v == w), "L01: comparing with a native value");
        core::mem::forget(l);
    }
    fn l01q_equal_i8 [6] { equal!(i8, kani::any(), kani::any()); }
    fn l01q_equal_u8 [6] { equal!(u8, kani::any(), kani::any()); }
    fn l01q_equal_u32 [12] { equal!(u32, u32::MAX - kani::any::<bool>() as u32, u32::MAX - kani::any::<bool>() as u32); }
    fn l01q_local [5] {
        let (t, u): ([u8; 2], [u8; 2]) = (word(), word());
        let l = Literal::from(LocalName::new_unchecked("p", text(&t)));
        check_text(&l, &DataType::QName, Buf::new().add("p:").add(text(&t)).get());
        assert!((l == LocalName::new_unchecked("p", text(&u))) == (t == u), "L01: comparing with a native value");
        core::mem::forget(l);
    }
    fn l01q_name [5] {
        let (t, u): ([u8; 2], [u8; 2]) = (word(), word());
        let l = Literal::from(&Name::new_unchecked(text(&t)));
        check_text(&l, &DataType::Name, text(&t));
        assert!((l == Name::new_unchecked(text(&u))) == (t == u), "L01: comparing with a native value");
        core::mem::forget(l);
    }
    fn l01q_iri [16] {
        let (t, u): ([u8; 2], [u8; 2]) = (word(), word());
        let (a, b) = (iri(HTTP, "/", None, Some(text(&t))), iri(HTTP, "/", None, Some(text(&u))));
        let l = Literal::from(&a);
        check_text(&l, &DataType::Iri, iri_text(&a));
        assert!((l == b) == (t == u), "L01: comparing with a native value");
        core::mem::forget((l, a, b));
    }
    fn l01q_string [4] {
        let (t, u): ([u8; 2], [u8; 2]) = (word(), word());
        let l = Literal::from(text(&t));
        check_text(&l, &DataType::String, text(&t));
        assert!((l == *text(&u)) == (t == u), "L01: comparing with a native value");
        core::mem::forget(l);
    }
    fn l01q_duration [23] {
        let s = small();
        let l = Literal::from(Duration::new(s, 0));
        let (b, at) = decimal::<4>(false, s);
        let t = Buf::new().add("PT").add(text(&b[at..])).add("S");
        check_text(&l, &DataType::Duration, t.get());
        core::mem::forget(l);
    }
    fn l02q_same_0 [14] { coherent(0, 0); }
    fn l02q_same_1 [14] { coherent(1, 1); }
    fn l02q_same_3 [14] { coherent(3, 3); }
    fn l02q_same_4 [30] { coherent(4, 4); }
    fn l02q_kinds [30] {
        let (a, b) = (kani::any::<u8>(), kani::any::<u8>());
        kani::assume(a < 6 && b < 6);
        coherent(a, b);
    }
    fn l03q_1 [4] { escape::<1>(); }
    fn l03q_2 [6] { escape::<2>(); }
    fn l03q_3 [8] { escape::<3>(); }
    fn l04q_hex_of_0 [4] { hex_of::<0, 0>(); }
    fn l04q_hex_of_1 [4] { hex_of::<1, 2>(); }
    fn l04q_hex_of_2 [6] { hex_of::<2, 4>(); }
    fn l04q_hex_from_0 [4] { hex_from::<0>(); }
    fn l04q_hex_from_1 [4] { hex_from::<1>(); }
    fn l04q_hex_from_2 [5] { hex_from::<2>(); }
    fn l04q_hex_from_3 [7] { hex_from::<3>(); }
    fn l04t_hex_from_4 [9] { hex_from::<4>(); }
    fn l04q_base64_of_1 [6] { base64_of::<1, 4>(); }
    fn l04q_base64_of_2 [6] { base64_of::<2, 4>(); }
    fn l04q_base64_of_3 [6] { base64_of::<3, 4>(); }
    fn l04q_base64_from_1 [6] { base64_from::<1, 4>(); }
    fn l04q_base64_from_2 [6] { base64_from::<2, 4>(); }
    fn l04q_base64_from_3 [6] { base64_from::<3, 4>(); }
}

/// Letters and digits.
fn word<const N: usize>() -> [u8; N] {
    let t: [u8; N] = ascii_array();
    let mut i = 0;
    while i < N {
        kani::assume(t[i].is_ascii_alphanumeric());
        i += 1;
    }
    t
}

wide_text_harnesses! {
    [WIDE]
    fn l03q_wide_2 [6] { escape_wide::<2, 3>([2, 1]); }
    fn l03q_wide_3 [6] { escape_wide::<1, 3>([3]); }
    fn l03q_wide_4 [6] { escape_wide::<1, 4>([4]); }
}
