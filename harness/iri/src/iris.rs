//! Iri and IriRef (properties I..).
use super::names::{any_name, any_namespace};
use super::support::*;
use core::str::FromStr;
use rdftk_iri::{Iri, IriRef, LocalName, Name, PrefixedName};

/// `/` followed by N arbitrary bytes.
fn rooted<const N: usize>() -> [u8; 12] {
    let mut b = [0u8; 12];
    b[0] = b'/';
    let mut i = 0;
    while i < N {
        b[i + 1] = ascii();
        i += 1;
    }
    b
}

/// `/`, then arbitrary bytes up to `len`, the last '/' of all being `k` bytes from the end.
fn rooted_at(len: usize, k: usize) -> [u8; 12] {
    let mut b = [0u8; 12];
    b[0] = b'/';
    let mut i = 1;
    while i < len {
        b[i] = if i == len - k { b'/' } else { ascii() };
        kani::assume(i <= len - k || b[i] != b'/');
        i += 1;
    }
    slash_at(k);
    b
}

/// The rest of an opaque path: the same without the leading '/' (`k == 0`: no '/' at all).
fn opaque_at(len: usize, k: usize) -> [u8; 12] {
    let mut b = [0u8; 12];
    let mut i = 0;
    while i < len {
        b[i] = if k > 0 && i == len - k { b'/' } else { ascii() };
        kani::assume((k > 0 && i <= len - k) || b[i] != b'/');
        i += 1;
    }
    kani::assume(b[0] != b'/');
    slash_at(if k == 0 { usize::MAX } else { k });
    b
}

harnesses! {
    [ALL]
    // I01
    fn i01q_display_bare [11] { display(BARE, 2, None, None) }
    fn i01q_display_opaque [11] { display_opaque::<3>() }
    fn i01q_display_query [14] { display(BARE, 2, Some("q"), None) }
    fn i01q_display_fragment [14] { display(BARE, 2, None, Some("f")) }
    fn i01q_display_http [16] { display(HTTP, 2, Some("q"), Some("")) }
    fn i01q_parse_1 [6] { parse::<1>() }
    fn i01q_parse_3 [8] { parse::<3>() }
    fn i01q_parse_4 [9] { parse::<4>() }
    fn i01q_parse_angle_3 [11] { parse_angle::<3, 5>() }
    fn i01q_parse_angle_4 [12] { parse_angle::<4, 6>() }
    fn i01q_convert [11] { convert() }
    fn i01t_parse_6 [12] { parse::<6>() }
    fn i01t_parse_angle_6 [14] { parse_angle::<6, 8>() }

    // I02
    fn i02q_path_bare [12] { with_path(BARE, None, None) }
    fn i02q_path_http [16] { with_path(HTTP, Some("q"), Some("f")) }
    fn i02q_path_other [16] { with_path(OTHER, Some("q"), None) }
    fn i02q_path_fragment [14] { with_path(BARE, None, Some("f")) }
    fn i02q_frag_none [12] { with_fragment(BARE, None, None) }
    fn i02q_frag_empty [12] { with_fragment(BARE, Some("q"), Some("")) }
    fn i02q_frag_some [12] { with_fragment(BARE, Some("q"), Some("old")) }
    fn i02q_frag_http [16] { with_fragment(HTTP, None, Some("f")) }
    fn i02q_frag_opaque [12] { with_fragment_opaque() }

    // I03
    fn i03q_none [10] { looks(BARE, None, None) }
    fn i03q_query [10] { looks(BARE, Some("q"), None) }
    fn i03q_query_slash [10] { looks(BARE, Some("q/"), None) }
    fn i03q_query_empty [10] { looks(BARE, Some(""), None) }
    fn i03q_fragment_empty [10] { looks(BARE, None, Some("")) }
    fn i03q_fragment [10] { looks(BARE, None, Some("f")) }
    fn i03q_fragment_slash [10] { looks(BARE, None, Some("f/")) }
    fn i03q_both [12] { looks(HTTP, Some("q"), Some("")) }
    fn i03q_both_text [12] { looks(HTTP, Some("q"), Some("f")) }
    fn i03q_opaque [10] { looks_opaque() }

    // I04
    fn i04q_path_1_k2 [9] { split_path::<1>(BARE, None, None, 2) }
    fn i04q_path_3_k1 [11] { split_path::<3>(BARE, None, None, 1) }
    fn i04q_path_3_k2 [11] { split_path::<3>(BARE, None, None, 2) }
    fn i04q_path_3_k4 [11] { split_path::<3>(BARE, None, None, 4) }
    fn i04q_path_http_k1 [15] { split_path::<2>(HTTP, None, None, 1) }
    fn i04q_path_http_k2 [15] { split_path::<2>(HTTP, None, None, 2) }
    fn i04q_path_http_k3 [15] { split_path::<2>(HTTP, None, None, 3) }
    fn i04q_path_other_k1 [15] { split_path::<2>(OTHER, None, None, 1) }
    fn i04q_path_other_k2 [15] { split_path::<2>(OTHER, None, None, 2) }
    fn i04q_path_other_k3 [15] { split_path::<2>(OTHER, None, None, 3) }
    fn i04q_path_query_k1 [11] { split_path::<2>(BARE, Some("q"), None, 1) }
    fn i04q_path_query_k3 [11] { split_path::<2>(BARE, Some("q"), None, 3) }
    fn i04q_path_query_empty_k1 [11] { split_path::<2>(BARE, Some(""), None, 1) }
    fn i04q_path_query_empty_k3 [11] { split_path::<2>(BARE, Some(""), None, 3) }
    fn i04q_path_hash_k1 [10] { split_path::<2>(BARE, None, Some(""), 1) }
    fn i04q_path_hash_k3 [10] { split_path::<2>(BARE, None, Some(""), 3) }
    fn i04q_path_query_hash_k1 [11] { split_path::<2>(BARE, Some("q"), Some(""), 1) }
    fn i04q_path_query_hash_k3 [11] { split_path::<2>(BARE, Some("q"), Some(""), 3) }
    fn i04t_path_6_k1 [14] { split_path::<6>(BARE, None, None, 1) }
    fn i04t_path_6_k2 [14] { split_path::<6>(BARE, None, None, 2) }
    fn i04t_path_6_k3 [14] { split_path::<6>(BARE, None, None, 3) }
    fn i04t_path_6_k4 [14] { split_path::<6>(BARE, None, None, 4) }
    fn i04t_path_6_k5 [14] { split_path::<6>(BARE, None, None, 5) }
    fn i04t_path_6_k7 [14] { split_path::<6>(BARE, None, None, 7) }
    fn i04t_path_http_4_k1 [17] { split_path::<4>(HTTP, None, None, 1) }
    fn i04t_path_http_4_k2 [17] { split_path::<4>(HTTP, None, None, 2) }
    fn i04t_path_http_4_k3 [17] { split_path::<4>(HTTP, None, None, 3) }
    fn i04t_path_http_4_k4 [17] { split_path::<4>(HTTP, None, None, 4) }
    fn i04t_path_http_4_k5 [17] { split_path::<4>(HTTP, None, None, 5) }
    fn i04q_fragment_1 [10] { split_fragment::<1>(BARE, "/", None) }
    fn i04q_fragment_3 [12] { split_fragment::<3>(BARE, "/x", None) }
    fn i04q_fragment_query [14] { split_fragment::<2>(BARE, "/", Some("q")) }
    fn i04q_fragment_http [16] { split_fragment::<2>(HTTP, "/", None) }
    fn i04q_fragment_opaque [12] { split_fragment::<2>(OPAQUE, "x", None) }
    fn i04q_opaque_1_k0 [10] { split_opaque::<1>(None, 0) }
    fn i04q_opaque_3_k0 [12] { split_opaque::<3>(None, 0) }
    fn i04q_opaque_3_k1 [12] { split_opaque::<3>(None, 1) }
    fn i04q_opaque_3_k2 [12] { split_opaque::<3>(None, 2) }
    fn i04q_opaque_hash_k0 [11] { split_opaque::<2>(Some(""), 0) }
    fn i04q_opaque_hash_k1 [11] { split_opaque::<2>(Some(""), 1) }
    fn i04t_opaque_6_k0 [15] { split_opaque::<6>(None, 0) }
    fn i04t_opaque_6_k1 [15] { split_opaque::<6>(None, 1) }
    fn i04t_opaque_6_k2 [15] { split_opaque::<6>(None, 2) }
    fn i04t_opaque_6_k3 [15] { split_opaque::<6>(None, 3) }
    fn i04t_opaque_6_k4 [15] { split_opaque::<6>(None, 4) }
    fn i04t_opaque_6_k5 [15] { split_opaque::<6>(None, 5) }
    fn i04t_fragment_6 [15] { split_fragment::<6>(BARE, "/", None) }

    // I05
    fn i05q_path [12] { projections_path::<2>() }
    fn i05q_path_none [12] { projections_path_none::<2>() }
    fn i05q_fragment [12] { projections_fragment::<2>() }
    fn i05q_fragment_none [12] { projections_fragment_none::<2>() }
    fn i05q_opaque [12] { projections_opaque::<3>(2) }
    fn i05q_opaque_none_k0 [12] { projections_opaque_none::<3>(0) }
    fn i05q_opaque_none_k1 [12] { projections_opaque_none::<3>(1) }
    fn i05q_opaque_none_k2 [12] { projections_opaque_none::<3>(2) }
    fn i05q_query [12] { projections_query() }

    // I06
    fn i06q_hash [12] { make::<2>(BARE, "/", None, Some("")) }
    fn i06q_hash_query [14] { make::<2>(BARE, "/x", Some("q"), Some("")) }
    fn i06q_hash_http [16] { make::<2>(HTTP, "/", None, Some("")) }
    fn i06q_hash_opaque [14] { make::<2>(OPAQUE, "x", None, Some("")) }
    fn i06q_slash [14] { make::<2>(BARE, "/", None, None) }
    fn i06q_slash_deep [16] { make::<2>(BARE, "/x/", None, None) }
    fn i06q_slash_http [18] { make::<2>(HTTP, "/", None, None) }
    fn i06q_slash_opaque [14] { make::<2>(OPAQUE, "x/", None, None) }
    fn i06q_any_hash [16] { make_under::<2>(BARE, None, Some(""), false) }
    fn i06q_any_hash_query [16] { make_under::<2>(BARE, Some("/"), Some(""), false) }
    fn i06q_any_slash [16] { make_under::<2>(BARE, None, None, true) }
    fn i06q_any_slash_http [20] { make_under::<2>(HTTP, None, None, true) }
    fn i06q_any_slash_other [20] { make_under::<2>(OTHER, None, None, true) }
    fn i06q_slashes [16] { make::<2>(BARE, "/x//", None, None) }
    fn i06q_slashes_http [20] { make::<2>(HTTP, "//", None, None) }
    fn i06q_any_not_ns [14] { make_none_under(BARE, None) }
    fn i06q_any_not_ns_query [14] { make_none_under(BARE, Some("/")) }
    fn i06q_not_ns_path [12] { make_none(BARE, "/x", None) }
    fn i06q_not_ns_query [12] { make_none(BARE, "/", Some("q")) }
    fn i06q_not_ns_opaque [12] { make_none(OPAQUE, "x", None) }

    // I07
    fn i07q_hash [12] { round_trip::<2>(BARE, "/", None, Some("")) }
    fn i07q_hash_query [14] { round_trip::<2>(BARE, "/", Some("q"), Some("")) }
    fn i07q_slash [14] { round_trip::<2>(BARE, "/", None, None) }
    fn i07q_slashes [16] { round_trip::<2>(BARE, "/x//", None, None) }
    fn i07q_slash_deep [16] { round_trip::<2>(BARE, "/x/", None, None) }
    fn i07q_slash_http [20] { round_trip::<2>(HTTP, "/", None, None) }
    fn i07q_slash_opaque [14] { round_trip::<2>(OPAQUE, "x/", None, None) }
    fn i07q_unsplit_path_2_k2 [12] { unsplit_path(BARE, 2, 2) }
    fn i07q_unsplit_path_3_k3 [12] { unsplit_path(BARE, 3, 3) }
    fn i07q_unsplit_path_4_k2 [12] { unsplit_path(BARE, 4, 2) }
    fn i07q_unsplit_fragment [12] { unsplit_fragment::<2>(BARE, "/") }
    fn i07q_unsplit_opaque [12] { unsplit_opaque(3, 2) }

    // I09
    fn i09q_iri [12] { iriref_iri() }
    fn i09q_iri_fragment [14] { iriref_show(Some("q"), Some("f")) }
    fn i09q_iri_hash [14] { iriref_show(None, Some("")) }
    fn i09q_name [12] { iriref_name() }
    fn i09q_namespace [12] { iriref_namespace() }

    // I10
    fn i10q_same [10] { iri_order::<2, 2>(None, None) }
    fn i10q_len [10] { iri_order::<1, 2>(None, None) }
    fn i10q_fragment [12] { iri_order::<1, 1>(None, Some("")) }
}

// ------------------------------------------------------------------------------------------------
// I08: genid
// ------------------------------------------------------------------------------------------------

/// The identifier drawn by the next `genid`: 16 arbitrary bytes.
#[cfg(kani)]
static mut DRAWN: [u8; 16] = [0x5a; 16];

#[cfg(kani)]
fn drawn() -> uuid::Uuid {
    uuid::Uuid::from_bytes(unsafe { DRAWN })
}

const EVERY: [usize; 16] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];

fn draw(symbolic: &[usize]) -> [u8; 16] {
    let mut b = [0x5au8; 16];
    let mut i = 0;
    while i < symbolic.len() {
        b[symbolic[i]] = kani::any();
        i += 1;
    }
    #[cfg(kani)]
    unsafe {
        DRAWN = b;
    }
    b
}

harnesses! {
    [ALL_GENID]
    #[cfg_attr(kani, kani::stub(uuid::Uuid::new_v4, drawn))]
    fn i08q_bare [66] { genid(BARE, None, None, &EVERY) }
    #[cfg_attr(kani, kani::stub(uuid::Uuid::new_v4, drawn))]
    fn i08q_fragment [66] { genid(BARE, None, Some("f"), &EVERY) }
    #[cfg_attr(kani, kani::stub(uuid::Uuid::new_v4, drawn))]
    fn i08q_http [72] { genid(HTTP, Some("q"), Some("f"), &EVERY) }
    #[cfg_attr(kani, kani::stub(uuid::Uuid::new_v4, drawn))]
    fn i08q_other [72] { genid(OTHER, Some(""), Some(""), &EVERY) }
    #[cfg_attr(kani, kani::stub(uuid::Uuid::new_v4, drawn))]
    fn i08q_query [72] { genid(BARE, Some("q"), None, &EVERY) }
    #[cfg_attr(kani, kani::stub(uuid::Uuid::new_v4, drawn))]
    fn i08q_opaque [20] { genid_opaque() }
}

/// The generated IRI: scheme and server of the base, the well-known path, the 32 digits of a
/// fresh UUID, nothing else.
fn genid(base: Base, q: Option<&str>, f: Option<&str>, symbolic: &[usize]) {
    let p = rooted::<2>();
    let u = iri(base, text(&p[..3]), q, f);
    let id = draw(symbolic);
    match u.genid() {
        Err(_) => panic!("I08: no identifier under a base with a path"),
        Ok(g) => {
            let t = iri_text(&g).as_bytes();
            let start = base.0.len();
            let fixed = b"/.well-known/genid/";
            let n = start + fixed.len();
            assert!(t.len() == n + 32, "I08: length");
            assert!(same_bytes(&t[..start], base.0.as_bytes()), "I08: another scheme or server");
            assert!(same_bytes(&t[start..n], fixed), "I08: not a well-known genid path");
            let mut i = 0;
            while i < 32 {
                let d = t[n + i];
                assert!((d >= b'0' && d <= b'9') || (d >= b'a' && d <= b'f'), "I08: not a UUID in lower-case hex");
                #[cfg(kani)]
                {
                    let x = if i % 2 == 0 { id[i / 2] >> 4 } else { id[i / 2] & 15 };
                    let want = if x < 10 { b'0' + x } else { b'a' + (x - 10) };
                    assert!(d == want, "I08: the identifier is not the UUID drawn");
                }
                i += 1;
            }
            assert!(iri_url(&g).query().is_none() && iri_url(&g).fragment().is_none(), "I08: query or fragment kept");
        }
    }
    // (natively the identifiers are the real generator's: two of them differ)
    #[cfg(not(kani))]
    assert!(u.genid().unwrap() != u.genid().unwrap(), "I08: the same identifier twice");
    let _ = id;
    witness!(true);
}

fn genid_opaque() {
    let p = opaque_at(2, 0);
    let u = iri(OPAQUE, text(&p[..2]), None, None);
    let _ = draw(&[]);
    assert!(u.genid().is_err(), "I08: an identifier under an opaque base");
    witness!(true);
}

// ------------------------------------------------------------------------------------------------
// I01: text forms
// ------------------------------------------------------------------------------------------------

fn is_bracketed(shown: &str, inner: &str) -> bool {
    let n = shown.len();
    n >= 2
        && shown.as_bytes()[0] == b'<'
        && shown.as_bytes()[n - 1] == b'>'
        && same_bytes(&shown.as_bytes()[1..n - 1], inner.as_bytes())
}

fn display_check(u: &Iri, whole: &str) {
    assert!(same(iri_text(u), whole), "I01: the IRI text");
    assert!(same(<Iri as AsRef<str>>::as_ref(u), whole), "I01: AsRef<str>");
    assert!(is_bracketed(&format!("{}", u), whole), "I01: Display is not <text>");
    assert!(same(&format!("{:#}", u), whole), "I01: alternate Display is not the bare text");
    witness!(true);
}

fn display(base: Base, n: usize, q: Option<&str>, f: Option<&str>) {
    let b = rooted::<2>();
    let path = text(&b[..n + 1]);
    let u = iri(base, path, q, f);
    let mut w = Buf::new().add(base.0).add(path);
    if let Some(q) = q {
        w = w.add("?").add(q);
    }
    if let Some(f) = f {
        w = w.add("#").add(f);
    }
    display_check(&u, w.get());
}

fn display_opaque<const N: usize>() {
    let b = ascii_array::<N>();
    kani::assume(b[0] != b'/');
    let u = iri(OPAQUE, text(&b), None, None);
    display_check(&u, Buf::new().add("a:").add(text(&b)).get());
}

/// Parsing any text gives exactly what the URL parser makes of it, or of its inside when the
/// whole text is bracketed.
fn parse<const N: usize>() {
    let b = ascii_array::<N>();
    let s = text(&b);
    let bracketed = N >= 2 && b[0] == b'<' && b[N - 1] == b'>';
    kani::assume(!bracketed);
    parser_is_abstract();
    let want = url::Url::parse(s);
    let got = Iri::from_str(s);
    match (&got, &want) {
        (Ok(g), Ok(w)) => assert!(same(iri_text(g), w.as_str()), "I01: parsed to another IRI"),
        (Err(g), Err(w)) => assert!(g == w, "I01: another error"),
        _ => panic!("I01: accepted and rejected texts differ from the URL parser's"),
    }
    match Iri::try_from(s) {
        Ok(t) => assert!(matches!(&got, Ok(g) if *g == t), "I01: TryFrom<&str> and FromStr differ"),
        Err(_) => assert!(got.is_err(), "I01: TryFrom<&str> and FromStr differ"),
    }
    witness!(got.is_ok());
    witness!(got.is_err());
}

/// `<text>` parses as `text` does.
fn parse_angle<const N: usize, const M: usize>() {
    let mut b = [0u8; M];
    let inner = ascii_array::<N>();
    b[0] = b'<';
    b[M - 1] = b'>';
    let mut i = 0;
    while i < N {
        b[i + 1] = inner[i];
        i += 1;
    }
    parser_is_abstract();
    let want = url::Url::parse(text(&inner));
    let got = Iri::from_str(text(&b));
    match (&got, &want) {
        (Ok(g), Ok(w)) => assert!(same(iri_text(g), w.as_str()), "I01: brackets change the IRI"),
        (Err(g), Err(w)) => assert!(g == w, "I01: brackets change the error"),
        _ => panic!("I01: brackets change what is accepted"),
    }
    witness!(got.is_ok());
    witness!(got.is_err());
}

fn convert() {
    let b = rooted::<2>();
    let u = url(BARE, text(&b[..3]), None, Some("f"));
    let i = Iri::from(&u);
    assert!(*iri_url(&i) == u, "I01: From<&Url>");
    assert!(Iri::from(u.clone()) == i, "I01: From<Url>");
    assert!(url::Url::from(&i) == u, "I01: Url from &Iri");
    let mut j = i.clone();
    let m: &mut url::Url = j.as_mut();
    assert!(*m == u, "I01: AsMut<Url>");
    m.set_fragment(None);
    assert!(j == i.with_no_fragment(), "I01: AsMut<Url> edits a copy");
    assert!(url::Url::from(i) == u, "I01: Url from Iri");
    witness!(true);
}

// ------------------------------------------------------------------------------------------------
// I02: updating one component
// ------------------------------------------------------------------------------------------------

fn components(u: &Iri, base: Base, path: &str, q: Option<&str>, f: Option<&str>) -> bool {
    let w = iri_url(u);
    let mut whole = Buf::new().add(base.0).add(path);
    if let Some(q) = q {
        whole = whole.add("?").add(q);
    }
    if let Some(f) = f {
        whole = whole.add("#").add(f);
    }
    same(w.path(), path)
        && opt_same(w.query(), q)
        && opt_same(w.fragment(), f)
        && same(w.as_str(), whole.get())
}

fn with_path(base: Base, q: Option<&str>, f: Option<&str>) {
    let old = rooted::<1>();
    let new = rooted::<2>();
    let u = iri(base, text(&old[..2]), q, f);
    // the new path is one the parser leaves alone
    let _ = url(base, text(&new[..3]), None, None);
    let v = u.with_new_path(text(&new[..3]));
    assert!(components(&v, base, text(&new[..3]), q, f), "I02: with_new_path");
    assert!(components(&u, base, text(&old[..2]), q, f), "I02: with_new_path changed its receiver");
    witness!(true);
}

fn with_fragment(base: Base, q: Option<&str>, f: Option<&str>) {
    let p = rooted::<1>();
    let path = text(&p[..2]);
    let u = iri(base, path, q, f);
    let new = ascii_array::<2>();
    let _ = url(BARE, "/", None, Some(text(&new)));
    let v = u.with_new_fragment(text(&new));
    assert!(components(&v, base, path, q, Some(text(&new))), "I02: with_new_fragment");
    assert!(components(&u.with_empty_fragment(), base, path, q, Some("")), "I02: with_empty_fragment");
    assert!(components(&u.with_no_fragment(), base, path, q, None), "I02: with_no_fragment");
    assert!(components(&u, base, path, q, f), "I02: the receiver changed");
    witness!(true);
}

fn with_fragment_opaque() {
    let p = ascii_array::<2>();
    kani::assume(p[0] != b'/');
    let path = text(&p);
    let u = iri(OPAQUE, path, None, None);
    let new = ascii_array::<2>();
    let _ = url(BARE, "/", None, Some(text(&new)));
    let v = u.with_new_fragment(text(&new));
    assert!(components(&v, OPAQUE, path, None, Some(text(&new))), "I02: with_new_fragment");
    assert!(components(&v.with_empty_fragment(), OPAQUE, path, None, Some("")), "I02: with_empty_fragment");
    assert!(components(&v.with_no_fragment(), OPAQUE, path, None, None), "I02: with_no_fragment");
    witness!(true);
}

// ------------------------------------------------------------------------------------------------
// I03
// ------------------------------------------------------------------------------------------------

fn looks(base: Base, q: Option<&str>, f: Option<&str>) {
    let b = rooted::<3>();
    let u = iri(base, text(&b[..4]), q, f);
    let empty = match f {
        Some(f) => f.is_empty(),
        None => false,
    };
    let want = empty || (b[3] == b'/' && q.is_none());
    assert!(u.looks_like_namespace() == want, "I03: looks_like_namespace");
    // the shortest path
    let r = iri(base, "/", q, f);
    assert!(r.looks_like_namespace() == (empty || q.is_none()), "I03: looks_like_namespace of /");
    witness!(b[3] == b'/');
    witness!(b[3] != b'/');
}

fn looks_opaque() {
    let p = ascii_array::<3>();
    kani::assume(p[0] != b'/');
    let u = iri(OPAQUE, text(&p), None, None);
    assert!(u.looks_like_namespace() == (p[2] == b'/'), "I03: looks_like_namespace");
    let v = iri(OPAQUE, text(&p), None, Some(""));
    assert!(v.looks_like_namespace(), "I03: looks_like_namespace");
    witness!(p[2] == b'/');
}

// ------------------------------------------------------------------------------------------------
// I04: split
// ------------------------------------------------------------------------------------------------

/// Split must give exactly (`ns`, `name`), both as text, or nothing.
fn split_is(u: &Iri, want: Option<(&str, &str)>) {
    match (u.split(), want) {
        (None, None) => {}
        (Some(_), None) => panic!("I04: split an IRI which is not a namespaced name"),
        (None, Some(_)) => panic!("I04: did not split a namespaced name"),
        (Some((ns, name)), Some((a, b))) => {
            assert!(same(name.as_ref(), b), "I04: the name is not the last component");
            assert!(same(iri_text(&ns), a), "I04: the namespace is not the rest of the IRI");
        }
    }
}

fn last_slash(p: &[u8]) -> usize {
    let mut i = p.len();
    while i > 0 {
        i -= 1;
        if p[i] == b'/' {
            return i;
        }
    }
    p.len()
}

fn is_local_text(b: &[u8]) -> bool {
    let mut cs = [0u32; 12];
    let mut i = 0;
    while i < b.len() {
        cs[i] = b[i] as u32;
        i += 1;
    }
    is_pn_local(&cs[..b.len()])
}

/// The last '/' of the path is `k` bytes from its end (1..=N+1).
fn split_path<const N: usize>(base: Base, q: Option<&str>, f: Option<&str>, k: usize) {
    let b = rooted_at(N + 1, k);
    let p = &b[..N + 1];
    let u = iri(base, text(p), q, f);
    let at = N + 1 - k;
    let yes = q.is_none() && f.is_none() && is_local_text(&p[at + 1..]);
    let ns = Buf::new().add(base.0).add(text(&p[..at + 1]));
    split_is(&u, if yes { Some((ns.get(), text(&p[at + 1..]))) } else { None });
    witness!(yes || k == 1 || q.is_some() || f.is_some());
    witness!(!yes);
}

fn split_fragment<const N: usize>(base: Base, path: &str, q: Option<&str>) {
    let b = ascii_array::<N>();
    let u = iri(base, path, q, Some(text(&b)));
    let yes = is_local_text(&b);
    let mut ns = Buf::new().add(base.0).add(path);
    if let Some(q) = q {
        ns = ns.add("?").add(q);
    }
    ns = ns.add("#");
    split_is(&u, if yes { Some((ns.get(), text(&b))) } else { None });
    witness!(yes);
    witness!(!yes);
}

fn split_opaque<const N: usize>(f: Option<&str>, k: usize) {
    let b = opaque_at(N, k);
    let p = &b[..N];
    let u = iri(OPAQUE, text(p), None, f);
    let at = N - k;
    let yes = f.is_none() && k > 0 && is_local_text(&p[at + 1..]);
    let ns = Buf::new().add("a:").add(if yes { text(&p[..at + 1]) } else { "" });
    split_is(&u, if yes { Some((ns.get(), text(&p[at + 1..]))) } else { None });
    witness!(yes || k < 2 || f.is_some());
    witness!(!yes);
}

// ------------------------------------------------------------------------------------------------
// I05: the projections
// ------------------------------------------------------------------------------------------------

fn projections(u: &Iri, ns: &str, name: &str) {
    match u.namespace() {
        None => panic!("I05: a namespaced name has no namespace()"),
        Some(x) => assert!(same(iri_text(&x), ns), "I05: namespace() is not split().0"),
    }
    match u.name() {
        None => panic!("I05: a namespaced name has no name()"),
        Some(x) => assert!(same(x.as_ref(), name), "I05: name() is not split().1"),
    }
    witness!(true);
}

fn projections_none(u: &Iri) {
    assert!(u.namespace().is_none(), "I05: namespace() of an unsplittable IRI");
    assert!(u.name().is_none(), "I05: name() of an unsplittable IRI");
    witness!(true);
}

/// A path whose last segment is (not) a name.
fn projected_path<const N: usize>(yes: bool) -> ([u8; 12], Iri) {
    let b = rooted_at(N + 1, N + 1);
    kani::assume(is_local_text(&b[1..N + 1]) == yes);
    let u = iri(BARE, text(&b[..N + 1]), None, None);
    (b, u)
}

fn projections_path<const N: usize>() {
    let (b, u) = projected_path::<N>(true);
    projections(&u, "a:/", text(&b[1..N + 1]));
}

fn projections_path_none<const N: usize>() {
    projections_none(&projected_path::<N>(false).1);
}

fn projected_fragment<const N: usize>(yes: bool) -> ([u8; N], Iri) {
    let b = ascii_array::<N>();
    kani::assume(is_local_text(&b) == yes);
    let u = iri(BARE, "/", Some("q"), Some(text(&b)));
    (b, u)
}

fn projections_fragment<const N: usize>() {
    let (b, u) = projected_fragment::<N>(true);
    projections(&u, "a:/?q#", text(&b));
}

fn projections_fragment_none<const N: usize>() {
    projections_none(&projected_fragment::<N>(false).1);
}

fn projected_opaque<const N: usize>(yes: bool, k: usize) -> ([u8; 12], Iri) {
    let b = opaque_at(N, k);
    kani::assume((k > 0 && is_local_text(&b[N - k + 1..N])) == yes);
    let u = iri(OPAQUE, text(&b[..N]), None, None);
    (b, u)
}

fn projections_opaque<const N: usize>(k: usize) {
    let (b, u) = projected_opaque::<N>(true, k);
    let ns = Buf::new().add("a:").add(text(&b[..N - k + 1]));
    projections(&u, ns.get(), text(&b[N - k + 1..N]));
}

fn projections_opaque_none<const N: usize>(k: usize) {
    projections_none(&projected_opaque::<N>(false, k).1);
}

fn projections_query() {
    let b = rooted::<2>();
    projections_none(&iri(BARE, text(&b[..3]), Some("q"), None));
    projections_none(&iri(BARE, text(&b[..3]), None, Some("")));
}

// ------------------------------------------------------------------------------------------------
// I06: make_name
// ------------------------------------------------------------------------------------------------

fn make<const N: usize>(base: Base, path: &str, q: Option<&str>, f: Option<&str>) {
    let b = ascii_array::<N>();
    let n = any_name(&b);
    let ns = iri(base, path, q, f);
    match ns.make_name(n) {
        None => panic!("I06: a namespace refused a name"),
        Some(j) => {
            let want = Buf::new().add(iri_text(&ns)).add(text(&b));
            assert!(same(iri_text(&j), want.get()), "I06: make_name is not namespace then name");
            if f.is_some() {
                assert!(components(&j, base, path, q, Some(text(&b))), "I06: components");
            } else {
                let p = Buf::new().add(path).add(text(&b));
                assert!(components(&j, base, p.get(), q, None), "I06: components");
            }
        }
    }
    witness!(true);
}

/// Any path of this length (ending with '/' if `slash`).
fn make_under<const N: usize>(base: Base, q: Option<&str>, f: Option<&str>, slash: bool) {
    let mut p = rooted::<3>();
    if slash {
        p[3] = b'/';
    }
    make::<N>(base, text(&p[..4]), q, f)
}

/// Any path of this length which does not end with '/'.
fn make_none_under(base: Base, q: Option<&str>) {
    let p = rooted::<3>();
    kani::assume(p[3] != b'/');
    make_none(base, text(&p[..4]), q)
}

fn make_none(base: Base, path: &str, q: Option<&str>) {
    let b = ascii_array::<2>();
    let ns = iri(base, path, q, None);
    assert!(ns.make_name(any_name(&b)).is_none(), "I06: a name was added to a non-namespace");
    witness!(true);
}

// ------------------------------------------------------------------------------------------------
// I07: split and make_name are inverse
// ------------------------------------------------------------------------------------------------

// Each round trip is decided in two steps joined at a cut: the first call must give exactly the
// expected IRI (same text, hence the same value), and the second call starts from that IRI built
// afresh. Otherwise the solver has to carry every intermediate heap string through both.

fn made(base: Base, path: &str, q: Option<&str>, f: Option<&str>, b: &[u8]) -> Iri {
    if f.is_some() {
        iri(base, path, q, Some(text(b)))
    } else {
        iri(base, Buf::new().add(path).add(text(b)).get(), q, None)
    }
}

fn round_trip<const N: usize>(base: Base, path: &str, q: Option<&str>, f: Option<&str>) {
    let b = ascii_array::<N>();
    let n = any_name(&b);
    let ns = iri(base, path, q, f);
    slash_at(if f.is_none() { N + 1 } else { 0 });
    let cut = made(base, path, q, f, &b);
    match ns.make_name(n) {
        None => panic!("I07: a namespace refused a name"),
        Some(j) => assert!(same(iri_text(&j), iri_text(&cut)), "I07: make_name gives another IRI"),
    }
    match cut.split() {
        None => panic!("I07: a made name does not split"),
        Some((i2, n2)) => {
            assert!(same(iri_text(&i2), iri_text(&ns)), "I07: make_name then split gives another namespace");
            assert!(same(n2.as_ref(), text(&b)), "I07: make_name then split gives another name");
            assert!(i2.looks_like_namespace(), "I07: split off a non-namespace");
        }
    }
    witness!(true);
}

fn unsplit(u: &Iri, cut: &Iri, name: &[u8]) {
    match u.split() {
        None => panic!("I07: a namespaced name does not split"),
        Some((ns, n)) => {
            assert!(same(iri_text(&ns), iri_text(cut)), "I07: split gives another namespace");
            assert!(same(n.as_ref(), text(name)), "I07: split gives another name");
        }
    }
    assert!(cut.looks_like_namespace(), "I07: split gives a non-namespace");
    match cut.make_name(Name::new_unchecked(text(name))) {
        None => panic!("I07: the namespace of a split refuses its name"),
        Some(v) => assert!(same(iri_text(&v), iri_text(u)), "I07: split then make_name gives another IRI"),
    }
    witness!(true);
}

fn unsplit_path(base: Base, n: usize, k: usize) {
    let b = rooted_at(n, k);
    kani::assume(is_local_text(&b[n - k + 1..n]));
    let cut = iri(base, text(&b[..n - k + 1]), None, None);
    unsplit(&iri(base, text(&b[..n]), None, None), &cut, &b[n - k + 1..n]);
}

fn unsplit_fragment<const N: usize>(base: Base, path: &str) {
    let b = ascii_array::<N>();
    kani::assume(is_local_text(&b));
    let cut = iri(base, path, None, Some(""));
    unsplit(&iri(base, path, None, Some(text(&b))), &cut, &b);
}

fn unsplit_opaque(n: usize, k: usize) {
    let b = opaque_at(n, k);
    kani::assume(is_local_text(&b[n - k + 1..n]));
    let cut = iri(OPAQUE, text(&b[..n - k + 1]), None, None);
    unsplit(&iri(OPAQUE, text(&b[..n]), None, None), &cut, &b[n - k + 1..n]);
}

// ------------------------------------------------------------------------------------------------
// I09: IriRef
// ------------------------------------------------------------------------------------------------

fn iriref_iri() {
    let b = rooted::<2>();
    let u = iri(BARE, text(&b[..3]), None, None);
    let r = IriRef::from(&u);
    assert!(r.is_iri() && !r.is_prefixed_name(), "I09: variant");
    assert!(is_bracketed(&r.to_string(), iri_text(&u)), "I09: IriRef::Iri Display");
    assert!(r == IriRef::from(u.clone()), "I09: from Iri and &Iri differ");
    match r.try_as_iri() {
        Some(v) => assert!(v == u, "I09: another IRI"),
        None => panic!("I09: the IRI is lost"),
    }
    witness!(true);
}

fn iriref_show(q: Option<&str>, f: Option<&str>) {
    let b = rooted::<2>();
    let u = iri(BARE, text(&b[..3]), q, f);
    let r = IriRef::from(&u);
    assert!(is_bracketed(&format!("{}", r), iri_text(&u)), "I09: IriRef::Iri Display");
    assert!(same(&format!("{:#}", r), iri_text(&u)), "I09: IriRef::Iri alternate Display");
    witness!(true);
}

fn iriref_namespace() {
    let a = ascii_array::<2>();
    let p = PrefixedName::from(any_namespace(&a));
    let r = IriRef::from(&p);
    assert!(r.is_prefixed_name() && !r.is_iri(), "I09: variant");
    assert!(same(&format!("{}", r), text(&a)), "I09: IriRef::PrefixedName Display");
    assert!(same(&format!("{:#}", r), text(&a)), "I09: IriRef::PrefixedName alternate Display");
    witness!(true);
}

fn iriref_name() {
    let a = ascii_array::<2>();
    let b = ascii_array::<2>();
    let l = LocalName::new(any_namespace(&a), any_name(&b));
    let p = PrefixedName::from(l);
    let r = IriRef::from(&p);
    assert!(r.is_prefixed_name() && !r.is_iri(), "I09: variant");
    assert!(is_concat2(&r.to_string(), &a, &b), "I09: IriRef::PrefixedName Display");
    assert!(r == IriRef::from(p.clone()), "I09: from PrefixedName and &PrefixedName differ");
    match r.try_as_prefixed_name() {
        Some(v) => assert!(v == p, "I09: another name"),
        None => panic!("I09: the name is lost"),
    }
    witness!(true);
}

// ------------------------------------------------------------------------------------------------
// I10: comparison
// ------------------------------------------------------------------------------------------------

fn iri_order<const A: usize, const B: usize>(f: Option<&str>, g: Option<&str>) {
    let a = rooted::<A>();
    let b = rooted::<B>();
    let x = iri(BARE, text(&a[..A + 1]), None, f);
    let y = iri(BARE, text(&b[..B + 1]), None, g);
    let want = order(iri_text(&x).as_bytes(), iri_text(&y).as_bytes());
    assert!((x == y) == (want == 0), "I10: Iri equality is not text equality");
    assert!(sign(x.cmp(&y)) == want, "I10: Iri order is not text order");
    assert!(x.partial_cmp(&y) == Some(x.cmp(&y)), "I10: Iri partial order");
    if x == y {
        assert!(fnv(&x) == fnv(&y), "I10: equal IRIs hash differently");
    }
    let same_ref = IriRef::from(&x) == IriRef::from(&y);
    assert!(same_ref == (want == 0), "I10: IriRef equality is not IRI equality");
    witness!(want < 0);
    witness!(want > 0);
}
