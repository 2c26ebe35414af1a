//! IriPrefixMap (properties M..).
use super::names::any_name;
use super::support::*;
use rdftk_iri::{Iri, IriPrefixMap, IriRef, LocalName, Namespace, Vocabulary};

/// One step of a history; its operands are symbolic.
#[derive(Clone, Copy, PartialEq)]
enum Op {
    /// insert(any prefix, any IRI)
    Put,
    /// remove(any prefix)
    Del,
    /// set_default_namespace(any IRI)
    SetDefault,
    /// insert(the default prefix, any IRI)
    PutDefault,
    /// remove_default_namespace()
    DelDefault,
    /// remove(the default prefix)
    RemoveDefault,
    /// clear()
    Clear,
}
use Op::*;

/// The reference: what the mappings are after a history. Prefixes are letters (0: the default
/// prefix), IRIs are the letter in them.
struct Ref {
    k: [u8; 6],
    v: [u8; 6],
    live: [bool; 6],
    n: usize,
}

impl Ref {
    fn new() -> Ref {
        Ref { k: [0; 6], v: [0; 6], live: [false; 6], n: 0 }
    }
    fn put(&mut self, k: u8, v: u8) {
        let mut i = 0;
        while i < self.n {
            if self.k[i] == k || self.v[i] == v {
                self.live[i] = false;
            }
            i += 1;
        }
        self.k[self.n] = k;
        self.v[self.n] = v;
        self.live[self.n] = true;
        self.n += 1;
    }
    fn del(&mut self, k: u8) {
        let mut i = 0;
        while i < self.n {
            if self.k[i] == k {
                self.live[i] = false;
            }
            i += 1;
        }
    }
    fn get(&self, k: u8) -> Option<u8> {
        let mut i = 0;
        while i < self.n {
            if self.live[i] && self.k[i] == k {
                return Some(self.v[i]);
            }
            i += 1;
        }
        None
    }
    /// Which insertion (from 1) is the live mapping of `k`; 0: none.
    fn slot(&self, k: u8) -> usize {
        let mut i = 0;
        while i < self.n {
            if self.live[i] && self.k[i] == k {
                return i + 1;
            }
            i += 1;
        }
        0
    }
    fn prefix(&self, v: u8) -> Option<u8> {
        let mut i = 0;
        while i < self.n {
            if self.live[i] && self.v[i] == v {
                return Some(self.k[i]);
            }
            i += 1;
        }
        None
    }
    fn len(&self) -> usize {
        let mut c = 0;
        let mut i = 0;
        while i < self.n {
            if self.live[i] {
                c += 1;
            }
            i += 1;
        }
        c
    }
}

fn letter() -> u8 {
    let b = ascii();
    #[cfg(not(kani))]
    let b = if kani::is_random() { [b'a', b'b', b'A', b'B'][b as usize % 4] } else { b };
    kani::assume((b >= b'a' && b <= b'z') || (b >= b'A' && b <= b'Z'));
    b
}

/// The prefix `k:`.
fn ns(k: u8) -> Namespace {
    Namespace::new_unchecked(text(&[k, b':']))
}

/// The IRI `a:/v#`.
fn at(v: u8) -> Iri {
    iri(BARE, text(&[b'/', v]), None, Some(""))
}

fn letter_of(i: &Iri) -> u8 {
    let t = iri_text(i).as_bytes();
    assert!(t.len() == 5 && t[0] == b'a' && t[2] == b'/' && t[4] == b'#', "a stored IRI changed");
    t[3]
}

fn prefix_of(n: &Namespace) -> u8 {
    let t: &str = n.as_ref();
    let t = t.as_bytes();
    if t.len() == 1 {
        assert!(t[0] == b':', "a stored prefix changed");
        0
    } else {
        assert!(t.len() == 2 && t[1] == b':', "a stored prefix changed");
        t[0]
    }
}

fn run(m: &mut IriPrefixMap, r: &mut Ref, op: Op) {
    match op {
        Put => {
            let (k, v) = (letter(), letter());
            m.insert(ns(k), at(v));
            r.put(k, v);
        }
        Del => {
            let k = letter();
            m.remove(&ns(k));
            r.del(k);
        }
        SetDefault => {
            let v = letter();
            m.set_default_namespace(at(v));
            r.put(0, v);
        }
        PutDefault => {
            let v = letter();
            m.insert(Namespace::new_default(), at(v));
            r.put(0, v);
        }
        DelDefault => {
            m.remove_default_namespace();
            r.del(0);
        }
        RemoveDefault => {
            m.remove(&Namespace::new_default());
            r.del(0);
        }
        Clear => {
            m.clear();
            *r = Ref::new();
        }
    }
}

fn history(ops: &[Op]) -> (IriPrefixMap, Ref) {
    let mut m = IriPrefixMap::empty();
    let mut r = Ref::new();
    let mut i = 0;
    while i < ops.len() {
        run(&mut m, &mut r, ops[i]);
        i += 1;
    }
    (m, r)
}

/// Every lookup, either way, gives what the history says.
fn lookups(ops: &[Op]) {
    let (m, r) = history(ops);
    let q = letter();
    assert!(m.get_namespace(&ns(q)).map(letter_of) == r.get(q), "lookup by prefix");
    assert!(m.get_default_namespace().map(letter_of) == r.get(0), "lookup of the default prefix");
    let v = letter();
    assert!(m.get_prefix(&at(v)).map(prefix_of) == r.prefix(v), "lookup by IRI");
    witness!(r.get(q).is_some() || !ops.contains(&Put) || ops[ops.len() - 1] == Clear);
    witness!(r.get(q).is_none());
    core::mem::forget(m);
}

harnesses! {
    [ALL]
    // M01: bijection
    fn m01q_put_put [10] { bijection(&[Put, Put]) }
    fn m01q_put_put_put [10] { bijection(&[Put, Put, Put]) }
    fn m01q_put_default_put [10] { bijection(&[Put, SetDefault, Put]) }
    fn m01q_default_put_put [10] { bijection(&[SetDefault, Put, Put]) }
    fn m01q_put_del_put [10] { bijection(&[Put, Del, Put]) }

    // M02: last write wins
    fn m02q_put [10] { lookups(&[Put]) }
    fn m02q_put_put [10] { lookups(&[Put, Put]) }
    fn m02q_put_put_put [10] { lookups(&[Put, Put, Put]) }
    fn m02q_put_default_put [10] { lookups(&[Put, SetDefault, Put]) }
    fn m02q_default_default [10] { lookups(&[SetDefault, SetDefault]) }
    fn m02q_default_putdefault [10] { lookups(&[SetDefault, PutDefault]) }
    fn m02q_putdefault_default_put [10] { lookups(&[PutDefault, SetDefault, Put]) }

    // M03: removal
    fn m03q_put_del [10] { lookups(&[Put, Del]) }
    fn m03q_put_put_del [10] { lookups(&[Put, Put, Del]) }
    fn m03q_put_del_put [10] { lookups(&[Put, Del, Put]) }
    fn m03q_del_put [10] { lookups(&[Del, Put]) }
    fn m03q_put_default_deldefault [10] { lookups(&[Put, SetDefault, DelDefault]) }
    fn m03q_put_default_del [10] { lookups(&[Put, SetDefault, Del]) }
    fn m03q_put_putdefault_removedefault [10] { lookups(&[Put, PutDefault, RemoveDefault]) }
    fn m03q_put_deldefault [10] { lookups(&[Put, DelDefault]) }
    fn m03q_put_default_clear [10] { lookups(&[Put, SetDefault, Clear]) }
    fn m03q_put_clear_put [10] { lookups(&[Put, Clear, Put]) }
    fn m03t_put_del_put_del [10] { lookups(&[Put, Del, Put, Del]) }
    fn m03t_put_put_del_put [10] { lookups(&[Put, Put, Del, Put]) }
    fn m03t_put_default_del_put [10] { lookups(&[Put, SetDefault, Del, Put]) }
    fn m03t_put_default_deldefault_default [10] { lookups(&[Put, SetDefault, DelDefault, SetDefault]) }
    fn m02t_put_put_put_put [10] { lookups(&[Put, Put, Put, Put]) }
    fn m02t_put_default_put_default [10] { lookups(&[Put, SetDefault, Put, SetDefault]) }
    fn m01t_put_put_put_put [10] { bijection(&[Put, Put, Put, Put]) }
    fn m01t_put_default_put_default [10] { bijection(&[Put, SetDefault, Put, SetDefault]) }
    fn m01t_put_put_del_put [10] { bijection(&[Put, Put, Del, Put]) }

    // M04: expand
    fn m04q_hash_0 [12] { expand_hash(&[Put, Put], 0) }
    fn m04q_hash_1 [12] { expand_hash(&[Put, Put], 1) }
    fn m04q_hash_2 [12] { expand_hash(&[Put, Put], 2) }
    fn m04q_hash_default_0 [12] { expand_hash(&[SetDefault, Put], 0) }
    fn m04q_hash_default_2 [12] { expand_hash(&[SetDefault, Put], 2) }
    fn m04q_hash_removed_0 [12] { expand_hash(&[Put, Put, Del], 0) }
    fn m04q_hash_removed_1 [12] { expand_hash(&[Put, Put, Del], 1) }
    fn m04q_hash_removed_2 [12] { expand_hash(&[Put, Put, Del], 2) }
    fn m04q_default_0 [12] { expand_default(&[SetDefault, Put], 0) }
    fn m04q_default_1 [12] { expand_default(&[SetDefault, Put], 1) }
    fn m04q_default_2 [12] { expand_default(&[Put, SetDefault], 2) }
    fn m04q_default_none [12] { expand_default(&[Put], 0) }
    fn m04q_slash [14] { expand_one("/", None, None, true) }
    fn m04q_not_namespace [12] { expand_one("", None, None, false) }
    fn m04q_query [12] { expand_one("/", Some("q"), None, false) }
    fn m04q_fragment [14] { expand_fragment("/", None, "f") }
    fn m04q_fragment_path [14] { expand_fragment("x", Some("q"), "f") }
    fn m04q_slashes [14] { expand_one("//", None, None, true) }
    fn m04q_query_hash [14] { expand_one("/", Some("q"), Some(""), true) }
    fn m04t_hash_3_0 [12] { expand_hash(&[Put, Put, Put], 0) }
    fn m04t_hash_3_1 [12] { expand_hash(&[Put, Put, Put], 1) }
    fn m04t_hash_3_2 [12] { expand_hash(&[Put, Put, Put], 2) }
    fn m04t_hash_3_3 [12] { expand_hash(&[Put, Put, Put], 3) }

    // M05: compress
    fn m05q_hash [12] { compress_hash(&[Put, Put]) }
    fn m05q_default [12] { compress_hash(&[SetDefault]) }
    fn m05q_hash_removed [12] { compress_hash(&[Put, Put, Del]) }
    fn m05q_slash [12] { compress_slash() }
    fn m05q_bare_hash [12] { compress_bare("", Some("ab")) }
    fn m05q_bare_slash [12] { compress_bare("/ab", None) }
    fn m05q_slash_root [12] { compress_root() }
    fn m05q_slash_default [12] { compress_slash_default() }
    fn m05q_crossed [12] { compress_crossed() }
    fn m05q_none [12] { compress_none() }
    fn m05q_not_a_name [12] { compress_not_a_name() }
    fn m05t_hash_3 [12] { compress_hash(&[Put, Put, Put]) }

    // M06: compress_to_iriref
    fn m06q_some [12] { iriref_some() }
    fn m06q_unmapped [12] { iriref_unmapped() }
    fn m06q_not_a_name [12] { iriref_not_a_name() }
    fn m06q_bare_hash [12] { iriref_shape(BARE, "/", None, Some("")) }
    fn m06q_bare_slash [14] { iriref_shape(BARE, "/x/", None, None) }
    fn m06q_root [12] { iriref_shape(BARE, "/", None, None) }
    fn m06q_query [14] { iriref_shape(BARE, "/x", Some("q"), None) }
    fn m06q_query_empty [14] { iriref_shape(BARE, "/x", Some(""), None) }
    fn m06q_query_hash [14] { iriref_shape(BARE, "/x", Some("q"), Some("")) }
    fn m06q_query_fragment [14] { iriref_shape(BARE, "/x", Some("q"), Some("-")) }
    fn m06q_http [18] { iriref_shape(HTTP, "/", None, Some("")) }
    fn m06q_http_all [22] { iriref_shape(HTTP, "/x/", Some("q"), Some("f/")) }
    fn m06q_opaque [12] { iriref_shape(OPAQUE, "x:", None, None) }
    fn m06q_opaque_hash [12] { iriref_shape(OPAQUE, "x", None, Some("")) }

    // M07: size and iterators
    fn m07q_empty [10] { contents(&[]) }
    fn m07q_put_put [10] { contents(&[Put, Put]) }
    fn m07q_put_put_put [10] { contents(&[Put, Put, Put]) }
    fn m07q_put_default_put [10] { contents(&[Put, SetDefault, Put]) }
    fn m07q_put_put_del [10] { contents(&[Put, Put, Del]) }
    fn m07q_put_default_deldefault [10] { contents(&[Put, SetDefault, DelDefault]) }
    fn m07q_put_clear [10] { contents(&[Put, Clear]) }
    fn m07q_put [10] { contents(&[Put]) }
    fn m07q_default [10] { contents(&[SetDefault]) }
    fn m07q_putdefault [10] { contents(&[PutDefault]) }
    fn m07q_default_default [10] { contents(&[SetDefault, SetDefault]) }
    fn m07q_default_deldefault [10] { contents(&[SetDefault, DelDefault]) }
    fn m07q_default_removedefault [10] { contents(&[SetDefault, RemoveDefault]) }
    fn m07q_default_clear [10] { contents(&[SetDefault, Clear]) }
    fn m07q_put_del [10] { contents(&[Put, Del]) }
    fn m07q_put_default_del [10] { contents(&[Put, SetDefault, Del]) }
    fn m07t_put_put_default_del [10] { contents(&[Put, Put, SetDefault, Del]) }
    fn m07t_put_put_put_del [10] { contents(&[Put, Put, Put, Del]) }
    fn m07t_put_put_put_put [10] { contents(&[Put, Put, Put, Put]) }
    fn m07t_put_clear_put_put [10] { contents(&[Put, Clear, Put, Put]) }

    // M10: the text form
    fn m10q_empty [22] { shown(&[]) }
    fn m10q_put [36] { shown(&[Put]) }
    fn m10q_default [36] { shown(&[SetDefault]) }
    fn m10q_two [90] { shown_fixed(&[b'p', b'q']) }
    fn m10q_two_swapped [90] { shown_fixed(&[b'q', b'p']) }
    fn m10q_two_case [90] { shown_fixed(&[b'p', b'P']) }
    fn m10q_two_default [90] { shown_fixed(&[b'p', 0]) }
    fn m10t_three [90] { shown_fixed(&[b'q', b'p', 0]) }

    // M09: the consuming builders

    fn m09q_with [10] { builder_with() }
    fn m09q_with_default [10] { builder_default() }
    fn m09q_default_default [10] { builder_sequence(&[SetDefault, SetDefault]) }
    fn m09q_default_with [10] { builder_sequence(&[SetDefault, Put]) }
    fn m09q_default_with_default [10] { builder_sequence(&[SetDefault, Put, SetDefault]) }
    fn m09q_with_with_with [10] { builder_sequence(&[Put, Put, Put]) }
    fn m09q_vocabulary_over [12] { builder_vocabulary_over(Put) }
    fn m09q_vocabulary_over_default [12] { builder_vocabulary_over(SetDefault) }
    fn m09q_vocabulary [12] { builder_vocabulary() }
    fn m09q_equality [10] { equality() }
    fn m09q_clone [10] { cloned() }
}

/// Looking a prefix up and looking its IRI up are inverse, whatever the history.
fn bijection(ops: &[Op]) {
    let (m, _) = history(ops);
    let q = letter();
    let v = letter();
    let forth = match m.get_namespace(&ns(q)) {
        Some(i) => letter_of(i) == v,
        None => false,
    };
    let back = match m.get_prefix(&at(v)) {
        Some(n) => prefix_of(n) == q,
        None => false,
    };
    assert!(forth == back, "M01: the two directions disagree");
    let dv = match m.get_default_namespace() {
        Some(i) => letter_of(i) == v,
        None => false,
    };
    let dback = match m.get_prefix(&at(v)) {
        Some(n) => prefix_of(n) == 0,
        None => false,
    };
    assert!(dv == dback, "M01: the two directions disagree for the default prefix");
    witness!(forth);
    witness!(!forth);
    core::mem::forget(m);
}

// ------------------------------------------------------------------------------------------------
// M04: expand
// ------------------------------------------------------------------------------------------------

/// A name of two bytes, symbolic.
fn name2() -> [u8; 2] {
    let b = ascii_array::<2>();
    let _ = any_name(&b);
    b
}

fn expand_check(m: &IriPrefixMap, l: &LocalName, want: Option<u8>, n: &[u8; 2]) {
    match (m.expand(l), want) {
        (None, None) => {}
        (Some(_), None) => panic!("M04: expanded a name whose prefix is not mapped"),
        (None, Some(_)) => panic!("M04: a mapped name did not expand"),
        (Some(u), Some(v)) => {
            let w = Buf::new().add("a:/").add(text(&[v])).add("#").add(text(n));
            assert!(same(iri_text(&u), w.get()), "M04: expanded to another IRI");
        }
    }
}

/// The mapping found is the `hit`-th one inserted (0: none).
fn expand_hash(ops: &[Op], hit: usize) {
    let (m, r) = history(ops);
    let q = letter();
    expand_query(m, r, q, ns(q), hit)
}

fn expand_default(ops: &[Op], hit: usize) {
    let (m, r) = history(ops);
    expand_query(m, r, 0, Namespace::new_default(), hit)
}

fn expand_query(m: IriPrefixMap, r: Ref, q: u8, prefix: Namespace, hit: usize) {
    let n = name2();
    let l = LocalName::new(prefix, any_name(&n));
    kani::assume(r.slot(q) == hit);
    lookups_find(hit);
    expand_check(&m, &l, if hit == 0 { None } else { Some(r.v[hit - 1]) }, &n);
    witness!(true);
    core::mem::forget(m);
}

/// One mapping, to an IRI of another shape: `a:/v` then `tail`.
fn expand_one(tail: &str, query: Option<&str>, f: Option<&str>, yes: bool) {
    let (k, v) = (letter(), letter());
    let path = Buf::new().add("/").add(text(&[v])).add(tail);
    let base = iri(BARE, path.get(), query, f);
    let m = IriPrefixMap::empty().with(ns(k), base.clone());
    let n = name2();
    let w = Buf::new().add(iri_text(&base)).add(text(&n));
    lookups_find(1);
    match m.expand(&LocalName::new(ns(k), any_name(&n))) {
        None => assert!(!yes, "M04: a mapped name did not expand"),
        Some(u) => {
            assert!(yes, "M04: expanded through an IRI which is not a namespace");
            assert!(same(iri_text(&u), w.get()), "M04: expanded to another IRI");
        }
    }
    witness!(true);
    core::mem::forget(m);
}

/// A prefix mapped to an IRI with a fragment of its own: expansion is `make_name`, whatever that is.
fn expand_fragment(tail: &str, query: Option<&str>, f: &str) {
    let (k, v) = (letter(), letter());
    let path = Buf::new().add("/").add(text(&[v])).add(tail);
    let base = iri(BARE, path.get(), query, Some(f));
    let m = IriPrefixMap::empty().with(ns(k), base.clone());
    let n = name2();
    lookups_find(1);
    match (m.expand(&LocalName::new(ns(k), any_name(&n))), base.make_name(any_name(&n))) {
        (None, None) => {}
        (Some(a), Some(b)) => assert!(same(iri_text(&a), iri_text(&b)), "M04: expanded to another IRI"),
        _ => panic!("M04: expanding differs from making the name"),
    }
    witness!(true);
    core::mem::forget(m);
}

// ------------------------------------------------------------------------------------------------
// M05: compress
// ------------------------------------------------------------------------------------------------

fn compressed(got: Option<LocalName>, want: Option<u8>, n: &[u8]) {
    match (got, want) {
        (None, None) => {}
        (Some(_), None) => panic!("M05: compressed an IRI whose namespace is not mapped"),
        (None, Some(_)) => panic!("M05: a mapped IRI did not compress"),
        (Some(l), Some(k)) => {
            assert!(prefix_of(l.namespace()) == k, "M05: another prefix");
            assert!(same(l.name().as_ref(), text(n)), "M05: another name");
        }
    }
}

fn compress_hash(ops: &[Op]) {
    let (m, r) = history(ops);
    let v = letter();
    let n = name2();
    let u = iri(BARE, text(&[b'/', v]), None, Some(text(&n)));
    let want = r.prefix(v);
    compressed(m.compress(&u), want, &n);
    witness!(want.is_some());
    witness!(want.is_none());
    core::mem::forget(m);
}

fn compress_slash() {
    let (k, v) = (letter(), letter());
    let m = IriPrefixMap::empty().with(ns(k), iri(BARE, text(&[b'/', v, b'/']), None, None));
    let w = letter();
    let n = name2();
    let u = iri(BARE, text(&[b'/', w, b'/', n[0], n[1]]), None, None);
    slash_at(3);
    compressed(m.compress(&u), if w == v { Some(k) } else { None }, &n);
    witness!(w == v);
    witness!(w != v);
    core::mem::forget(m);
}

/// The mapped IRI is the namespace without its last character, so it is another one.
fn compress_bare(rest: &str, f: Option<&str>) {
    let (k, v) = (letter(), letter());
    let m = IriPrefixMap::empty().with(ns(k), iri(BARE, text(&[b'/', v]), None, None));
    let p = Buf::new().add("/").add(text(&[v])).add(rest);
    let u = iri(BARE, p.get(), None, f);
    assert!(m.compress(&u).is_none(), "M05: compressed under an IRI which is not its namespace");
    witness!(true);
    core::mem::forget(m);
}

/// A mapped root path.
fn compress_root() {
    let k = letter();
    let m = IriPrefixMap::empty().with(ns(k), iri(BARE, "/", None, None));
    let n = name2();
    let u = iri(BARE, text(&[b'/', n[0], n[1]]), None, None);
    slash_at(3);
    compressed(m.compress(&u), Some(k), &n);
    witness!(true);
    core::mem::forget(m);
}

fn compress_slash_default() {
    let v = letter();
    let m = IriPrefixMap::empty().with_default(iri(BARE, text(&[b'/', v, b'/']), None, None));
    let w = letter();
    let n = name2();
    let u = iri(BARE, text(&[b'/', w, b'/', n[0], n[1]]), None, None);
    slash_at(3);
    compressed(m.compress(&u), if w == v { Some(0) } else { None }, &n);
    witness!(w == v);
    witness!(w != v);
    core::mem::forget(m);
}

/// The '#' and the '/' namespace of the same path are two namespaces.
fn compress_crossed() {
    let (k, v) = (letter(), letter());
    let m = IriPrefixMap::empty().with(ns(k), at(v));
    let n = name2();
    let u = iri(BARE, text(&[b'/', v, b'/', n[0], n[1]]), None, None);
    slash_at(3);
    assert!(m.compress(&u).is_none(), "M05: compressed under an IRI which is not its namespace");
    witness!(true);
    core::mem::forget(m);
}

/// The namespace itself, and anything under it with more than a name left, is not compressed.
fn compress_none() {
    let (k, v) = (letter(), letter());
    let m = IriPrefixMap::empty().with(ns(k), at(v));
    assert!(m.compress(&at(v)).is_none(), "M05: compressed a bare namespace");
    let q = letter();
    assert!(
        m.compress(&iri(BARE, text(&[b'/', v]), Some(text(&[q])), None)).is_none(),
        "M05: compressed an IRI with a query"
    );
    witness!(true);
    core::mem::forget(m);
}

fn compress_not_a_name() {
    let (k, v) = (letter(), letter());
    let m = IriPrefixMap::empty().with(ns(k), at(v));
    let n = ascii_array::<2>();
    kani::assume(!is_pn_local(&widen(&n)));
    let u = iri(BARE, text(&[b'/', v]), None, Some(text(&n)));
    assert!(m.compress(&u).is_none(), "M05: compressed to something which is not a name");
    witness!(true);
    core::mem::forget(m);
}

// ------------------------------------------------------------------------------------------------
// M06: compress_to_iriref
// ------------------------------------------------------------------------------------------------

fn iriref_of(mapped: bool, n: &[u8; 2]) -> (u8, Iri, IriRef) {
    let (k, v) = (letter(), letter());
    let m = IriPrefixMap::empty().with(ns(k), at(v));
    let w = letter();
    kani::assume((w == v) == mapped);
    let u = iri(BARE, text(&[b'/', w]), None, Some(text(n)));
    let got = m.compress_to_iriref(&u);
    core::mem::forget(m);
    (k, u, got)
}

fn unchanged(u: &Iri, got: IriRef) {
    match got.try_as_iri() {
        None => panic!("M06: an IRI without a compressed form was changed"),
        Some(i) => assert!(same(iri_text(&i), iri_text(u)), "M06: another IRI"),
    }
    witness!(true);
}

fn iriref_some() {
    let n = name2();
    let (k, _, got) = iriref_of(true, &n);
    match got.try_as_prefixed_name() {
        None => panic!("M06: a mapped IRI was not compressed"),
        Some(p) => match p.try_as_local() {
            None => panic!("M06: compressed to a blank node"),
            Some(l) => compressed(Some(l), Some(k), &n),
        },
    }
    witness!(true);
}

fn iriref_unmapped() {
    let n = name2();
    let (_, u, got) = iriref_of(false, &n);
    unchanged(&u, got);
}

/// An IRI of the given shape under a map which maps it, or the namespace it might be confused
/// with, and nothing it splits into.
fn iriref_shape(base: Base, tail: &str, q: Option<&str>, f: Option<&str>) {
    let (k, v) = (letter(), letter());
    let c = letter();
    let path = if base.3 { Buf::new().add(text(&[c])).add(tail) } else { Buf::new().add("/").add(text(&[c])).add(tail) };
    let u = iri(base, path.get(), q, f);
    let w = if q.is_none() && f.is_none() { u.clone() } else { iri(base, path.get(), None, None) };
    let m = IriPrefixMap::empty().with(ns(k), w).with_default(at(v));
    let got = m.compress_to_iriref(&u);
    core::mem::forget(m);
    unchanged(&u, got);
}

fn iriref_not_a_name() {
    let n = ascii_array::<2>();
    kani::assume(!is_pn_local(&widen(&n)));
    let (_, u, got) = iriref_of(true, &n);
    unchanged(&u, got);
}

// ------------------------------------------------------------------------------------------------
// M07: size and iterators
// ------------------------------------------------------------------------------------------------

fn contents(ops: &[Op]) {
    let (m, r) = history(ops);
    let n = r.len();
    assert!(m.len() == n, "M07: len is not the number of mappings");
    assert!(m.is_empty() == (n == 0), "M07: is_empty");
    // every item is a mapping, and there are as many as mappings; no prefix or IRI twice
    let q = letter();
    let v = letter();
    let (mut all, mut with_q, mut with_v) = (0, 0, 0);
    for (k, i) in m.mappings() {
        let (k, i) = (prefix_of(k), letter_of(i));
        assert!(r.get(k) == Some(i), "M07: mappings() gives something that is not mapped");
        all += 1;
        with_q += (k == q) as usize;
        with_v += (i == v) as usize;
    }
    assert!(all == n && with_q == r.get(q).is_some() as usize && with_v == r.prefix(v).is_some() as usize,
        "M07: mappings() misses or repeats a mapping");
    let (mut all, mut with_q) = (0, 0);
    for k in m.prefixes() {
        all += 1;
        with_q += (prefix_of(k) == q) as usize;
    }
    assert!(all == n && with_q == r.get(q).is_some() as usize, "M07: prefixes()");
    let (mut all, mut with_v) = (0, 0);
    for i in m.iris() {
        all += 1;
        with_v += (letter_of(i) == v) as usize;
    }
    assert!(all == n && with_v == r.prefix(v).is_some() as usize, "M07: iris()");
    witness!(true);
    core::mem::forget(m);
}

// ------------------------------------------------------------------------------------------------
// M09: builders, equality
// ------------------------------------------------------------------------------------------------

fn pair_is(m: &IriPrefixMap, r: &Ref, what: &'static str) {
    let q = letter();
    let v = letter();
    assert!(m.len() == r.len(), "M09: a builder differs from its mutator");
    assert!(m.get_namespace(&ns(q)).map(letter_of) == r.get(q), "M09: a builder differs from its mutator");
    assert!(m.get_default_namespace().map(letter_of) == r.get(0), "M09: a builder differs from its mutator");
    assert!(m.get_prefix(&at(v)).map(prefix_of) == r.prefix(v), "M09: a builder differs from its mutator");
    let _ = what;
}

fn builder_with() {
    let mut r = Ref::new();
    let (a, b, c, d) = (letter(), letter(), letter(), letter());
    let m = IriPrefixMap::empty().with(ns(a), at(b)).with(ns(c), at(d));
    r.put(a, b);
    r.put(c, d);
    pair_is(&m, &r, "with");
    witness!(a == c);
    witness!(b == d);
    core::mem::forget(m);
}

fn builder_default() {
    let mut r = Ref::new();
    let (a, b, d) = (letter(), letter(), letter());
    let m = IriPrefixMap::empty().with(ns(a), at(b)).with_default(at(d));
    r.put(a, b);
    r.put(0, d);
    pair_is(&m, &r, "with_default");
    witness!(b == d);
    witness!(b != d);
    core::mem::forget(m);
}

/// A map built up by the consuming methods only.
fn builder_sequence(ops: &[Op]) {
    let mut m = IriPrefixMap::empty();
    let mut r = Ref::new();
    let mut i = 0;
    while i < ops.len() {
        let v = letter();
        if ops[i] == Put {
            let k = letter();
            m = m.with(ns(k), at(v));
            r.put(k, v);
        } else {
            m = m.with_default(at(v));
            r.put(0, v);
        }
        i += 1;
    }
    pair_is(&m, &r, "sequence");
    witness!(r.len() == 1);
    core::mem::forget(m);
}

/// A vocabulary added to a map with a mapping.
fn builder_vocabulary_over(op: Op) {
    let (mut m, mut r) = history(&[op]);
    let mut m2 = m.clone();
    let (k, v) = (letter(), letter());
    let voc = Vocabulary::new(leaked(&[k]), leaked(&[b'a', b':', b'/', v, b'#']));
    r.put(k, v);
    m = m.with_vocabulary(&voc);
    pair_is(&m, &r, "with_vocabulary");
    m2.insert_vocabulary(&voc);
    pair_is(&m2, &r, "insert_vocabulary");
    witness!(r.len() == 1);
    core::mem::forget((m, m2));
}

fn builder_vocabulary() {
    let (k, v) = (letter(), letter());
    let voc = Vocabulary::new(leaked(&[k]), leaked(&[b'a', b':', b'/', v, b'#']));
    let mut r = Ref::new();
    r.put(k, v);
    let m = IriPrefixMap::empty().with_vocabulary(&voc);
    pair_is(&m, &r, "with_vocabulary");
    let mut m2 = IriPrefixMap::empty();
    m2.insert_vocabulary(&voc);
    pair_is(&m2, &r, "insert_vocabulary");
    witness!(true);
    core::mem::forget((m, m2));
}

/// Maps are equal when they hold the same mappings, however they came to.
fn equality() {
    let (a, b, c, d) = (letter(), letter(), letter(), letter());
    kani::assume(a != c && b != d);
    let x = IriPrefixMap::empty().with(ns(a), at(b)).with(ns(c), at(d));
    let y = IriPrefixMap::empty().with(ns(c), at(d)).with(ns(a), at(b));
    assert!(x == y, "M09: equal mappings, different maps");
    let e = letter();
    let z = IriPrefixMap::empty().with(ns(a), at(b)).with(ns(c), at(e));
    assert!((x == z) == (d == e), "M09: different mappings, equal maps");
    witness!(d == e);
    witness!(d != e && b != e);
    core::mem::forget((x, y, z));
}

/// A clone is an independent map.
fn cloned() {
    let (mut m, mut r) = history(&[Put]);
    let c = m.clone();
    assert!(c == m, "M09: a clone differs");
    let r1 = Ref { k: r.k, v: r.v, live: r.live, n: r.n };
    run(&mut m, &mut r, Put);
    pair_is(&c, &r1, "clone");
    witness!(true);
    core::mem::forget((m, c));
}

// ------------------------------------------------------------------------------------------------
// M10: Display
// ------------------------------------------------------------------------------------------------

fn shown(ops: &[Op]) {
    let (m, r) = history(ops);
    let t = m.to_string();
    let mut w = Buf::new().add("Prefixes(\n");
    if r.n == 1 {
        w = w.add("    ");
        if r.k[0] != 0 {
            w = w.add(text(&[r.k[0]]));
        }
        w = w.add(":  <a:/").add(text(&[r.v[0]])).add("#> ,\n");
    }
    w = w.add(")\n");
    assert!(same(&t, w.get()), "M10: Display does not list the mappings");
    witness!(true);
    core::mem::forget(m);
}

/// Mappings of the given prefixes, in this order, to arbitrary (different) IRIs: listed in prefix
/// order.
fn shown_fixed(prefixes: &[u8]) {
    let n = prefixes.len();
    let mut m = IriPrefixMap::empty();
    let mut letters = [0u8; 3];
    let mut i = 0;
    while i < n {
        letters[i] = letter();
        let u = iri(BARE, text(&[b'/', b'1' + i as u8, letters[i]]), None, Some(""));
        if prefixes[i] == 0 {
            m.set_default_namespace(u);
        } else {
            m.insert(ns(prefixes[i]), u);
        }
        i += 1;
    }
    let t = m.to_string();
    let mut w = Buf::new().add("Prefixes(\n");
    let mut last = None;
    let mut done = 0;
    while done < n {
        // the smallest prefix not listed yet
        let mut at = n;
        i = 0;
        while i < n {
            let k = key(prefixes[i]);
            let fresh = match last {
                None => true,
                Some(l) => k > l,
            };
            if fresh && (at == n || k < key(prefixes[at])) {
                at = i;
            }
            i += 1;
        }
        last = Some(key(prefixes[at]));
        w = w.add("    ");
        if prefixes[at] != 0 {
            w = w.add(text(&[prefixes[at]]));
        }
        w = w.add(":  <a:").add(text(&[b'/', b'1' + at as u8, letters[at]])).add("#> ,\n");
        done += 1;
    }
    w = w.add(")\n");
    assert!(same(&t, w.get()), "M10: Display does not list the mappings in order");
    witness!(true);
    core::mem::forget(m);
}

/// What prefixes sort by: their text with the ':'.
fn key(prefix: u8) -> u16 {
    if prefix == 0 { (b':' as u16) << 8 } else { (prefix as u16) << 8 | b':' as u16 }
}
