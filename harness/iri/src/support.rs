//! Symbolic inputs and independent oracles shared by the harnesses.

/// Declare solver harnesses: `fn name [unwind] { body }`. Natively they are registered by name in
/// the list given.
/// `harnesses!` is for harnesses whose every text is ASCII: decoding a `char` is then a byte read
/// (checked: [`next_code_point`] asserts it). `wide_harnesses!` keeps the real decoder.
macro_rules! harnesses {
    ([$all:ident] $($(#[$m:meta])* fn $name:ident [$unwind:literal] $body:block)*) => {
        declare! {
            $all
            $(
                #[cfg_attr(all(kani, not(plain)), kani::stub(core::str::validations::next_code_point, crate::support::next_code_point))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(core::str::validations::next_code_point_reverse, crate::support::next_code_point_reverse))]
                $(#[$m])*
                fn $name [$unwind] $body
            )*
        }
    };
}

macro_rules! wide_harnesses {
    ([$all:ident] $($t:tt)*) => { declare! { $all $($t)* } };
}

macro_rules! declare {
    ($all:ident $($(#[$m:meta])* fn $name:ident [$unwind:literal] $body:block)*) => {
        $(
            $(#[$m])*
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($unwind))]
            #[cfg_attr(kani, kani::stub(core::slice::memchr::memchr, crate::support::memchr))]
            #[cfg_attr(kani, kani::stub(core::slice::memchr::memrchr, crate::support::memrchr))]
            #[cfg_attr(kani, kani::stub(core::fmt::DebugTuple::field, crate::support::debug_tuple_field))]
            #[cfg_attr(kani, kani::stub(core::fmt::DebugStruct::field, crate::support::debug_struct_field))]
            #[cfg_attr(kani, kani::stub(core::fmt::Arguments::as_str, crate::support::arguments_as_str))]
            #[cfg_attr(kani, kani::stub(core::fmt::Arguments::from_str, crate::support::arguments_from_str))]
            pub fn $name() $body
        )*
        #[cfg(not(kani))]
        pub const $all: &[(&str, fn())] = &[$((stringify!($name), $name)),*];
    };
}

/// Reachability witness: the solver must find an execution for it, or the harness is vacuous.
macro_rules! witness {
    ($c:expr) => {
        kani::cover!($c)
    };
}

/// Straight-line stand-ins for the word-at-a-time searches in `core` (same contract).
pub fn memchr(x: u8, text: &[u8]) -> Option<usize> {
    #[cfg(all(kani, not(plain)))]
    {
        // The harness fixed where the first ':' is (see `colon_at`): make that a constant, after
        // checking that it is true of the text actually searched.
        let k = unsafe { COLON };
        if x == b':' && k != 0 && k != UNSET {
            // (The part before the ':' has none.)
            let none = k == usize::MAX || text.len() < k;
            let upto = if none { text.len() } else { k - 1 };
            let mut ok = none || (upto < text.len() && text[upto] == x);
            let mut i = 0;
            while i < upto && i < text.len() {
                ok = ok && text[i] != x;
                i += 1;
            }
            assert!(ok, "MODEL: the case split does not fit the text searched");
            return if none { None } else { Some(upto) };
        }
    }
    let mut i = 0;
    while i < text.len() {
        if text[i] == x {
            return Some(i);
        }
        i += 1;
    }
    None
}

pub fn memrchr(x: u8, text: &[u8]) -> Option<usize> {
    #[cfg(all(kani, not(plain)))]
    {
        // As for ':', with the last '/' (see `slash_at`).
        let k = unsafe { SLASH };
        if x == b'/' && k != 0 && k != UNSET + 1 {
            let none = k == usize::MAX;
            let fits = none || k <= text.len();
            assert!(fits, "MODEL: the case split does not fit the text searched");
            let at = if none || !fits { 0 } else { text.len() - k };
            let mut ok = none || text[at] == x;
            let mut i = if none { 0 } else { at + 1 };
            while i < text.len() {
                ok = ok && text[i] != x;
                i += 1;
            }
            assert!(ok, "MODEL: the case split does not fit the text searched");
            return if none { None } else { Some(at) };
        }
    }
    let mut i = text.len();
    while i > 0 {
        i -= 1;
        if text[i] == x {
            return Some(i);
        }
    }
    None
}

/// (A recognisable value: a zero-initialised static can share its storage with other constants.)
const UNSET: usize = 0x5154_0000_0000;
#[cfg(kani)]
static mut SLASH: usize = UNSET + 1;
#[cfg(kani)]
static mut COLON: usize = UNSET;

/// Case split: in this harness the first ':' of the text searched is its `k`-th byte (from 1;
/// `usize::MAX`: there is none).
pub fn colon_at(_k: usize) {
    #[cfg(kani)]
    unsafe {
        COLON = _k;
    }
}

/// Case split: in this harness the last '/' of the text searched is `k` bytes from its end
/// (`usize::MAX`: there is none).
pub fn slash_at(_k: usize) {
    #[cfg(kani)]
    unsafe {
        SLASH = _k;
    }
}

/// `core`'s decoder, for ASCII text only.
#[cfg(kani)]
pub unsafe fn next_code_point<'a, I: Iterator<Item = &'a u8>>(bytes: &mut I) -> Option<u32> {
    match bytes.next() {
        None => None,
        Some(b) => {
            assert!(*b < 128, "MODEL: non-ASCII text in an ASCII harness");
            Some(*b as u32)
        }
    }
}

#[cfg(kani)]
pub unsafe fn next_code_point_reverse<'a, I: DoubleEndedIterator<Item = &'a u8>>(
    bytes: &mut I,
) -> Option<u32> {
    match bytes.next_back() {
        None => None,
        Some(b) => {
            assert!(*b < 128, "MODEL: non-ASCII text in an ASCII harness");
            Some(*b as u32)
        }
    }
}

/// `{:?}` output is outside every claim; its builders drag a recursive `dyn Write` into the
/// encoding.
#[cfg(kani)]
pub fn debug_tuple_field<'a, 'b: 'a, 'c>(
    this: &'c mut core::fmt::DebugTuple<'a, 'b>,
    _value: &dyn core::fmt::Debug,
) -> &'c mut core::fmt::DebugTuple<'a, 'b> {
    this
}

#[cfg(kani)]
pub fn debug_struct_field<'a, 'b: 'a, 'c>(
    this: &'c mut core::fmt::DebugStruct<'a, 'b>,
    _name: &str,
    _value: &dyn core::fmt::Debug,
) -> &'c mut core::fmt::DebugStruct<'a, 'b> {
    this
}

/// `fmt::Arguments` tags its argument pointer in the low bit, which the pointer encoding cannot
/// fold. These stand-ins give literal-only arguments a `{}` template instead, so that the tag is
/// never needed: same text, decided structurally.
#[cfg(kani)]
pub fn arguments_as_str<'a: 'a>(_this: &core::fmt::Arguments<'a>) -> Option<&'static str> {
    None
}

#[cfg(kani)]
pub fn arguments_from_str<'a: 'a>(s: &'static str) -> core::fmt::Arguments<'a> {
    let holder: &'static &'static str = Box::leak(Box::new(s));
    let one = format_args!("{}", *holder);
    unsafe {
        let raw: [*const [*const (); 2]; 2] = core::mem::transmute_copy(&one);
        let arg: &'static [*const (); 2] = Box::leak(Box::new(*raw[1]));
        core::mem::transmute([raw[0] as *const (), arg as *const _ as *const ()])
    }
}

/// An arbitrary ASCII byte.
pub fn ascii() -> u8 {
    let b: u8 = kani::any();
    #[cfg(not(kani))]
    let b = if kani::is_random() { b & 127 } else { b };
    kani::assume(b < 128);
    b
}

/// N arbitrary ASCII bytes.
pub fn ascii_array<const N: usize>() -> [u8; N] {
    let mut a = [0u8; N];
    let mut i = 0;
    while i < N {
        a[i] = ascii();
        i += 1;
    }
    a
}

/// View ASCII bytes as text (harness-side only; every byte was assumed < 128).
pub fn text(b: &[u8]) -> &str {
    unsafe { core::str::from_utf8_unchecked(b) }
}

/// An arbitrary Unicode scalar value.
pub fn any_char() -> char {
    let v: u32 = kani::any();
    #[cfg(not(kani))]
    let v = if kani::is_random() {
        if v & 3 == 0 { (v >> 8) & 0xffff } else { (v >> 8) & 127 }
    } else {
        v
    };
    let c = char::from_u32(v);
    kani::assume(c.is_some());
    c.unwrap()
}

/// A value in `0..n`.
pub fn below(n: usize) -> usize {
    let v: u8 = kani::any();
    let v = v as usize;
    #[cfg(not(kani))]
    let v = if kani::is_random() { v % n } else { v };
    kani::assume(v < n);
    v
}

// ------------------------------------------------------------------------------------------------
// Oracle: the SPARQL 1.1 grammar, productions [164]..[169], transcribed from the W3C text
// ------------------------------------------------------------------------------------------------

pub fn pn_chars_base(c: u32) -> bool {
    (c >= 0x41 && c <= 0x5a)
        || (c >= 0x61 && c <= 0x7a)
        || (c >= 0xc0 && c <= 0xd6)
        || (c >= 0xd8 && c <= 0xf6)
        || (c >= 0xf8 && c <= 0x2ff)
        || (c >= 0x370 && c <= 0x37d)
        || (c >= 0x37f && c <= 0x1fff)
        || (c >= 0x200c && c <= 0x200d)
        || (c >= 0x2070 && c <= 0x218f)
        || (c >= 0x2c00 && c <= 0x2fef)
        || (c >= 0x3001 && c <= 0xd7ff)
        || (c >= 0xf900 && c <= 0xfdcf)
        || (c >= 0xfdf0 && c <= 0xfffd)
        || (c >= 0x10000 && c <= 0xeffff)
}

pub fn pn_chars(c: u32) -> bool {
    pn_chars_base(c)
        || c == 0x5f
        || c == 0x2d
        || (c >= 0x30 && c <= 0x39)
        || c == 0xb7
        || (c >= 0x300 && c <= 0x36f)
        || (c >= 0x203f && c <= 0x2040)
}

pub fn local_first(c: u32) -> bool {
    pn_chars_base(c) || c == 0x5f || (c >= 0x30 && c <= 0x39)
}

/// `PN_LOCAL ::= ( PN_CHARS_U | [0-9] ) ((PN_CHARS|'.')* PN_CHARS)?`
pub fn is_pn_local(cs: &[u32]) -> bool {
    let n = cs.len();
    if n == 0 || !local_first(cs[0]) {
        return false;
    }
    let mut i = 1;
    while i < n {
        let last = i + 1 == n;
        if !(pn_chars(cs[i]) || (cs[i] == 0x2e && !last)) {
            return false;
        }
        i += 1;
    }
    true
}

/// `PN_PREFIX ::= PN_CHARS_BASE ((PN_CHARS|'.')* PN_CHARS)?`
pub fn is_pn_prefix(cs: &[u32]) -> bool {
    let n = cs.len();
    if n == 0 || !pn_chars_base(cs[0]) {
        return false;
    }
    let mut i = 1;
    while i < n {
        let last = i + 1 == n;
        if !(pn_chars(cs[i]) || (cs[i] == 0x2e && !last)) {
            return false;
        }
        i += 1;
    }
    true
}

/// `PNAME_NS ::= PN_PREFIX? ':'`
pub fn is_pname_ns(cs: &[u32]) -> bool {
    let n = cs.len();
    n >= 1 && cs[n - 1] == 0x3a && (n == 1 || is_pn_prefix(&cs[..n - 1]))
}

// ------------------------------------------------------------------------------------------------
// Helpers
// ------------------------------------------------------------------------------------------------

pub fn widen<const N: usize>(b: &[u8; N]) -> [u32; N] {
    let mut o = [0u32; N];
    let mut i = 0;
    while i < N {
        o[i] = b[i] as u32;
        i += 1;
    }
    o
}

/// Arbitrary scalar values whose UTF-8 widths are `w`, as bytes and as code points. Concrete
/// widths keep every length concrete; the harnesses cover the width combinations one by one.
pub fn wide_chars<const N: usize, const LEN: usize>(w: [u8; N]) -> ([u8; LEN], [u32; N]) {
    let mut b = [0u8; LEN];
    let mut cs = [0u32; N];
    let mut at = 0;
    let mut i = 0;
    while i < N {
        let c = wide_char(w[i]);
        cs[i] = c;
        put_utf8(&mut b, at, c, w[i]);
        at += w[i] as usize;
        i += 1;
    }
    assert!(at == LEN);
    (b, cs)
}

/// An arbitrary scalar value of UTF-8 width `w`.
pub fn wide_char(w: u8) -> u32 {
    let v: u32 = kani::any();
    let (lo, hi) = match w {
        1 => (0, 0x7f),
        2 => (0x80, 0x7ff),
        3 => (0x800, 0xffff),
        _ => (0x10000, 0x10ffff),
    };
    #[cfg(not(kani))]
    let v = if kani::is_random() { lo + v % (hi - lo + 1) } else { v };
    kani::assume(v >= lo && v <= hi && !(v >= 0xd800 && v <= 0xdfff));
    v
}

pub fn put_utf8(b: &mut [u8], at: usize, c: u32, w: u8) {
    match w {
        1 => b[at] = c as u8,
        2 => {
            b[at] = 0xc0 | (c >> 6) as u8;
            b[at + 1] = 0x80 | (c & 0x3f) as u8;
        }
        3 => {
            b[at] = 0xe0 | (c >> 12) as u8;
            b[at + 1] = 0x80 | ((c >> 6) & 0x3f) as u8;
            b[at + 2] = 0x80 | (c & 0x3f) as u8;
        }
        _ => {
            b[at] = 0xf0 | (c >> 18) as u8;
            b[at + 1] = 0x80 | ((c >> 12) & 0x3f) as u8;
            b[at + 2] = 0x80 | ((c >> 6) & 0x3f) as u8;
            b[at + 3] = 0x80 | (c & 0x3f) as u8;
        }
    }
}

/// `a ++ b` in a fixed buffer.
pub fn concat<const A: usize, const B: usize, const C: usize>(a: &[u8; A], b: &[u8; B]) -> [u8; C] {
    let mut o = [0u8; C];
    let mut i = 0;
    while i < A {
        o[i] = a[i];
        i += 1;
    }
    i = 0;
    while i < B {
        o[A + i] = b[i];
        i += 1;
    }
    o
}

pub fn utf8_len(c: u32) -> usize {
    if c < 0x80 {
        1
    } else if c < 0x800 {
        2
    } else if c < 0x10000 {
        3
    } else {
        4
    }
}

/// Byte-wise text equality.
pub fn same(a: &str, b: &str) -> bool {
    same_bytes(a.as_bytes(), b.as_bytes())
}

pub fn same_bytes(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}

/// `s == a ++ b`
pub fn is_concat2(s: &str, a: &[u8], b: &[u8]) -> bool {
    let s = s.as_bytes();
    s.len() == a.len() + b.len() && same_bytes(&s[..a.len()], a) && same_bytes(&s[a.len()..], b)
}

/// Lexicographic byte order as -1, 0, 1.
pub fn order(a: &[u8], b: &[u8]) -> i8 {
    let mut i = 0;
    while i < a.len() && i < b.len() {
        if a[i] != b[i] {
            return if a[i] < b[i] { -1 } else { 1 };
        }
        i += 1;
    }
    if a.len() == b.len() {
        0
    } else if a.len() < b.len() {
        -1
    } else {
        1
    }
}

pub fn sign(o: core::cmp::Ordering) -> i8 {
    match o {
        core::cmp::Ordering::Less => -1,
        core::cmp::Ordering::Equal => 0,
        core::cmp::Ordering::Greater => 1,
    }
}

/// A small hasher, so that no random state is involved.
pub struct Mix(u64);

impl core::hash::Hasher for Mix {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        let mut i = 0;
        while i < bytes.len() {
            self.0 = self.0.rotate_left(7) ^ (bytes[i] as u64);
            i += 1;
        }
    }
}

pub fn fnv<T: core::hash::Hash>(t: &T) -> u64 {
    let mut h = Mix(0);
    t.hash(&mut h);
    core::hash::Hasher::finish(&h)
}

// ------------------------------------------------------------------------------------------------
// IRIs
// ------------------------------------------------------------------------------------------------

/// Everything before the path of an IRI: text, end of the scheme, special scheme or not, opaque
/// path or not.
#[derive(Clone, Copy)]
pub struct Base(pub &'static str, pub usize, pub bool, pub bool);

/// `a:` with a path starting with `/` (no authority).
pub const BARE: Base = Base("a:", 1, false, false);
/// `a:` with a path not starting with `/`: the URL cannot be a base.
pub const OPAQUE: Base = Base("a:", 1, false, true);
/// An authority under a scheme the URL standard treats specially.
pub const HTTP: Base = Base("http://h", 4, true, false);
/// An authority under any other scheme.
pub const OTHER: Base = Base("a://h", 1, false, false);

/// The IRI with these components. They must already be in serialized form (the URL parser
/// produces no other kind of `Url`); under Kani that is assumed, natively the parser decides.
pub fn iri(base: Base, path: &str, query: Option<&str>, fragment: Option<&str>) -> rdftk_iri::Iri {
    rdftk_iri::Iri::from(url(base, path, query, fragment))
}

#[cfg(kani)]
pub fn url(base: Base, path: &str, query: Option<&str>, fragment: Option<&str>) -> url::Url {
    url::model_assume_normal(base.0.len() > base.1 + 1, base.2, base.3, path, query, fragment);
    url::Url::model_from_parts(base.0, base.1, base.2, base.3, path, query, fragment)
}

#[cfg(not(kani))]
pub fn url(base: Base, path: &str, query: Option<&str>, fragment: Option<&str>) -> url::Url {
    let mut s = String::from(base.0);
    s.push_str(path);
    if let Some(q) = query {
        s.push('?');
        s.push_str(q);
    }
    if let Some(f) = fragment {
        s.push('#');
        s.push_str(f);
    }
    match url::Url::parse(&s) {
        Ok(u) => {
            kani::assume(u.as_str() == s);
            kani::assume(u.path() == path && u.query() == query && u.fragment() == fragment);
            u
        }
        Err(_) => {
            kani::assume(false);
            unreachable!()
        }
    }
}

/// The whole text of an IRI.
pub fn iri_text(i: &rdftk_iri::Iri) -> &str {
    <rdftk_iri::Iri as AsRef<url::Url>>::as_ref(i).as_str()
}

pub fn iri_url(i: &rdftk_iri::Iri) -> &url::Url {
    <rdftk_iri::Iri as AsRef<url::Url>>::as_ref(i)
}

/// A growing fixed text buffer, for expected texts.
#[derive(Clone, Copy)]
pub struct Buf {
    b: [u8; 128],
    n: usize,
}

impl Buf {
    pub fn new() -> Buf {
        Buf { b: [0; 128], n: 0 }
    }
    pub fn add(mut self, s: &str) -> Buf {
        let t = s.as_bytes();
        let mut i = 0;
        while i < t.len() {
            self.b[self.n] = t[i];
            self.n += 1;
            i += 1;
        }
        self
    }
    pub fn get(&self) -> &str {
        text(&self.b[..self.n])
    }
}

pub fn opt_same(a: Option<&str>, b: Option<&str>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(x), Some(y)) => same(x, y),
        _ => false,
    }
}

/// `Url::parse` as an uninterpreted function of its whole input (see the model): the property is
/// about which text reaches the parser, whatever the parser does with it.
pub fn parser_is_abstract() {
    #[cfg(kani)]
    url::model_abstract_parser();
}

/// Case split: from here on every map lookup finds the `slot`-th inserted pair (0: none).
pub fn lookups_find(_slot: usize) {
    #[cfg(kani)]
    bimap::model_hit(_slot);
}

/// A text that lives for ever.
pub fn leaked(b: &[u8]) -> &'static str {
    Box::leak(String::from(text(b)).into_boxed_str())
}
