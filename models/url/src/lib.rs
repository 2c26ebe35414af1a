//! A small, faithful-within-its-domain model of `url::Url` for symbolic execution.
//!
//! The representation is the real one (a serialization plus component offsets), so every reader
//! is a slice. Parsing and the setters are re-implemented without the real crate's per-character
//! state machine, which CBMC cannot unroll over symbolic text. An input outside the modelled
//! domain calls [`unmodelled`], which under Kani *assumes the path away* (a stated bound of every
//! claim) and natively panics with a recognisable message, so that the differential validation
//! can tell "outside the domain" from "wrong".

use core::cmp::Ordering;
use core::fmt;
use core::hash::{Hash, Hasher};
use core::str::FromStr;

#[cold]
pub fn unmodelled<T>(_why: &'static str) -> T {
    #[cfg(kani)]
    {
        kani::assume(false);
        unreachable!()
    }
    #[cfg(not(kani))]
    panic!("url-model: unmodelled: {}", _why)
}

/// Outside the modelled domain in a place the harnesses are not expected to reach. Under Kani this
/// is a failing obligation (the check then re-runs with the wider model), never a silent bound.
#[cold]
pub fn beyond<T>(_why: &'static str) -> T {
    #[cfg(all(kani, not(plain)))]
    panic!("MODEL: the URL is set to something outside the narrow model");
    #[cfg(not(all(kani, not(plain))))]
    unmodelled(_why)
}

// ------------------------------------------------------------------------------------------------
// Errors
// ------------------------------------------------------------------------------------------------

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
#[non_exhaustive]
pub enum ParseError {
    EmptyHost,
    IdnaError,
    InvalidPort,
    InvalidIpv4Address,
    InvalidIpv6Address,
    InvalidDomainCharacter,
    RelativeUrlWithoutBase,
    RelativeUrlWithCannotBeABaseBase,
    SetHostOnCannotBeABaseUrl,
    Overflow,
}

impl fmt::Display for ParseError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self {
            ParseError::EmptyHost => "empty host",
            ParseError::IdnaError => "invalid international domain name",
            ParseError::InvalidPort => "invalid port number",
            ParseError::InvalidIpv4Address => "invalid IPv4 address",
            ParseError::InvalidIpv6Address => "invalid IPv6 address",
            ParseError::InvalidDomainCharacter => "invalid domain character",
            ParseError::RelativeUrlWithoutBase => "relative URL without a base",
            ParseError::RelativeUrlWithCannotBeABaseBase => {
                "relative URL with a cannot-be-a-base base"
            }
            ParseError::SetHostOnCannotBeABaseUrl => {
                "a cannot-be-a-base URL doesn’t have a host to set"
            }
            ParseError::Overflow => "URLs more than 4 GB are not supported",
        })
    }
}

impl core::error::Error for ParseError {}

// ------------------------------------------------------------------------------------------------
// Url
// ------------------------------------------------------------------------------------------------

#[derive(Clone)]
pub struct Url {
    serialization: String,
    // Offsets are bytes: a modelled URL is at most 255 bytes long, and a small value keeps each
    // heap object within CBMC's field-sensitive range.
    scheme_end: u8,
    special: bool,
    opaque: bool, // no '/' after the scheme: the URL cannot be a base
    path_start: u8,
    query_start: u8,    // 0 = none
    fragment_start: u8, // 0 = none
}

fn off(n: usize) -> u8 {
    if n > 255 {
        unmodelled("URL longer than 255 bytes")
    } else {
        n as u8
    }
}

fn opt(o: Option<usize>) -> u8 {
    match o {
        None => 0,
        Some(n) => off(n),
    }
}

/// `Url` offsets which may be used to slice the serialization.
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Position {
    BeforeScheme,
    AfterScheme,
    BeforePath,
    AfterPath,
    BeforeQuery,
    AfterQuery,
    BeforeFragment,
    AfterFragment,
}

/// The items of `str::split('/')`, without the generic substring searcher.
#[derive(Clone, Debug)]
pub struct Segments<'a> {
    rest: &'a str,
    done: bool,
}

impl<'a> Iterator for Segments<'a> {
    type Item = &'a str;
    fn next(&mut self) -> Option<&'a str> {
        if self.done {
            return None;
        }
        let b = self.rest.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'/' {
                let item = &self.rest[..i];
                self.rest = &self.rest[i + 1..];
                return Some(item);
            }
            i += 1;
        }
        self.done = true;
        Some(self.rest)
    }
    fn last(mut self) -> Option<&'a str> {
        self.next_back()
    }
}

impl<'a> DoubleEndedIterator for Segments<'a> {
    fn next_back(&mut self) -> Option<&'a str> {
        if self.done {
            return None;
        }
        let b = self.rest.as_bytes();
        let mut i = b.len();
        while i > 0 {
            i -= 1;
            if b[i] == b'/' {
                let item = &self.rest[i + 1..];
                self.rest = &self.rest[..i];
                return Some(item);
            }
        }
        self.done = true;
        Some(self.rest)
    }
}

impl<'a> core::iter::FusedIterator for Segments<'a> {}

fn upper_hex(n: u8) -> u8 {
    if n < 10 { b'0' + n } else { b'A' + (n - 10) }
}

fn push_escaped(out: &mut String, b: u8) {
    out.push('%');
    out.push(upper_hex(b >> 4) as char);
    out.push(upper_hex(b & 15) as char);
}

fn in_controls(b: u8) -> bool {
    b < 0x20 || b > 0x7e
}

fn in_fragment_set(b: u8) -> bool {
    in_controls(b) || b == b' ' || b == b'"' || b == b'<' || b == b'>' || b == b'`'
}

fn in_path_set(b: u8) -> bool {
    in_fragment_set(b) || b == b'#' || b == b'?' || b == b'{' || b == b'}'
}

fn in_query_set(b: u8, special: bool) -> bool {
    in_controls(b)
        || b == b' '
        || b == b'"'
        || b == b'#'
        || b == b'<'
        || b == b'>'
        || (special && b == b'\'')
}

fn is_tab_or_newline(b: u8) -> bool {
    b == b'\t' || b == b'\n' || b == b'\r'
}

#[cfg(kani)]
static mut ABSTRACT: u32 = 0x5152_5354; // not zero: see `UNSET` in the harness support

/// From here on `parse` is an uninterpreted function: injective in its input when it accepts.
/// It is a stand-in only for comparing which text two callers hand to the parser.
pub fn model_abstract_parser() {
    #[cfg(kani)]
    unsafe {
        ABSTRACT = 1;
    }
}

fn push_encoded(out: &mut String, input: &str, set: fn(u8) -> bool) {
    let bytes = input.as_bytes();
    let mut clean = true;
    let mut i = 0;
    while i < bytes.len() {
        if set(bytes[i]) {
            clean = false;
        }
        i += 1;
    }
    if clean {
        // the common case: one copy
        out.push_str(input);
        return;
    }
    // The narrow symbolic model has no percent-encoding, which keeps every length concrete.
    #[cfg(all(kani, not(plain)))]
    return beyond("escaping");
    #[cfg(not(all(kani, not(plain))))]
    push_escaping(out, bytes, set)
}

#[cfg(not(all(kani, not(plain))))]
fn push_escaping(out: &mut String, bytes: &[u8], set: fn(u8) -> bool) {
    let mut i = 0;
    while i < bytes.len() {
        let b = bytes[i];
        if is_tab_or_newline(b) {
            // the WHATWG parser skips these
        } else if set(b) {
            push_escaped(out, b);
        } else {
            out.push(b as char);
        }
        i += 1;
    }
}

/// Dot segments (`.`/`..`, also `%2e` forms) make the parser rewrite the path; they, and
/// Windows drive letters under `file:`, are outside the model.
fn check_path_modelled(path: &str, special: bool, file: bool, unmodelled: fn(&'static str)) {
    let b = path.as_bytes();
    let mut seg_start = true;
    let mut i = 0;
    while i < b.len() {
        if special && b[i] == b'\\' {
            return unmodelled("backslash in special path");
        }
        if seg_start && b[i] == b'.' {
            // `.`, `..`, `./`, `../`, `.%2e`
            let next = if i + 1 < b.len() { b[i + 1] } else { b'/' };
            if next == b'/' || next == b'.' || next == b'%' {
                return unmodelled("dot segment");
            }
        }
        if seg_start && b[i] == b'%' {
            let d1 = if i + 1 < b.len() { b[i + 1] } else { 0 };
            let d2 = if i + 2 < b.len() { b[i + 2] } else { 0 };
            if d1 == b'2' && (d2 == b'e' || d2 == b'E') {
                return unmodelled("encoded dot segment");
            }
        }
        if file && (b[i] == b':' || b[i] == b'|') {
            return unmodelled("drive letter");
        }
        seg_start = b[i] == b'/';
        i += 1;
    }
    if file && b.len() >= 2 && b[0] == b'/' && b[1] == b'/' {
        return unmodelled("file path with empty first segment");
    }
}

/// Assume that the components are ones the real parser could have produced (and that the model
/// covers): already encoded, no dot segments, path shape consistent with the scheme.
pub fn model_assume_normal(
    authority: bool,
    special: bool,
    opaque: bool,
    path: &str,
    query: Option<&str>,
    fragment: Option<&str>,
) {
    let b = path.as_bytes();
    let mut ok = !(authority && opaque);
    let hierarchical = !opaque;
    if b.len() > 0 {
        if (b[0] == b'/') == opaque {
            ok = false;
        }
    } else if !authority && !opaque {
        ok = false;
    }
    if special && b.is_empty() {
        ok = false;
    }
    if !authority && b.len() > 1 && b[0] == b'/' && b[1] == b'/' {
        ok = false;
    }
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if hierarchical {
            if in_path_set(c) {
                ok = false;
            }
        } else if c < 0x21 || c > 0x7e || c == b'?' || c == b'#' {
            ok = false;
        }
        i += 1;
    }
    if let Some(q) = query {
        let b = q.as_bytes();
        i = 0;
        while i < b.len() {
            if in_query_set(b[i], special) {
                ok = false;
            }
            i += 1;
        }
    }
    if let Some(f) = fragment {
        let b = f.as_bytes();
        i = 0;
        while i < b.len() {
            if in_fragment_set(b[i]) {
                ok = false;
            }
            i += 1;
        }
    }
    if !ok {
        unmodelled("not a serialized form")
    }
    if hierarchical {
        check_path_modelled(path, special, false, unmodelled);
    }
}

impl Url {
    // --- model-only constructor -----------------------------------------------------------------

    /// Build a URL value directly from its (already normalised) components; `prefix` is
    /// everything before the path. Only harnesses call this.
    pub fn model_from_parts(
        prefix: &str,
        scheme_end: usize,
        special: bool,
        opaque: bool,
        path: &str,
        query: Option<&str>,
        fragment: Option<&str>,
    ) -> Url {
        let cap = prefix.len()
            + path.len()
            + query.map_or(0, |q| q.len() + 1)
            + fragment.map_or(0, |f| f.len() + 1);
        let mut s = String::with_capacity(cap + 8);
        s.push_str(prefix);
        let path_start = s.len();
        s.push_str(path);
        let mut query_start = None;
        if let Some(q) = query {
            query_start = Some(s.len());
            s.push('?');
            s.push_str(q);
        }
        let mut fragment_start = None;
        if let Some(f) = fragment {
            fragment_start = Some(s.len());
            s.push('#');
            s.push_str(f);
        }
        Url {
            serialization: s,
            scheme_end: off(scheme_end),
            special,
            opaque,
            path_start: off(path_start),
            query_start: opt(query_start),
            fragment_start: opt(fragment_start),
        }
    }

    // --- parsing --------------------------------------------------------------------------------

    pub fn parse(input: &str) -> Result<Url, ParseError> {
        let b = input.as_bytes();
        let n = b.len();
        #[cfg(kani)]
        if unsafe { ABSTRACT } == 1 {
            if n == 0 || b[0] < b'a' {
                return Err(if n > 0 && b[0] == b'0' {
                    ParseError::EmptyHost
                } else {
                    ParseError::RelativeUrlWithoutBase
                });
            }
            return Ok(Url {
                serialization: String::from(input),
                scheme_end: 0,
                special: false,
                opaque: false,
                path_start: 0,
                query_start: 0,
                fragment_start: 0,
            });
        }
        if n > 0 && (b[0] <= b' ' || b[n - 1] <= b' ') {
            return unmodelled("leading or trailing space");
        }
        // scheme
        let mut i = 0;
        let mut scheme_end = None;
        while i < n {
            let c = b[i];
            if c == b':' {
                if i > 0 {
                    scheme_end = Some(i);
                }
                break;
            }
            if is_tab_or_newline(c) {
                return unmodelled("tab or newline");
            }
            let ok = c.is_ascii_alphabetic()
                || (i > 0 && (c.is_ascii_digit() || c == b'+' || c == b'-' || c == b'.'));
            if !ok {
                break;
            }
            if c.is_ascii_uppercase() {
                // only matters if this turns out to be a scheme
                let mut k = i;
                while k < n && b[k] != b':' {
                    k += 1;
                }
                if k < n {
                    return unmodelled("uppercase scheme");
                }
            }
            i += 1;
        }
        let scheme_end = match scheme_end {
            None => return Err(ParseError::RelativeUrlWithoutBase),
            Some(e) => e,
        };
        let special = is_special(&input[..scheme_end]);
        let file = is_file(&input[..scheme_end]);
        let rest = scheme_end + 1;
        // every byte must already be in serialized form
        i = rest;
        let mut after_hash = false;
        let mut after_q = false;
        while i < n {
            let c = b[i];
            if after_hash {
                if in_fragment_set(c) {
                    return unmodelled("fragment needs encoding");
                }
            } else if c == b'#' {
                after_hash = true;
            } else if after_q {
                if in_query_set(c, special) {
                    return unmodelled("query needs encoding");
                }
            } else if c == b'?' {
                after_q = true;
            } else if in_path_set(c) {
                return unmodelled("path needs encoding");
            }
            i += 1;
        }
        // authority
        let has_authority = n >= rest + 2 && b[rest] == b'/' && b[rest + 1] == b'/';
        let mut path_start = rest;
        if special && !has_authority {
            return unmodelled("special scheme without //");
        }
        if has_authority {
            let host_start = rest + 2;
            let mut j = host_start;
            let mut host_end = None;
            let mut last_label = host_start;
            while j < n && b[j] != b'/' && b[j] != b'?' && b[j] != b'#' {
                let c = b[j];
                if c == b':' {
                    if host_end.is_some() {
                        return unmodelled("authority");
                    }
                    host_end = Some(j);
                } else if host_end.is_some() {
                    if !c.is_ascii_digit() {
                        return unmodelled("port");
                    }
                } else if c == b'.' {
                    last_label = j + 1;
                } else if !(c.is_ascii_lowercase() || c.is_ascii_digit() || c == b'-') {
                    return unmodelled("host character");
                }
                j += 1;
            }
            path_start = j;
            let port = host_end.map(|h| h + 1);
            let host_end = host_end.unwrap_or(j);
            if special {
                if host_end == host_start && !file {
                    if port.is_some() {
                        return Err(ParseError::EmptyHost);
                    }
                    return unmodelled("empty special host");
                }
                if host_end > host_start
                    && (last_label >= host_end || b[last_label].is_ascii_digit())
                {
                    return unmodelled("IPv4 host");
                }
                if file && port.is_some() {
                    return unmodelled("file port");
                }
                let mut k = host_start;
                while k + 1 < host_end {
                    if b[k] == b'-' && b[k + 1] == b'-' {
                        return unmodelled("punycode-like host");
                    }
                    k += 1;
                }
                if file && host_end - host_start == 9 {
                    return unmodelled("file://localhost");
                }
            } else if host_end == host_start && port.is_some() {
                return unmodelled("empty host with port");
            }
            if let Some(p) = port {
                // 4-digit ports in 1000..=9999 other than defaults, which are all shorter
                if j - p != 4 || b[p] == b'0' {
                    return unmodelled("port");
                }
            }
        }
        // path
        let mut path_end = path_start;
        while path_end < n && b[path_end] != b'?' && b[path_end] != b'#' {
            path_end += 1;
        }
        let mut s = String::with_capacity(n + 8);
        s.push_str(&input[..path_start]);
        let hierarchical = has_authority || (path_start < n && b[path_start] == b'/');
        let path = &input[path_start..path_end];
        if hierarchical {
            check_path_modelled(path, special, file, unmodelled);
        }
        if special && path.is_empty() {
            s.push('/');
        } else {
            s.push_str(path);
        }
        let shift = s.len() - path_end; // 0 or 1
        s.push_str(&input[path_end..]);
        let mut query_start = None;
        let mut k = path_end;
        if k < n && b[k] == b'?' {
            query_start = Some(k + shift);
            while k < n && b[k] != b'#' {
                k += 1;
            }
        }
        let fragment_start = if k < n { Some(k + shift) } else { None };
        Ok(Url {
            serialization: s,
            scheme_end: off(scheme_end),
            special,
            opaque: !hierarchical,
            path_start: off(path_start),
            query_start: opt(query_start),
            fragment_start: opt(fragment_start),
        })
    }

    pub fn join(&self, input: &str) -> Result<Url, ParseError> {
        let b = input.as_bytes();
        let n = b.len();
        // absolute?
        let mut i = 0;
        while i < n && (b[i].is_ascii_alphanumeric() || b[i] == b'+' || b[i] == b'-' || b[i] == b'.')
        {
            i += 1;
        }
        if i > 0 && i < n && b[i] == b':' && b[0].is_ascii_alphabetic() {
            return unmodelled("join with an absolute URL");
        }
        if n > 0 && (b[0] <= b' ' || b[n - 1] <= b' ') {
            return unmodelled("leading or trailing space");
        }
        if self.cannot_be_a_base() {
            return if n > 0 && b[0] == b'#' {
                let mut u = self.clone();
                u.set_fragment(Some(&input[1..]));
                Ok(u)
            } else {
                Err(ParseError::RelativeUrlWithCannotBeABaseBase)
            };
        }
        if n >= 2 && b[0] == b'/' && b[1] == b'/' {
            return unmodelled("scheme-relative join");
        }
        i = 0;
        while i < n {
            if b[i] == b'\\' || is_tab_or_newline(b[i]) {
                return unmodelled("backslash or newline in join");
            }
            i += 1;
        }
        self.join_modelled(input)
    }

    /// (keeps the lengths concrete when some of the text is not)
    #[cfg(all(kani, not(plain)))]
    fn join_modelled(&self, input: &str) -> Result<Url, ParseError> {
        let b = input.as_bytes();
        let mut delimited = false;
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'?' || b[i] == b'#' {
                delimited = true;
            }
            i += 1;
        }
        if delimited {
            return beyond("joining a query or fragment");
        }
        let mut u = self.clone();
        u.set_fragment(None);
        if b.len() > 0 {
            u.set_query(None);
            if b[0] != b'/' {
                return beyond("joining a relative path");
            }
            u.set_path(input);
        }
        Ok(u)
    }

    #[cfg(not(all(kani, not(plain))))]
    fn join_modelled(&self, input: &str) -> Result<Url, ParseError> {
        // split input into path, query, fragment
        let b = input.as_bytes();
        let n = b.len();
        let mut path_end = 0;
        while path_end < n && b[path_end] != b'?' && b[path_end] != b'#' {
            path_end += 1;
        }
        let mut query_end = path_end;
        while query_end < n && b[query_end] != b'#' {
            query_end += 1;
        }
        let path = &input[..path_end];
        let query = if query_end > path_end {
            Some(&input[path_end + 1..query_end])
        } else {
            None
        };
        let fragment = if query_end < n {
            Some(&input[query_end + 1..])
        } else {
            None
        };
        let mut u = self.clone();
        u.set_fragment(None);
        if !path.is_empty() {
            u.set_query(None);
            if b[0] == b'/' {
                u.set_path(path);
            } else {
                let base = self.path();
                let keep = match base.rfind('/') {
                    Some(p) => p + 1,
                    None => 0,
                };
                let mut joined = String::with_capacity(keep + path.len() + 1);
                if keep == 0 {
                    joined.push('/');
                }
                joined.push_str(&base[..keep]);
                joined.push_str(path);
                u.set_path(&joined);
            }
            u.set_query(query);
        } else if query.is_some() {
            u.set_query(query);
        }
        if let Some(f) = fragment {
            u.set_fragment(Some(f));
        }
        Ok(u)
    }

    // --- readers --------------------------------------------------------------------------------

    /// The text between two component offsets (which are ASCII positions by construction).
    #[inline(always)]
    fn cut(&self, from: usize, to: usize) -> &str {
        #[cfg(kani)]
        unsafe {
            self.serialization.get_unchecked(from..to)
        }
        #[cfg(not(kani))]
        &self.serialization[from..to]
    }

    #[inline]
    pub fn as_str(&self) -> &str {
        &self.serialization
    }

    pub fn into_string(self) -> String {
        self.serialization
    }

    #[inline(always)]
    fn se(&self) -> usize {
        self.scheme_end as usize
    }
    #[inline(always)]
    fn ps(&self) -> usize {
        self.path_start as usize
    }
    #[inline(always)]
    fn qs(&self) -> Option<usize> {
        if self.query_start == 0 { None } else { Some(self.query_start as usize) }
    }
    #[inline(always)]
    fn fs(&self) -> Option<usize> {
        if self.fragment_start == 0 { None } else { Some(self.fragment_start as usize) }
    }

    pub fn scheme(&self) -> &str {
        self.cut(0, self.se())
    }

    pub fn is_special(&self) -> bool {
        self.special
    }

    pub fn has_authority(&self) -> bool {
        let b = self.serialization.as_bytes();
        b.len() >= self.se() + 3
            && self.ps() >= self.se() + 3
            && b[self.se() + 1] == b'/'
            && b[self.se() + 2] == b'/'
    }

    pub fn authority(&self) -> &str {
        if self.has_authority() {
            &self.serialization[self.se() + 3..self.ps()]
        } else {
            ""
        }
    }

    pub fn has_host(&self) -> bool {
        // (a non-special `a:///` has an empty authority and no host)
        self.has_authority() && self.ps() > self.se() + 3
    }

    pub fn host_str(&self) -> Option<&str> {
        if self.has_host() {
            let a = self.authority();
            Some(match a.find(':') {
                Some(p) => &a[..p],
                None => a,
            })
        } else {
            None
        }
    }

    pub fn domain(&self) -> Option<&str> {
        self.host_str()
    }

    pub fn username(&self) -> &str {
        ""
    }

    pub fn password(&self) -> Option<&str> {
        None
    }

    pub fn port(&self) -> Option<u16> {
        if !self.has_authority() {
            return None;
        }
        let a = self.authority();
        a.find(':').map(|p| {
            let b = a.as_bytes();
            let mut v: u16 = 0;
            let mut i = p + 1;
            while i < b.len() {
                v = v * 10 + (b[i] - b'0') as u16;
                i += 1;
            }
            v
        })
    }

    pub fn cannot_be_a_base(&self) -> bool {
        self.opaque
    }

    fn path_end(&self) -> usize {
        match (self.qs(), self.fs()) {
            (Some(q), _) => q,
            (None, Some(f)) => f,
            (None, None) => self.serialization.len(),
        }
    }

    pub fn path(&self) -> &str {
        self.cut(self.ps(), self.path_end())
    }

    pub fn path_segments(&self) -> Option<Segments<'_>> {
        let path = self.path();
        let b = path.as_bytes();
        if b.len() > 0 && b[0] == b'/' {
            Some(Segments {
                rest: &path[1..],
                done: false,
            })
        } else {
            None
        }
    }

    pub fn query(&self) -> Option<&str> {
        self.qs().map(|q| {
            let end = self.fs().unwrap_or(self.serialization.len());
            self.cut(q + 1, end)
        })
    }

    pub fn fragment(&self) -> Option<&str> {
        self.fs().map(|f| self.cut(f + 1, self.serialization.len()))
    }

    fn index(&self, p: Position) -> usize {
        let end = self.serialization.len();
        match p {
            Position::BeforeScheme => 0,
            Position::AfterScheme => self.se(),
            Position::BeforePath => self.ps(),
            Position::AfterPath => self.path_end(),
            Position::BeforeQuery => match (self.qs(), self.fs()) {
                (Some(q), _) => q + 1,
                (None, Some(f)) => f,
                (None, None) => end,
            },
            Position::AfterQuery => self.fs().unwrap_or(end),
            Position::BeforeFragment => self.fs().map_or(end, |f| f + 1),
            Position::AfterFragment => end,
        }
    }

    // --- setters --------------------------------------------------------------------------------

    pub fn set_fragment(&mut self, fragment: Option<&str>) {
        if let Some(start) = self.fs() {
            self.serialization.truncate(start);
        }
        if let Some(input) = fragment {
            self.fragment_start = off(self.serialization.len());
            self.serialization.push('#');
            push_encoded(&mut self.serialization, input, in_fragment_set);
        } else {
            self.fragment_start = 0;
        }
    }

    pub fn set_query(&mut self, query: Option<&str>) {
        let fragment: Option<String> = self.fragment().map(String::from);
        self.set_fragment(None);
        if let Some(start) = self.qs() {
            self.serialization.truncate(start);
        }
        self.query_start = 0;
        if let Some(input) = query {
            self.query_start = off(self.serialization.len());
            self.serialization.push('?');
            if self.special {
                push_encoded(&mut self.serialization, input, |b| in_query_set(b, true));
            } else {
                push_encoded(&mut self.serialization, input, |b| in_query_set(b, false));
            }
        }
        if let Some(f) = fragment {
            self.fragment_start = off(self.serialization.len());
            self.serialization.push('#');
            self.serialization.push_str(&f);
        }
    }

    pub fn set_path(&mut self, path: &str) {
        let opaque = self.cannot_be_a_base();
        let file = is_file(self.scheme());
        let end = self.path_end();
        let mut s = String::with_capacity(self.serialization.len() + path.len() + 8);
        s.push_str(self.cut(0, self.ps()));
        let first = path.as_bytes().first().copied();
        if opaque {
            if path.as_bytes().last() == Some(&b' ') {
                return beyond("a trailing space in an opaque path");
            }
            if first == Some(b'/') {
                #[cfg(all(kani, not(plain)))]
                return beyond("escaping");
                #[cfg(not(all(kani, not(plain))))]
                {
                    s.push_str("%2F");
                    push_encoded(&mut s, &path[1..], in_controls);
                }
            } else {
                push_encoded(&mut s, path, in_controls);
            }
        } else {
            check_path_modelled(path, self.special, file, beyond);
            if !self.special {
                if first == Some(b'?') || first == Some(b'#') {
                    return beyond("set_path starting with a delimiter");
                }
                if first.is_none() && !self.has_authority() {
                    return beyond("emptying an authority-less path");
                }
                if !self.has_authority() {
                    let b = path.as_bytes();
                    if b.len() >= 2 && b[0] == b'/' && b[1] == b'/' {
                        return beyond("authority-less // path");
                    }
                }
            }
            if (self.special || first.is_some()) && first != Some(b'/') {
                if cfg!(all(kani, not(plain))) && first.is_some() {
                    return beyond("a path without its '/'");
                }
                s.push('/');
            }
            push_encoded(&mut s, path, in_path_set);
        }
        let new_end = s.len();
        s.push_str(self.cut(end, self.serialization.len()));
        self.query_start = opt(self.qs().map(|q| q - end + new_end));
        self.fragment_start = opt(self.fs().map(|f| f - end + new_end));
        self.serialization = s;
    }
}

/// As the real crate's, for segments without characters that need escaping.
pub struct PathSegmentsMut<'a>(&'a mut Url);

impl<'a> PathSegmentsMut<'a> {
    fn cut_at_last_slash(&mut self, only_if_empty: bool) {
        let path = self.0.path().as_bytes();
        let mut k = path.len();
        while k > 0 && path[k - 1] != b'/' {
            k -= 1;
        }
        if k == 0 || (only_if_empty && k != path.len()) {
            return;
        }
        let kept = String::from(&self.0.path()[..if k == 1 { 1 } else { k - 1 }]);
        self.0.set_path(&kept);
    }
    pub fn clear(&mut self) -> &mut Self {
        self.0.set_path("/");
        self
    }
    pub fn pop_if_empty(&mut self) -> &mut Self {
        if self.0.path().len() > 1 {
            self.cut_at_last_slash(true);
        }
        self
    }
    pub fn pop(&mut self) -> &mut Self {
        if !self.0.path().is_empty() {
            self.cut_at_last_slash(false);
        }
        self
    }
    pub fn push(&mut self, segment: &str) -> &mut Self {
        let b = segment.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'/' || b[i] == b'%' || is_tab_or_newline(b[i]) || in_path_set(b[i]) {
                return beyond("escaping in a segment");
            }
            i += 1;
        }
        if segment == "." || segment == ".." {
            return self;
        }
        let mut path = String::from(self.0.path());
        if path.len() != 1 {
            path.push('/');
        }
        path.push_str(segment);
        self.0.set_path(&path);
        self
    }
    pub fn extend<I>(&mut self, segments: I) -> &mut Self
    where
        I: IntoIterator,
        I::Item: AsRef<str>,
    {
        for s in segments {
            self.push(s.as_ref());
        }
        self
    }
}

impl Url {
    pub fn path_segments_mut(&mut self) -> Result<PathSegmentsMut<'_>, ()> {
        if self.cannot_be_a_base() { Err(()) } else { Ok(PathSegmentsMut(self)) }
    }

    // Not modelled: reaching one of these is a failing obligation, not a verdict.
    pub fn set_scheme(&mut self, _: &str) -> Result<(), ()> {
        beyond("set_scheme")
    }
    pub fn set_host(&mut self, _: Option<&str>) -> Result<(), ParseError> {
        beyond("set_host")
    }
    pub fn set_port(&mut self, _: Option<u16>) -> Result<(), ()> {
        beyond("set_port")
    }
    pub fn set_username(&mut self, _: &str) -> Result<(), ()> {
        beyond("set_username")
    }
    pub fn set_password(&mut self, _: Option<&str>) -> Result<(), ()> {
        beyond("set_password")
    }
    pub fn make_relative(&self, _: &Url) -> Option<String> {
        beyond("make_relative")
    }
}

fn is_special(s: &str) -> bool {
    let b = s.as_bytes();
    match b.len() {
        2 => b[0] == b'w' && b[1] == b's',
        3 => (b[0] == b'w' && b[1] == b's' && b[2] == b's') || (b[0] == b'f' && b[1] == b't' && b[2] == b'p'),
        4 => s == "http" || s == "file",
        5 => s == "https",
        _ => false,
    }
}

fn is_file(s: &str) -> bool {
    s.len() == 4 && s == "file"
}

// ------------------------------------------------------------------------------------------------
// Trait implementations (all as in the real crate: on the serialization)
// ------------------------------------------------------------------------------------------------

impl FromStr for Url {
    type Err = ParseError;
    fn from_str(s: &str) -> Result<Url, ParseError> {
        Url::parse(s)
    }
}

impl<'a> TryFrom<&'a str> for Url {
    type Error = ParseError;
    fn try_from(s: &'a str) -> Result<Self, Self::Error> {
        Url::parse(s)
    }
}

impl fmt::Display for Url {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&self.serialization, f)
    }
}

impl fmt::Debug for Url {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.serialization)
    }
}

impl From<Url> for String {
    fn from(value: Url) -> String {
        value.serialization
    }
}

impl AsRef<str> for Url {
    fn as_ref(&self) -> &str {
        &self.serialization
    }
}

impl Eq for Url {}

impl PartialEq for Url {
    fn eq(&self, other: &Self) -> bool {
        self.serialization == other.serialization
    }
}

impl Ord for Url {
    fn cmp(&self, other: &Self) -> Ordering {
        self.serialization.cmp(&other.serialization)
    }
}

impl PartialOrd for Url {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(self.cmp(other))
    }
}

impl Hash for Url {
    fn hash<H: Hasher>(&self, state: &mut H) {
        Hash::hash(&self.serialization, state)
    }
}

impl core::ops::Index<core::ops::RangeFull> for Url {
    type Output = str;
    fn index(&self, _: core::ops::RangeFull) -> &str {
        &self.serialization
    }
}
impl core::ops::Index<core::ops::RangeFrom<Position>> for Url {
    type Output = str;
    fn index(&self, r: core::ops::RangeFrom<Position>) -> &str {
        &self.serialization[Url::index(self, r.start)..]
    }
}
impl core::ops::Index<core::ops::RangeTo<Position>> for Url {
    type Output = str;
    fn index(&self, r: core::ops::RangeTo<Position>) -> &str {
        &self.serialization[..Url::index(self, r.end)]
    }
}
impl core::ops::Index<core::ops::Range<Position>> for Url {
    type Output = str;
    fn index(&self, r: core::ops::Range<Position>) -> &str {
        &self.serialization[Url::index(self, r.start)..Url::index(self, r.end)]
    }
}

#[cfg(feature = "serde")]
impl serde::Serialize for Url {
    fn serialize<S: serde::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
        serializer.serialize_str(self.as_str())
    }
}

#[cfg(feature = "serde")]
impl<'de> serde::Deserialize<'de> for Url {
    fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
        struct UrlVisitor;
        impl<'de> serde::de::Visitor<'de> for UrlVisitor {
            type Value = Url;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("a string representing an URL")
            }
            fn visit_str<E: serde::de::Error>(self, s: &str) -> Result<Url, E> {
                Url::parse(s).map_err(|_| E::custom("invalid URL"))
            }
        }
        deserializer.deserialize_str(UrlVisitor)
    }
}
