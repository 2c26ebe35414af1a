//! Stand-ins for `String`'s growth: every text has room for 128 bytes from the start, so that a
//! text of symbolic length is one object of constant size. (A longer text is a failing obligation.)

/// As `harnesses!`, for texts of symbolic length.
macro_rules! text_harnesses {
    ([$all:ident] $($(#[$m:meta])* fn $name:ident [$unwind:literal] $body:block)*) => {
        harnesses! {
            [$all]
            $(
                #[cfg_attr(all(kani, not(plain)), kani::stub(std::string::String::with_capacity, crate::texts::with_capacity))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(std::string::String::new, crate::texts::new))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(std::vec::Vec::with_capacity, crate::texts::vec_with_capacity))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(std::vec::from_elem, crate::texts::from_elem))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(std::string::String::push, crate::texts::push_ascii))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(std::string::String::push_str, crate::texts::push_str))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(std::string::String::from_utf8_lossy, crate::texts::from_utf8_lossy))]
                $(#[$m])*
                fn $name [$unwind] $body
            )*
        }
    };
}

/// As `wide_harnesses!`, likewise.
macro_rules! wide_text_harnesses {
    ([$all:ident] $($(#[$m:meta])* fn $name:ident [$unwind:literal] $body:block)*) => {
        wide_harnesses! {
            [$all]
            $(
                #[cfg_attr(all(kani, not(plain)), kani::stub(std::string::String::with_capacity, crate::texts::with_capacity))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(std::string::String::new, crate::texts::new))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(std::vec::Vec::with_capacity, crate::texts::vec_with_capacity))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(std::vec::from_elem, crate::texts::from_elem))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(std::string::String::push, crate::texts::push))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(std::string::String::push_str, crate::texts::push_str))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(std::string::String::from_utf8_lossy, crate::texts::from_utf8_lossy))]
                $(#[$m])*
                fn $name [$unwind] $body
            )*
        }
    };
}

pub const ROOM: usize = 128;

pub fn vec_with_capacity<T>(_n: usize) -> Vec<T> {
    let mut v = Vec::new();
    v.reserve_exact(ROOM);
    v
}

pub fn from_elem<T: Clone>(e: T, n: usize) -> Vec<T> {
    let mut v = vec_with_capacity(n);
    let mut i = 0;
    while i < n {
        v.push(e.clone());
        i += 1;
    }
    v
}

pub fn new() -> String {
    unsafe { String::from_utf8_unchecked(Vec::with_capacity(ROOM)) }
}

pub fn with_capacity(_n: usize) -> String {
    unsafe { String::from_utf8_unchecked(Vec::with_capacity(ROOM)) }
}

pub fn push(s: &mut String, c: char) {
    let mut b = [0u8; 4];
    let n = c.encode_utf8(&mut b).len();
    let mut i = 0;
    while i < n {
        put(s, b[i]);
        i += 1;
    }
}

/// For texts whose characters are all ASCII.
pub fn push_ascii(s: &mut String, c: char) {
    assert!((c as u32) < 128, "MODEL: a text that is not ASCII in an ASCII harness");
    put(s, c as u8);
}

pub fn push_str(s: &mut String, t: &str) {
    let t = t.as_bytes();
    let mut i = 0;
    while i < t.len() {
        put(s, t[i]);
        i += 1;
    }
}

/// Used only for the text of errors, which no property reads.
pub fn from_utf8_lossy(_b: &[u8]) -> std::borrow::Cow<'_, str> {
    std::borrow::Cow::Borrowed("")
}

fn put(s: &mut String, b: u8) {
    unsafe {
        let v = s.as_mut_vec();
        let n = v.len();
        assert!(n < v.capacity(), "MODEL: no room in this text");
        *v.as_mut_ptr().add(n) = b;
        v.set_len(n + 1);
    }
}
