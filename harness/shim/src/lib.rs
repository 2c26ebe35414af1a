//! Native stand-in for the `kani` API used by the harnesses. `any()` pops the next recorded
//! value; a failed `assume` unwinds with [`Rejected`], so a replay can tell "the assignment does
//! not satisfy the harness preconditions on the real code" from "the property is broken".
use std::cell::RefCell;
use std::collections::VecDeque;

pub struct Rejected(pub &'static str);

thread_local! {
    static VALUES: RefCell<VecDeque<Vec<u8>>> = const { RefCell::new(VecDeque::new()) };
    static RANDOM: RefCell<Option<u64>> = const { RefCell::new(None) };
}

pub fn load(values: Vec<Vec<u8>>) {
    RANDOM.with(|r| *r.borrow_mut() = None);
    VALUES.with(|v| *v.borrow_mut() = values.into());
}

/// Answer `any()` from a seeded generator instead (used only to exercise harnesses natively).
pub fn load_random(seed: u64) {
    VALUES.with(|v| v.borrow_mut().clear());
    RANDOM.with(|r| *r.borrow_mut() = Some(seed | 1));
}

fn next_bytes(n: usize) -> Vec<u8> {
    let rnd = RANDOM.with(|r| {
        let mut r = r.borrow_mut();
        r.as_mut().map(|s| {
            let mut out = Vec::with_capacity(n);
            for _ in 0..n {
                *s ^= *s << 13;
                *s ^= *s >> 7;
                *s ^= *s << 17;
                out.push((*s >> 24) as u8);
            }
            out
        })
    });
    if let Some(b) = rnd {
        return b;
    }
    let got = VALUES.with(|v| v.borrow_mut().pop_front());
    match got {
        Some(b) if b.len() == n => b,
        Some(_) => std::panic::panic_any(Rejected("recorded value has another width")),
        // values the solver left unconstrained at the end of the trace
        None => vec![0; n],
    }
}

pub trait Arbitrary {
    fn any() -> Self;
}

macro_rules! int {
    ($($t:ty),*) => {$(
        impl Arbitrary for $t {
            fn any() -> Self {
                let b = next_bytes(core::mem::size_of::<$t>());
                let mut a = [0u8; core::mem::size_of::<$t>()];
                a.copy_from_slice(&b);
                <$t>::from_le_bytes(a)
            }
        }
    )*};
}
int!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, isize);

impl Arbitrary for bool {
    fn any() -> Self {
        let b = next_bytes(1)[0];
        let random = RANDOM.with(|r| r.borrow().is_some());
        if random {
            b & 1 == 1
        } else if b > 1 {
            std::panic::panic_any(Rejected("recorded bool is not 0 or 1"))
        } else {
            b == 1
        }
    }
}

pub fn any<T: Arbitrary>() -> T {
    T::any()
}

/// True while inputs come from the seeded generator (harnesses then fold values into range
/// instead of rejecting almost everything).
pub fn is_random() -> bool {
    RANDOM.with(|r| r.borrow().is_some())
}

pub fn assume(cond: bool) {
    if !cond {
        std::panic::panic_any(Rejected("assumption"));
    }
}

#[macro_export]
macro_rules! cover {
    ($($t:tt)*) => {};
}
