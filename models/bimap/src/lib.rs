//! A model of `bimap::BiBTreeMap` for symbolic execution: the same contract (a bijection kept by
//! overwriting, iterated in key order) over a flat list of slots instead of two B-trees of `Rc`s.
//! The slot list only grows, so the number of slots is concrete in every symbolic run.
//! Removed entries stay in place, marked dead; values left in a map are leaked, not dropped.

pub mod btree {
    pub use super::{BiBTreeMap, Iter, LeftValues, RightValues};
}

use core::borrow::Borrow;
use core::cmp::Ordering;
use core::fmt;
use core::hash::{Hash, Hasher};
use core::mem::ManuallyDrop;

#[derive(Clone, Copy, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
pub enum Overwritten<L, R> {
    Neither,
    Left(L, R),
    Right(L, R),
    Pair(L, R),
    Both((L, R), (L, R)),
}

impl<L, R> Overwritten<L, R> {
    pub fn did_overwrite(&self) -> bool {
        !matches!(self, Overwritten::Neither)
    }
}

/// One inserted pair, at a fixed place for the life of the map; removal only clears `alive`.
struct Slot<L, R> {
    alive: bool,
    l: ManuallyDrop<L>,
    r: ManuallyDrop<R>,
}

pub struct BiBTreeMap<L, R> {
    slots: Vec<Box<Slot<L, R>>>,
}

/// (A recognisable value: a zero-initialised static can share its storage with other constants.)
#[cfg(kani)]
const UNSET: usize = 0x5155_0000_0000;
#[cfg(kani)]
static mut HIT: usize = UNSET;

/// Case split: from here on every lookup finds the `slot`-th inserted entry (0: nothing).
pub fn model_hit(_slot: usize) {
    #[cfg(kani)]
    unsafe {
        HIT = _slot;
    }
}

impl<L, R> Slot<L, R> {
    fn new(l: L, r: R) -> Box<Self> {
        Box::new(Slot {
            alive: true,
            l: ManuallyDrop::new(l),
            r: ManuallyDrop::new(r),
        })
    }
    /// Move the pair out of a slot that was just marked dead (and is never dropped).
    fn take(&self) -> (L, R) {
        unsafe {
            (
                core::ptr::read(&*self.l as *const L),
                core::ptr::read(&*self.r as *const R),
            )
        }
    }
}

impl<L: Ord, R: Ord> BiBTreeMap<L, R> {
    pub fn new() -> Self {
        Self { slots: Vec::with_capacity(8) }
    }

    pub fn len(&self) -> usize {
        let mut n = 0;
        let mut i = 0;
        while i < self.slots.len() {
            if self.slots[i].alive {
                n += 1;
            }
            i += 1;
        }
        n
    }

    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }

    pub fn clear(&mut self) {
        self.slots = Vec::with_capacity(8);
    }

    pub fn iter(&self) -> Iter<'_, L, R> {
        Iter::over(&self.slots)
    }

    pub fn left_values(&self) -> LeftValues<'_, L, R> {
        LeftValues(self.iter())
    }

    pub fn right_values(&self) -> RightValues<'_, L, R> {
        RightValues::over(&self.slots)
    }

    pub fn get_by_left<Q>(&self, left: &Q) -> Option<&R>
    where
        L: Borrow<Q>,
        Q: Ord + ?Sized,
    {
        #[cfg(all(kani, not(plain)))]
        {
            // The harness fixed which entry is found (see `model_hit`): make that a constant,
            // after checking that it is so.
            let hit = unsafe { HIT };
            if hit != UNSET {
                let mut ok = true;
                let mut i = 0;
                while i < self.slots.len() {
                    let s = &*self.slots[i];
                    ok = ok && (s.alive && L::borrow(&s.l) == left) == (i + 1 == hit);
                    i += 1;
                }
                ok = ok && hit <= self.slots.len();
                assert!(ok, "MODEL: the case split does not fit the lookup");
                return if hit == 0 { None } else { Some(&self.slots[hit - 1].r) };
            }
        }
        let mut i = 0;
        while i < self.slots.len() {
            let s = &*self.slots[i];
            if s.alive && L::borrow(&s.l) == left {
                return Some(&s.r);
            }
            i += 1;
        }
        None
    }

    pub fn get_by_right<Q>(&self, right: &Q) -> Option<&L>
    where
        R: Borrow<Q>,
        Q: Ord + ?Sized,
    {
        #[cfg(all(kani, not(plain)))]
        {
            // The harness fixed which entry is found (see `model_hit`): make that a constant,
            // after checking that it is so.
            let hit = unsafe { HIT };
            if hit != UNSET {
                let mut ok = true;
                let mut i = 0;
                while i < self.slots.len() {
                    let s = &*self.slots[i];
                    ok = ok && (s.alive && R::borrow(&s.r) == right) == (i + 1 == hit);
                    i += 1;
                }
                ok = ok && hit <= self.slots.len();
                assert!(ok, "MODEL: the case split does not fit the lookup");
                return if hit == 0 { None } else { Some(&self.slots[hit - 1].l) };
            }
        }
        let mut i = 0;
        while i < self.slots.len() {
            let s = &*self.slots[i];
            if s.alive && R::borrow(&s.r) == right {
                return Some(&s.l);
            }
            i += 1;
        }
        None
    }

    pub fn contains_left<Q>(&self, left: &Q) -> bool
    where
        L: Borrow<Q>,
        Q: Ord + ?Sized,
    {
        self.get_by_left(left).is_some()
    }

    pub fn contains_right<Q>(&self, right: &Q) -> bool
    where
        R: Borrow<Q>,
        Q: Ord + ?Sized,
    {
        self.get_by_right(right).is_some()
    }

    pub fn remove_by_left<Q>(&mut self, left: &Q) -> Option<(L, R)>
    where
        L: Borrow<Q>,
        Q: Ord + ?Sized,
    {
        let mut i = 0;
        while i < self.slots.len() {
            let s = &mut *self.slots[i];
            if s.alive && L::borrow(&s.l) == left {
                s.alive = false;
                return Some(s.take());
            }
            i += 1;
        }
        None
    }

    pub fn remove_by_right<Q>(&mut self, right: &Q) -> Option<(L, R)>
    where
        R: Borrow<Q>,
        Q: Ord + ?Sized,
    {
        let mut i = 0;
        while i < self.slots.len() {
            let s = &mut *self.slots[i];
            if s.alive && R::borrow(&s.r) == right {
                s.alive = false;
                return Some(s.take());
            }
            i += 1;
        }
        None
    }

    pub fn retain<F>(&mut self, mut f: F)
    where
        F: FnMut(&L, &R) -> bool,
    {
        // slot order, not key order: only observable through a stateful closure
        let mut i = 0;
        while i < self.slots.len() {
            let s = &mut *self.slots[i];
            if s.alive && !f(&s.l, &s.r) {
                s.alive = false;
            }
            i += 1;
        }
    }

    pub fn insert(&mut self, left: L, right: R) -> Overwritten<L, R> {
        let old_l = self.remove_by_left(&left);
        let old_r = self.remove_by_right(&right);
        let result = match (old_l, old_r) {
            (None, None) => Overwritten::Neither,
            (None, Some(p)) => Overwritten::Right(p.0, p.1),
            (Some(p), None) => {
                if p.1 == right {
                    Overwritten::Pair(p.0, p.1)
                } else {
                    Overwritten::Left(p.0, p.1)
                }
            }
            (Some(p), Some(q)) => Overwritten::Both(p, q),
        };
        self.slots.push(Slot::new(left, right));
        result
    }

    pub fn insert_no_overwrite(&mut self, left: L, right: R) -> Result<(), (L, R)> {
        if self.contains_left(&left) || self.contains_right(&right) {
            Err((left, right))
        } else {
            self.slots.push(Slot::new(left, right));
            Ok(())
        }
    }
}

impl<L: Clone + Ord, R: Clone + Ord> Clone for BiBTreeMap<L, R> {
    fn clone(&self) -> Self {
        let mut slots = Vec::with_capacity(if self.slots.len() < 8 { 8 } else { self.slots.len() });
        let mut i = 0;
        while i < self.slots.len() {
            let s = &*self.slots[i];
            let mut c = Slot::new(L::clone(&s.l), R::clone(&s.r));
            c.alive = s.alive;
            slots.push(c);
            i += 1;
        }
        Self { slots }
    }
}

impl<L: fmt::Debug + Ord, R: fmt::Debug + Ord> fmt::Debug for BiBTreeMap<L, R> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_map().entries(self.iter()).finish()
    }
}

impl<L: Ord, R: Ord> Default for BiBTreeMap<L, R> {
    fn default() -> Self {
        Self::new()
    }
}

impl<L: Ord, R: Ord> PartialEq for BiBTreeMap<L, R> {
    fn eq(&self, other: &Self) -> bool {
        if self.len() != other.len() {
            return false;
        }
        let mut i = 0;
        while i < self.slots.len() {
            let s = &*self.slots[i];
            if s.alive {
                match other.get_by_left::<L>(&s.l) {
                    Some(x) if *x == *s.r => {}
                    _ => return false,
                }
            }
            i += 1;
        }
        true
    }
}

impl<L: Ord, R: Ord> Eq for BiBTreeMap<L, R> {}

impl<L: Ord, R: Ord> Ord for BiBTreeMap<L, R> {
    fn cmp(&self, other: &Self) -> Ordering {
        self.iter().cmp(other.iter())
    }
}

impl<L: Ord, R: Ord> PartialOrd for BiBTreeMap<L, R> {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(self.cmp(other))
    }
}

impl<L: Ord + Hash, R: Ord + Hash> Hash for BiBTreeMap<L, R> {
    fn hash<H: Hasher>(&self, state: &mut H) {
        for (l, r) in self.iter() {
            l.hash(state);
            r.hash(state);
        }
    }
}

impl<L: Ord, R: Ord> FromIterator<(L, R)> for BiBTreeMap<L, R> {
    fn from_iter<I: IntoIterator<Item = (L, R)>>(iter: I) -> Self {
        let mut m = Self::new();
        m.extend(iter);
        m
    }
}

impl<L: Ord, R: Ord> Extend<(L, R)> for BiBTreeMap<L, R> {
    fn extend<I: IntoIterator<Item = (L, R)>>(&mut self, iter: I) {
        for (l, r) in iter {
            core::mem::forget(self.insert(l, r));
        }
    }
}

impl<'a, L: Ord, R: Ord> IntoIterator for &'a BiBTreeMap<L, R> {
    type Item = (&'a L, &'a R);
    type IntoIter = Iter<'a, L, R>;
    fn into_iter(self) -> Iter<'a, L, R> {
        self.iter()
    }
}

impl<L: Ord, R: Ord> IntoIterator for BiBTreeMap<L, R> {
    type Item = (L, R);
    type IntoIter = std::vec::IntoIter<(L, R)>;
    fn into_iter(self) -> Self::IntoIter {
        let mut v = Vec::with_capacity(self.slots.len());
        for (l, r) in self.iter() {
            // (values left in a map are never dropped)
            v.push(unsafe { (core::ptr::read(l), core::ptr::read(r)) });
        }
        v.into_iter()
    }
}

/// The most slots a map may have while it is iterated.
const CAP: usize = 16;

/// Iteration is in key order. The position of every live entry is computed once, up front.
macro_rules! ordered_iter {
    ($name:ident, $key:ident, $pick:expr, $item:ty) => {
        pub struct $name<'a, L, R> {
            slots: &'a Vec<Box<Slot<L, R>>>,
            rank: [u8; CAP],
            front: u8,
            back: u8,
        }

        impl<'a, L: Ord, R: Ord> $name<'a, L, R> {
            fn over(slots: &'a Vec<Box<Slot<L, R>>>) -> Self {
                let pick: fn(&'a Slot<L, R>) -> (&'a $key, $item) = $pick;
                let mut rank = [0u8; CAP];
                let mut live = 0;
                assert!(slots.len() <= CAP, "MODEL: too many slots");
                let mut i = 0;
                while i < slots.len() {
                    live += slots[i].alive as u8;
                    let mut j = 0;
                    while j < i {
                        // (the keys of a dead entry are gone)
                        if slots[i].alive && slots[j].alive {
                            if pick(&*slots[i]).0 < pick(&*slots[j]).0 {
                                rank[j] += 1;
                            } else {
                                rank[i] += 1;
                            }
                        }
                        j += 1;
                    }
                    i += 1;
                }
                Self { slots, rank, front: 0, back: live }
            }

            fn at(&self, place: u8) -> Option<$item> {
                let pick: fn(&'a Slot<L, R>) -> (&'a $key, $item) = $pick;
                let mut i = 0;
                while i < self.slots.len() {
                    let e: &'a Slot<L, R> = &*self.slots[i];
                    if e.alive && self.rank[i] == place {
                        return Some(pick(e).1);
                    }
                    i += 1;
                }
                None
            }
        }

        impl<'a, L: Ord, R: Ord> Iterator for $name<'a, L, R> {
            type Item = $item;
            fn next(&mut self) -> Option<$item> {
                if self.front == self.back {
                    return None;
                }
                self.front += 1;
                self.at(self.front - 1)
            }
            fn size_hint(&self) -> (usize, Option<usize>) {
                let n = (self.back - self.front) as usize;
                (n, Some(n))
            }
        }

        impl<'a, L: Ord, R: Ord> DoubleEndedIterator for $name<'a, L, R> {
            fn next_back(&mut self) -> Option<$item> {
                if self.front == self.back {
                    return None;
                }
                self.back -= 1;
                self.at(self.back)
            }
        }

        impl<'a, L: Ord, R: Ord> ExactSizeIterator for $name<'a, L, R> {}
        impl<'a, L: Ord, R: Ord> core::iter::FusedIterator for $name<'a, L, R> {}
        impl<'a, L, R> Clone for $name<'a, L, R> {
            fn clone(&self) -> Self {
                Self {
                    slots: self.slots,
                    rank: self.rank,
                    front: self.front,
                    back: self.back,
                }
            }
        }
    };
}

ordered_iter!(Iter, L, |e| (&*e.l, (&*e.l, &*e.r)), (&'a L, &'a R));
ordered_iter!(RightValues, R, |e| (&*e.r, &*e.r), &'a R);

#[derive(Clone)]
pub struct LeftValues<'a, L, R>(Iter<'a, L, R>);

impl<'a, L: Ord, R: Ord> Iterator for LeftValues<'a, L, R> {
    type Item = &'a L;
    fn next(&mut self) -> Option<&'a L> {
        match self.0.next() {
            Some((l, _)) => Some(l),
            None => None,
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}

impl<'a, L: Ord, R: Ord> DoubleEndedIterator for LeftValues<'a, L, R> {
    fn next_back(&mut self) -> Option<&'a L> {
        match self.0.next_back() {
            Some((l, _)) => Some(l),
            None => None,
        }
    }
}
impl<'a, L: Ord, R: Ord> ExactSizeIterator for LeftValues<'a, L, R> {}

#[cfg(feature = "serde")]
impl<L: serde::Serialize + Ord, R: serde::Serialize + Ord> serde::Serialize for BiBTreeMap<L, R> {
    fn serialize<S: serde::Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> {
        ser.collect_map(self.iter())
    }
}

#[cfg(feature = "serde")]
impl<'de, L, R> serde::Deserialize<'de> for BiBTreeMap<L, R>
where
    L: serde::Deserialize<'de> + Ord,
    R: serde::Deserialize<'de> + Ord,
{
    fn deserialize<D: serde::Deserializer<'de>>(de: D) -> Result<Self, D::Error> {
        struct V<L, R>(core::marker::PhantomData<(L, R)>);
        impl<'de, L, R> serde::de::Visitor<'de> for V<L, R>
        where
            L: serde::Deserialize<'de> + Ord,
            R: serde::Deserialize<'de> + Ord,
        {
            type Value = BiBTreeMap<L, R>;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("a map")
            }
            fn visit_map<A: serde::de::MapAccess<'de>>(
                self,
                mut entries: A,
            ) -> Result<Self::Value, A::Error> {
                let mut map = BiBTreeMap::new();
                while let Some((l, r)) = entries.next_entry()? {
                    map.insert(l, r);
                }
                Ok(map)
            }
        }
        de.deserialize_map(V(core::marker::PhantomData))
    }
}
