//! Serialized forms (properties S..), through a minimal self-describing data format: a flat list
//! of tokens. Strings are strings, structs and maps are counted key/value lists, enum variants are
//! a name and a value, newtype structs are transparent (as in JSON).
use super::names::{any_name, any_namespace};
use super::support::*;
use core::fmt;
use rdftk_iri::{Iri, IriPrefixMap, IriRef, LocalName, Name, Namespace, PrefixedName};
use serde::de::{DeserializeSeed, EnumAccess, MapAccess, VariantAccess, Visitor};
use serde::ser::{Impossible, SerializeMap, SerializeStruct};
use serde::{Deserialize, Deserializer, Serialize, Serializer};

#[derive(Debug)]
pub struct Bad;

impl fmt::Display for Bad {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl core::error::Error for Bad {}
impl serde::ser::Error for Bad {
    fn custom<T: fmt::Display>(_: T) -> Bad {
        Bad
    }
}
impl serde::de::Error for Bad {
    fn custom<T: fmt::Display>(_: T) -> Bad {
        Bad
    }
}

#[derive(Clone, Copy)]
pub enum Tok<'t> {
    Str(&'t str),
    /// A field or variant name: whatever the writer says.
    Name(&'static str),
    Open(usize),
    End,
}
use Tok::{End, Open, Str};
const NAME: Tok<'static> = Tok::Name("");

/// Up to eight tokens.
#[derive(Clone, Copy)]
pub struct Toks<'t>([Tok<'t>; 8]);

/// Compares what is written with the tokens expected, filling in the names.
struct Writer<'t> {
    t: Toks<'t>,
    at: usize,
}

impl<'t> Toks<'t> {
    fn new(t: &[Tok<'t>]) -> Toks<'t> {
        let mut a = [End; 8];
        let mut i = 0;
        while i < t.len() {
            a[i] = t[i];
            i += 1;
        }
        Toks(a)
    }
    fn one(s: &'t str) -> Toks<'t> {
        Toks([Str(s), End, End, End, End, End, End, End])
    }
    /// Write `v`, which must come out as these tokens.
    fn written<T: Serialize>(self, v: &T) -> Toks<'t> {
        let mut w = Writer { t: self, at: 0 };
        assert!(v.serialize(&mut w).is_ok(), "S02: a value cannot be written");
        assert!(matches!(w.t.0[w.at], End), "S02: part of a value is not written");
        w.t
    }
    fn read<T: for<'de> Deserialize<'de>>(&self) -> Result<T, Bad> {
        let mut r = Reader { t: &self.0, at: 0 };
        match T::deserialize(&mut r) {
            Ok(v) => {
                if matches!(self.0[r.at], End) {
                    Ok(v)
                } else {
                    Err(Bad)
                }
            }
            Err(e) => Err(e),
        }
    }
}

macro_rules! no {
    ($($f:ident($t:ty))*) => { $(fn $f(self, _: $t) -> Result<(), Bad> { Err(Bad) })* };
}

impl<'a, 't> Serializer for &'a mut Writer<'t> {
    type Ok = ();
    type Error = Bad;
    type SerializeSeq = Impossible<(), Bad>;
    type SerializeTuple = Impossible<(), Bad>;
    type SerializeTupleStruct = Impossible<(), Bad>;
    type SerializeTupleVariant = Impossible<(), Bad>;
    type SerializeMap = &'a mut Writer<'t>;
    type SerializeStruct = &'a mut Writer<'t>;
    type SerializeStructVariant = Impossible<(), Bad>;
    no! { serialize_bool(bool) serialize_i8(i8) serialize_i16(i16) serialize_i32(i32)
    serialize_i64(i64) serialize_u8(u8) serialize_u16(u16) serialize_u32(u32) serialize_u64(u64)
    serialize_f32(f32) serialize_f64(f64) serialize_char(char) serialize_bytes(&[u8])
    serialize_unit_struct(&'static str) }
    fn serialize_str(self, s: &str) -> Result<(), Bad> {
        match self.t.0[self.at] {
            Str(w) => assert!(same(w, s), "S02: a value is not written as its text"),
            _ => panic!("S02: a value is not written in its documented form"),
        }
        self.at += 1;
        Ok(())
    }
    fn serialize_none(self) -> Result<(), Bad> {
        Err(Bad)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), Bad> {
        Err(Bad)
    }
    fn serialize_unit(self) -> Result<(), Bad> {
        Err(Bad)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), Bad> {
        Err(Bad)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), Bad> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(
        self,
        _: &'static str,
        _: u32,
        variant: &'static str,
        v: &T,
    ) -> Result<(), Bad> {
        self.name(variant)?;
        v.serialize(self)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Bad> {
        Err(Bad)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Bad> {
        Err(Bad)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Bad> {
        Err(Bad)
    }
    fn serialize_tuple_variant(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: usize,
    ) -> Result<Self::SerializeTupleVariant, Bad> {
        Err(Bad)
    }
    fn serialize_map(self, n: Option<usize>) -> Result<&'a mut Writer<'t>, Bad> {
        match n {
            Some(n) => {
                self.open(n)?;
                Ok(self)
            }
            None => Err(Bad),
        }
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<&'a mut Writer<'t>, Bad> {
        self.open(n)?;
        Ok(self)
    }
    fn serialize_struct_variant(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: usize,
    ) -> Result<Self::SerializeStructVariant, Bad> {
        Err(Bad)
    }
}

impl<'a, 't> SerializeMap for &'a mut Writer<'t> {
    type Ok = ();
    type Error = Bad;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), Bad> {
        k.serialize(&mut **self)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Bad> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), Bad> {
        Ok(())
    }
}

impl<'a, 't> SerializeStruct for &'a mut Writer<'t> {
    type Ok = ();
    type Error = Bad;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Bad> {
        self.name(k)?;
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), Bad> {
        Ok(())
    }
}

impl<'t> Writer<'t> {
    fn name(&mut self, s: &'static str) -> Result<(), Bad> {
        match self.t.0[self.at] {
            Tok::Name(_) => self.t.0[self.at] = Tok::Name(s),
            _ => panic!("S02: a value is not written in its documented form"),
        }
        self.at += 1;
        Ok(())
    }
    fn open(&mut self, n: usize) -> Result<(), Bad> {
        match self.t.0[self.at] {
            Open(m) => assert!(m == n, "S02: the number of parts written"),
            _ => panic!("S02: a value is not written in its documented form"),
        }
        self.at += 1;
        Ok(())
    }
}

struct Reader<'t> {
    t: &'t [Tok<'t>; 8],
    at: usize,
}

macro_rules! as_any {
    ($($f:ident)*) => { $(fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        self.deserialize_any(v)
    })* };
}

impl<'de, 't, 'r> Deserializer<'de> for &'r mut Reader<'t> {
    type Error = Bad;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        let t = self.t[self.at];
        self.at += 1;
        match t {
            Str(s) => v.visit_str(s),
            Tok::Name(s) => v.visit_str(s),
            Open(n) => v.visit_map(Entries { r: self, left: n }),
            End => {
                self.at -= 1;
                Err(Bad)
            }
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Bad> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_struct<V: Visitor<'de>>(
        self,
        _: &'static str,
        _: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, Bad> {
        self.deserialize_any(v)
    }
    fn deserialize_enum<V: Visitor<'de>>(
        self,
        _: &'static str,
        _: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, Bad> {
        v.visit_enum(self)
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Bad> {
        self.deserialize_any(v)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Bad> {
        self.deserialize_any(v)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, Bad> {
        self.deserialize_any(v)
    }
    as_any! { deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64
    deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_f32 deserialize_f64
    deserialize_char deserialize_str deserialize_string deserialize_bytes deserialize_byte_buf
    deserialize_option deserialize_unit deserialize_seq deserialize_map deserialize_identifier
    deserialize_ignored_any }
}

struct Entries<'t, 'r> {
    r: &'r mut Reader<'t>,
    left: usize,
}

impl<'de, 't, 'r> MapAccess<'de> for Entries<'t, 'r> {
    type Error = Bad;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Bad> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        match seed.deserialize(&mut *self.r) {
            Ok(v) => Ok(Some(v)),
            Err(e) => Err(e),
        }
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, Bad> {
        seed.deserialize(&mut *self.r)
    }
}

impl<'de, 't, 'r> EnumAccess<'de> for &'r mut Reader<'t> {
    type Error = Bad;
    type Variant = Self;
    fn variant_seed<V: DeserializeSeed<'de>>(self, seed: V) -> Result<(V::Value, Self), Bad> {
        let v = seed.deserialize(&mut *self)?;
        Ok((v, self))
    }
}

impl<'de, 't, 'r> VariantAccess<'de> for &'r mut Reader<'t> {
    type Error = Bad;
    fn unit_variant(self) -> Result<(), Bad> {
        Err(Bad)
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value, Bad> {
        seed.deserialize(self)
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, Bad> {
        Err(Bad)
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], _: V) -> Result<V::Value, Bad> {
        Err(Bad)
    }
}

harnesses! {
    [ALL]
    // S01: only what the grammar allows is accepted
    fn s01q_name_1 [8] { read_name::<1>() }
    fn s01q_name_2 [9] { read_name::<2>() }
    fn s01q_name_3 [10] { read_name::<3>() }
    fn s01q_namespace_1 [8] { read_namespace::<1>() }
    fn s01q_namespace_2 [9] { read_namespace::<2>() }
    fn s01q_namespace_3 [10] { read_namespace::<3>() }
    fn s01q_empty [6] { read_empty() }
    fn s01q_iri_3 [10] { read_iri::<3>() }
    fn s01q_local [14] { read_local() }
    fn s01t_name_5 [12] { read_name::<5>() }
    fn s01t_namespace_5 [12] { read_namespace::<5>() }

    // S02: values survive being written and read
    fn s02q_name [10] { name_trip::<3>() }
    fn s02q_namespace [10] { namespace_trip::<3>() }
    fn s02q_namespace_1 [10] { namespace_trip::<1>() }
    fn s02q_iri [14] { iri_trip(BARE, None, Some("f")) }
    fn s02q_iri_http [18] { iri_trip(HTTP, Some("q"), None) }
    fn s02q_local [14] { local_trip() }
    fn s02q_prefixed_local [14] { prefixed_local_trip() }
    fn s02q_prefixed_namespace [14] { prefixed_namespace_trip() }
    fn s02q_iriref_iri [16] { iriref_iri_trip() }
    fn s02q_iriref_local [16] { iriref_local_trip() }
    fn s02q_map_empty [16] { map_empty_trip() }
    fn s02q_map_1 [16] { map_trip() }
}

fn read_name<const N: usize>() {
    let b = ascii_array::<N>();
    let want = is_pn_local(&widen(&b));
    match Toks::one(text(&b)).read::<Name>() {
        Ok(n) => {
            assert!(want, "S01: read a name outside the grammar");
            assert!(same(n.as_ref(), text(&b)), "S01: read another name");
        }
        Err(_) => assert!(!want, "S01: refused a valid name"),
    }
    witness!(want);
    witness!(!want);
}

fn read_namespace<const N: usize>() {
    let b = ascii_array::<N>();
    let want = is_pname_ns(&widen(&b));
    match Toks::one(text(&b)).read::<Namespace>() {
        Ok(n) => {
            assert!(want, "S01: read a namespace outside the grammar");
            assert!(same(n.as_ref(), text(&b)), "S01: read another namespace");
        }
        Err(_) => assert!(!want, "S01: refused a valid namespace"),
    }
    witness!(want);
    witness!(!want);
}

fn read_empty() {
    assert!(Toks::one("").read::<Name>().is_err(), "S01: read an empty name");
    assert!(Toks::one("").read::<Namespace>().is_err(), "S01: read an empty namespace");
    witness!(true);
}

/// An Iri reads exactly what the URL parser accepts.
fn read_iri<const N: usize>() {
    let b = ascii_array::<N>();
    parser_is_abstract();
    let want = url::Url::parse(text(&b));
    match (Toks::one(text(&b)).read::<Iri>(), &want) {
        (Ok(g), Ok(w)) => assert!(same(iri_text(&g), w.as_str()), "S01: read another IRI"),
        (Err(_), Err(_)) => {}
        (Ok(_), Err(_)) => panic!("S01: read an invalid IRI"),
        (Err(_), Ok(_)) => panic!("S01: refused a valid IRI"),
    }
    witness!(want.is_ok());
    witness!(want.is_err());
}

/// A local name made of any two strings is accepted when both are valid.
fn read_local() {
    let a = ascii_array::<2>();
    let b = ascii_array::<2>();
    let want = is_pname_ns(&widen(&a)) && is_pn_local(&widen(&b));
    let t = Toks::new(&[Open(2), Tok::Name("namespace"), Str(text(&a)), Tok::Name("name"), Str(text(&b))]);
    let got = t.read::<LocalName>();
    assert!(got.is_ok() == want, "S01: local names");
    witness!(want);
    witness!(!want);
}

fn trip<T: Serialize + for<'de> Deserialize<'de> + PartialEq>(v: &T, form: &[Tok<'_>]) {
    match Toks::new(form).written(v).read::<T>() {
        Ok(w) => assert!(w == *v, "S02: another value was read back"),
        Err(_) => panic!("S02: a written value cannot be read"),
    }
    witness!(true);
}

fn name_trip<const N: usize>() {
    let b = ascii_array::<N>();
    trip(&any_name(&b), &[Str(text(&b))]);
}

fn namespace_trip<const N: usize>() {
    let b = ascii_array::<N>();
    trip(&any_namespace(&b), &[Str(text(&b))]);
}

fn iri_trip(base: Base, q: Option<&str>, f: Option<&str>) {
    let c = letters::<2>();
    let u = iri(base, text(&[b'/', c[0], c[1]]), q, f);
    trip(&u, &[Str(iri_text(&u))]);
}

fn letters<const N: usize>() -> [u8; N] {
    let b = ascii_array::<N>();
    let mut i = 0;
    while i < N {
        kani::assume(b[i].is_ascii_alphanumeric());
        i += 1;
    }
    b
}

fn local_trip() {
    let (a, b) = (ascii_array::<2>(), ascii_array::<2>());
    let v = LocalName::new(any_namespace(&a), any_name(&b));
    trip(&v, &[Open(2), NAME, Str(text(&a)), NAME, Str(text(&b))]);
}

fn prefixed_local_trip() {
    let (a, b) = (ascii_array::<2>(), ascii_array::<2>());
    let v = PrefixedName::Local(LocalName::new(any_namespace(&a), any_name(&b)));
    trip(&v, &[NAME, Open(2), NAME, Str(text(&a)), NAME, Str(text(&b))]);
}

fn prefixed_namespace_trip() {
    let a = ascii_array::<2>();
    trip(&PrefixedName::Namespace(any_namespace(&a)), &[NAME, Str(text(&a))]);
}

fn iriref_iri_trip() {
    let c = letters::<2>();
    let i = iri(BARE, text(&[b'/', c[0], c[1]]), None, Some(""));
    trip(&IriRef::Iri(i.clone()), &[NAME, Str(iri_text(&i))]);
}

fn iriref_local_trip() {
    let (a, b) = (ascii_array::<2>(), ascii_array::<2>());
    let v = IriRef::PrefixedName(PrefixedName::Local(LocalName::new(any_namespace(&a), any_name(&b))));
    trip(&v, &[NAME, NAME, Open(2), NAME, Str(text(&a)), NAME, Str(text(&b))]);
}

fn map_empty_trip() {
    trip(&IriPrefixMap::empty(), &[Open(1), NAME, Open(0)]);
}

fn map_trip() {
    let a = ascii_array::<2>();
    let c = letters::<1>();
    let i = iri(BARE, text(&[b'/', c[0]]), None, Some(""));
    let whole = [b'a', b':', b'/', c[0], b'#'];
    trip(
        &IriPrefixMap::empty().with(any_namespace(&a), i),
        &[Open(1), NAME, Open(1), Str(text(&a)), Str(text(&whole))],
    );
}
