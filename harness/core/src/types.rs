//! Data types and their IRIs (L05), and how literals are written (L06).
use super::named::XSD;
use super::support::*;
use rdftk_core::model::literal::{DataType, LanguageTag, Literal};

const W3: Base = Base("http://www.w3.org", 4, true, false);
const XSD_PATH: &str = "/2001/XMLSchema";
const RDF_PATH: &str = "/1999/02/22-rdf-syntax-ns";

/// In the order of `XSD`.
fn data_type(n: usize) -> DataType {
    match n {
        0 => DataType::Iri,
        1 => DataType::Base64Binary,
        2 => DataType::Boolean,
        3 => DataType::Date,
        4 => DataType::DateTime,
        5 => DataType::Decimal,
        6 => DataType::Double,
        7 => DataType::Duration,
        8 => DataType::Float,
        9 => DataType::HexBinary,
        10 => DataType::QName,
        11 => DataType::String,
        12 => DataType::Time,
        13 => DataType::Long,
        14 => DataType::Int,
        15 => DataType::Short,
        16 => DataType::Byte,
        17 => DataType::UnsignedLong,
        18 => DataType::UnsignedInt,
        19 => DataType::UnsignedShort,
        20 => DataType::UnsignedByte,
        21 => DataType::Language,
        22 => DataType::Name,
        _ => DataType::XmlLiteral,
    }
}

/// Any data type's IRI is the one W3C gives it. (`from_fragment` is the way back.)
fn iri_of(from: usize, to: usize) {
    let n = kani::any::<u8>() as usize;
    kani::assume(n >= from && n < to);
    let t = data_type(n);
    let i = t.as_iri();
    if n < XSD.len() {
        let expected = Buf::new().add("http://www.w3.org").add(XSD_PATH).add("#").add(XSD[n]);
        assert!(same(iri_text(i), expected.get()), "L05: not the data type's IRI");
    } else {
        let expected = Buf::new().add("http://www.w3.org").add(RDF_PATH).add("#XMLLiteral");
        assert!(same(iri_text(i), expected.get()), "L05: not the data type's IRI");
    }
    core::mem::forget(t);
}

/// The IRI of any fragment of this length, under the XML Schema namespace or the RDF one.
fn from_fragment<const N: usize>(path: &str) {
    let t: [u8; N] = ascii_array();
    let mut i = 0;
    while i < N {
        kani::assume(t[i].is_ascii_alphanumeric());
        i += 1;
    }
    let iri = iri(W3, path, None, Some(text(&t)));
    let mut expected = usize::MAX;
    if path.len() == XSD_PATH.len() {
        let mut n = 0;
        while n < XSD.len() {
            if XSD[n].len() == N && same(XSD[n], text(&t)) {
                expected = n;
            }
            n += 1;
        }
    } else if same("XMLLiteral", text(&t)) {
        expected = XSD.len();
    }
    let d = DataType::from(iri.clone());
    let right = match &d {
        DataType::Iri => expected == 0,
        DataType::Base64Binary => expected == 1,
        DataType::Boolean => expected == 2,
        DataType::Date => expected == 3,
        DataType::DateTime => expected == 4,
        DataType::Decimal => expected == 5,
        DataType::Double => expected == 6,
        DataType::Duration => expected == 7,
        DataType::Float => expected == 8,
        DataType::HexBinary => expected == 9,
        DataType::QName => expected == 10,
        DataType::String => expected == 11,
        DataType::Time => expected == 12,
        DataType::Long => expected == 13,
        DataType::Int => expected == 14,
        DataType::Short => expected == 15,
        DataType::Byte => expected == 16,
        DataType::UnsignedLong => expected == 17,
        DataType::UnsignedInt => expected == 18,
        DataType::UnsignedShort => expected == 19,
        DataType::UnsignedByte => expected == 20,
        DataType::Language => expected == 21,
        DataType::Name => expected == 22,
        DataType::XmlLiteral => expected == 23,
        DataType::Other(other) => expected == usize::MAX && same(iri_text(other), iri_text(&iri)),
    };
    assert!(right, "L05: not the data type the IRI names");
    witness!(expected != usize::MAX);
    witness!(expected == usize::MAX);
    core::mem::forget((iri, d));
}

fn lexical() -> [u8; 2] {
    let t: [u8; 2] = ascii_array();
    let mut i = 0;
    while i < 2 {
        kani::assume(t[i] > b' ' && t[i] != b'"' && t[i] != b'\\' && t[i] != 127);
        i += 1;
    }
    t
}

fn quoted(t: &str, suffix: &str) -> Buf {
    Buf::new().add("\"").add(t).add("\"").add(suffix)
}

named_harnesses! {
    [ALL]
    fn l05q_iri_a [54] { iri_of(0, 12); }
    fn l05q_iri_b [54] { iri_of(12, 24); }
    fn l05q_fragment_3 [52] { from_fragment::<3>(XSD_PATH); }
    fn l05q_fragment_4 [52] { from_fragment::<4>(XSD_PATH); }
    fn l05q_fragment_5 [52] { from_fragment::<5>(XSD_PATH); }
    fn l05q_fragment_6 [52] { from_fragment::<6>(XSD_PATH); }
    fn l05q_fragment_7 [52] { from_fragment::<7>(XSD_PATH); }
    fn l05q_fragment_8 [52] { from_fragment::<8>(XSD_PATH); }
    fn l05q_fragment_9 [52] { from_fragment::<9>(XSD_PATH); }
    fn l05q_fragment_11 [52] { from_fragment::<11>(XSD_PATH); }
    fn l05q_fragment_12 [52] { from_fragment::<12>(XSD_PATH); }
    fn l05q_fragment_13 [52] { from_fragment::<13>(XSD_PATH); }
    fn l05q_fragment_rdf [52] { from_fragment::<10>(RDF_PATH); }
    fn l06q_plain [10] {
        let t = lexical();
        let l = Literal::plain(text(&t));
        assert!(same(&l.to_string(), quoted(text(&t), "").get()), "L06: a plain literal");
        assert!(same(&format!("{l:#}"), quoted(text(&t), "").get()), "L06: a plain literal");
        core::mem::forget(l);
    }
    fn l06q_language [30] {
        let t = lexical();
        let l = Literal::with_language(text(&t), LanguageTag::parse("en").unwrap());
        assert!(same(&l.to_string(), quoted(text(&t), "@en").get()), "L06: a literal with a language");
        core::mem::forget(l);
    }
    fn l06q_string [48] {
        let t = lexical();
        let l = Literal::from(text(&t));
        let expected = quoted(text(&t), "^^<http://www.w3.org/2001/XMLSchema#string>");
        assert!(same(&l.to_string(), expected.get()), "L06: a typed literal");
        core::mem::forget(l);
    }
    fn l06q_other [20] {
        let t = lexical();
        let l = Literal::with_data_type_iri(text(&t), iri(HTTP, "/", None, Some("t")));
        let expected = quoted(text(&t), "^^<http://h/#t>");
        assert!(same(&l.to_string(), expected.get()), "L06: a typed literal");
        core::mem::forget(l);
    }
    fn l06q_byte [48] {
        let t = lexical();
        let l = Literal::with_data_type(text(&t), DataType::Byte);
        assert!(same(&l.to_string(), text(&t)), "L06: a number");
        let expected = quoted(text(&t), "^^<http://www.w3.org/2001/XMLSchema#byte>");
        assert!(same(&format!("{l:#}"), expected.get()), "L06: a number with its type");
        core::mem::forget(l);
    }
    fn l06q_iri [20] {
        let t = lexical();
        kani::assume(t[0].is_ascii_alphanumeric() && t[1].is_ascii_alphanumeric());
        let i = iri(HTTP, "/", None, Some(text(&t)));
        let l = Literal::from(&i);
        let expected = Buf::new().add("<http://h/#").add(text(&t)).add(">");
        assert!(same(&l.to_string(), expected.get()), "L06: an IRI");
        core::mem::forget((l, i));
    }
}
