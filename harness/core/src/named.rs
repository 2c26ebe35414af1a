//! Stand-ins for the cached names of `rdftk_names` (a lazily filled `HashMap` of IRIs, which is
//! beyond the solver): each returns the IRI, or qualified name, that W3C defines. What
//! `rdftk_names` itself returns is outside these properties; a replay uses the real crate.
use super::support::*;
use rdftk_iri::Iri;

const W3: Base = Base("http://www.w3.org", 4, true, false);

fn named(path: &str, name: &str) -> &'static Iri {
    Box::leak(Box::new(iri(W3, path, None, Some(name))))
}

/// The data types' names, in the order of `DataType`.
pub const XSD: &[&str] = &[
    "anyURI",
    "base64Binary",
    "boolean",
    "date",
    "dateTime",
    "decimal",
    "double",
    "duration",
    "float",
    "hexBinary",
    "QName",
    "string",
    "time",
    "long",
    "int",
    "short",
    "byte",
    "unsignedLong",
    "unsignedInt",
    "unsignedShort",
    "unsignedByte",
    "language",
    "Name",
];

pub mod xsd {
    use super::*;
    pub fn any_uri() -> &'static Iri {
        named("/2001/XMLSchema", "anyURI")
    }
    pub fn any_uri_qname() -> &'static str {
        "xsd:anyURI"
    }
    pub fn base64_binary() -> &'static Iri {
        named("/2001/XMLSchema", "base64Binary")
    }
    pub fn base64_binary_qname() -> &'static str {
        "xsd:base64Binary"
    }
    pub fn boolean() -> &'static Iri {
        named("/2001/XMLSchema", "boolean")
    }
    pub fn boolean_qname() -> &'static str {
        "xsd:boolean"
    }
    pub fn date() -> &'static Iri {
        named("/2001/XMLSchema", "date")
    }
    pub fn date_qname() -> &'static str {
        "xsd:date"
    }
    pub fn date_time() -> &'static Iri {
        named("/2001/XMLSchema", "dateTime")
    }
    pub fn date_time_qname() -> &'static str {
        "xsd:dateTime"
    }
    pub fn decimal() -> &'static Iri {
        named("/2001/XMLSchema", "decimal")
    }
    pub fn decimal_qname() -> &'static str {
        "xsd:decimal"
    }
    pub fn double() -> &'static Iri {
        named("/2001/XMLSchema", "double")
    }
    pub fn double_qname() -> &'static str {
        "xsd:double"
    }
    pub fn duration() -> &'static Iri {
        named("/2001/XMLSchema", "duration")
    }
    pub fn duration_qname() -> &'static str {
        "xsd:duration"
    }
    pub fn float() -> &'static Iri {
        named("/2001/XMLSchema", "float")
    }
    pub fn float_qname() -> &'static str {
        "xsd:float"
    }
    pub fn hex_binary() -> &'static Iri {
        named("/2001/XMLSchema", "hexBinary")
    }
    pub fn hex_binary_qname() -> &'static str {
        "xsd:hexBinary"
    }
    pub fn q_name() -> &'static Iri {
        named("/2001/XMLSchema", "QName")
    }
    pub fn q_name_qname() -> &'static str {
        "xsd:QName"
    }
    pub fn string() -> &'static Iri {
        named("/2001/XMLSchema", "string")
    }
    pub fn string_qname() -> &'static str {
        "xsd:string"
    }
    pub fn time() -> &'static Iri {
        named("/2001/XMLSchema", "time")
    }
    pub fn time_qname() -> &'static str {
        "xsd:time"
    }
    pub fn long() -> &'static Iri {
        named("/2001/XMLSchema", "long")
    }
    pub fn long_qname() -> &'static str {
        "xsd:long"
    }
    pub fn int() -> &'static Iri {
        named("/2001/XMLSchema", "int")
    }
    pub fn int_qname() -> &'static str {
        "xsd:int"
    }
    pub fn short() -> &'static Iri {
        named("/2001/XMLSchema", "short")
    }
    pub fn short_qname() -> &'static str {
        "xsd:short"
    }
    pub fn byte() -> &'static Iri {
        named("/2001/XMLSchema", "byte")
    }
    pub fn byte_qname() -> &'static str {
        "xsd:byte"
    }
    pub fn unsigned_long() -> &'static Iri {
        named("/2001/XMLSchema", "unsignedLong")
    }
    pub fn unsigned_long_qname() -> &'static str {
        "xsd:unsignedLong"
    }
    pub fn unsigned_int() -> &'static Iri {
        named("/2001/XMLSchema", "unsignedInt")
    }
    pub fn unsigned_int_qname() -> &'static str {
        "xsd:unsignedInt"
    }
    pub fn unsigned_short() -> &'static Iri {
        named("/2001/XMLSchema", "unsignedShort")
    }
    pub fn unsigned_short_qname() -> &'static str {
        "xsd:unsignedShort"
    }
    pub fn unsigned_byte() -> &'static Iri {
        named("/2001/XMLSchema", "unsignedByte")
    }
    pub fn unsigned_byte_qname() -> &'static str {
        "xsd:unsignedByte"
    }
    pub fn language() -> &'static Iri {
        named("/2001/XMLSchema", "language")
    }
    pub fn language_qname() -> &'static str {
        "xsd:language"
    }
    pub fn name() -> &'static Iri {
        named("/2001/XMLSchema", "Name")
    }
    pub fn name_qname() -> &'static str {
        "xsd:Name"
    }
}

pub mod rdf {
    use super::*;
    pub fn xml_literal() -> &'static Iri {
        named("/1999/02/22-rdf-syntax-ns", "XMLLiteral")
    }
    pub fn xml_literal_qname() -> &'static str {
        "rdf:XMLLiteral"
    }
    pub fn plain_literal() -> &'static Iri {
        named("/1999/02/22-rdf-syntax-ns", "PlainLiteral")
    }
    pub fn plain_literal_qname() -> &'static str {
        "rdf:PlainLiteral"
    }
    pub fn a_type() -> &'static Iri {
        named("/1999/02/22-rdf-syntax-ns", "type")
    }
    pub fn a_type_qname() -> &'static str {
        "rdf:type"
    }
    pub fn statement() -> &'static Iri {
        named("/1999/02/22-rdf-syntax-ns", "Statement")
    }
    pub fn statement_qname() -> &'static str {
        "rdf:Statement"
    }
    pub fn subject() -> &'static Iri {
        named("/1999/02/22-rdf-syntax-ns", "subject")
    }
    pub fn subject_qname() -> &'static str {
        "rdf:subject"
    }
    pub fn predicate() -> &'static Iri {
        named("/1999/02/22-rdf-syntax-ns", "predicate")
    }
    pub fn predicate_qname() -> &'static str {
        "rdf:predicate"
    }
    pub fn object() -> &'static Iri {
        named("/1999/02/22-rdf-syntax-ns", "object")
    }
    pub fn object_qname() -> &'static str {
        "rdf:object"
    }
    pub fn nil() -> &'static Iri {
        named("/1999/02/22-rdf-syntax-ns", "nil")
    }
    pub fn nil_qname() -> &'static str {
        "rdf:nil"
    }
    pub fn list() -> &'static Iri {
        named("/1999/02/22-rdf-syntax-ns", "List")
    }
    pub fn list_qname() -> &'static str {
        "rdf:List"
    }
    pub fn first() -> &'static Iri {
        named("/1999/02/22-rdf-syntax-ns", "first")
    }
    pub fn first_qname() -> &'static str {
        "rdf:first"
    }
    pub fn rest() -> &'static Iri {
        named("/1999/02/22-rdf-syntax-ns", "rest")
    }
    pub fn rest_qname() -> &'static str {
        "rdf:rest"
    }
}

/// As `text_harnesses!`, for code that names data types or RDF terms.
macro_rules! named_harnesses {
    ([$all:ident] $($(#[$m:meta])* fn $name:ident [$unwind:literal] $body:block)*) => {
        text_harnesses! {
            [$all]
            $(
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::any_uri, crate::named::xsd::any_uri))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::any_uri_qname, crate::named::xsd::any_uri_qname))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::base64_binary, crate::named::xsd::base64_binary))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::base64_binary_qname, crate::named::xsd::base64_binary_qname))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::boolean, crate::named::xsd::boolean))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::boolean_qname, crate::named::xsd::boolean_qname))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::date, crate::named::xsd::date))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::date_qname, crate::named::xsd::date_qname))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::date_time, crate::named::xsd::date_time))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::date_time_qname, crate::named::xsd::date_time_qname))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::decimal, crate::named::xsd::decimal))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::decimal_qname, crate::named::xsd::decimal_qname))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::double, crate::named::xsd::double))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::double_qname, crate::named::xsd::double_qname))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::duration, crate::named::xsd::duration))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::duration_qname, crate::named::xsd::duration_qname))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::float, crate::named::xsd::float))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::float_qname, crate::named::xsd::float_qname))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::hex_binary, crate::named::xsd::hex_binary))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::hex_binary_qname, crate::named::xsd::hex_binary_qname))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::q_name, crate::named::xsd::q_name))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::q_name_qname, crate::named::xsd::q_name_qname))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::string, crate::named::xsd::string))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::string_qname, crate::named::xsd::string_qname))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::time, crate::named::xsd::time))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::time_qname, crate::named::xsd::time_qname))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::long, crate::named::xsd::long))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::long_qname, crate::named::xsd::long_qname))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::int, crate::named::xsd::int))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::int_qname, crate::named::xsd::int_qname))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::short, crate::named::xsd::short))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::short_qname, crate::named::xsd::short_qname))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::byte, crate::named::xsd::byte))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::byte_qname, crate::named::xsd::byte_qname))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::unsigned_long, crate::named::xsd::unsigned_long))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::unsigned_long_qname, crate::named::xsd::unsigned_long_qname))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::unsigned_int, crate::named::xsd::unsigned_int))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::unsigned_int_qname, crate::named::xsd::unsigned_int_qname))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::unsigned_short, crate::named::xsd::unsigned_short))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::unsigned_short_qname, crate::named::xsd::unsigned_short_qname))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::unsigned_byte, crate::named::xsd::unsigned_byte))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::unsigned_byte_qname, crate::named::xsd::unsigned_byte_qname))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::language, crate::named::xsd::language))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::language_qname, crate::named::xsd::language_qname))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::name, crate::named::xsd::name))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::xsd::name_qname, crate::named::xsd::name_qname))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::rdf::xml_literal, crate::named::rdf::xml_literal))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::rdf::xml_literal_qname, crate::named::rdf::xml_literal_qname))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::rdf::plain_literal, crate::named::rdf::plain_literal))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::rdf::plain_literal_qname, crate::named::rdf::plain_literal_qname))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::rdf::a_type, crate::named::rdf::a_type))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::rdf::a_type_qname, crate::named::rdf::a_type_qname))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::rdf::statement, crate::named::rdf::statement))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::rdf::statement_qname, crate::named::rdf::statement_qname))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::rdf::subject, crate::named::rdf::subject))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::rdf::subject_qname, crate::named::rdf::subject_qname))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::rdf::predicate, crate::named::rdf::predicate))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::rdf::predicate_qname, crate::named::rdf::predicate_qname))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::rdf::object, crate::named::rdf::object))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::rdf::object_qname, crate::named::rdf::object_qname))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::rdf::nil, crate::named::rdf::nil))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::rdf::nil_qname, crate::named::rdf::nil_qname))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::rdf::list, crate::named::rdf::list))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::rdf::list_qname, crate::named::rdf::list_qname))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::rdf::first, crate::named::rdf::first))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::rdf::first_qname, crate::named::rdf::first_qname))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::rdf::rest, crate::named::rdf::rest))]
                #[cfg_attr(all(kani, not(plain)), kani::stub(rdftk_names::rdf::rest_qname, crate::named::rdf::rest_qname))]
                $(#[$m])*
                fn $name [$unwind] $body
            )*
        }
    };
}
