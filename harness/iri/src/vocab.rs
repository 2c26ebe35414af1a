//! The published vocabularies and the ready-made maps (properties V.., M08).
use super::names::any_name;
use super::support::*;
use rdftk_iri::vocab::*;
use rdftk_iri::{IriPrefixMap, Namespace};

/// (prefix, IRI) of the documented tables, transcribed from the specifications that own them.
pub const RDF: (&str, &str) = ("rdf", "http://www.w3.org/1999/02/22-rdf-syntax-ns#");
pub const RDFS: (&str, &str) = ("rdfs", "http://www.w3.org/2000/01/rdf-schema#");
pub const XSD: (&str, &str) = ("xsd", "http://www.w3.org/2001/XMLSchema#");
pub const OWL: (&str, &str) = ("owl", "http://www.w3.org/2002/07/owl#");
pub const DCTERMS: (&str, &str) = ("dcterms", "http://purl.org/dc/terms/");
pub const SKOS: (&str, &str) = ("skos", "http://www.w3.org/2004/02/skos/core#");
pub const VOID: (&str, &str) = ("void", "http://rdfs.org/ns/void#");

const DEFAULT: &[(&str, &str)] = &[RDF, RDFS, XSD, OWL];
const COMMON: &[(&str, &str)] = &[RDF, RDFS, XSD, OWL, DCTERMS, SKOS, VOID];

harnesses! {
    [ALL]
    fn m08q_default_1 [52] { ready::<2>(&IriPrefixMap::default(), DEFAULT) }
    fn m08q_default_3 [52] { ready::<4>(&IriPrefixMap::default(), DEFAULT) }
    fn m08q_default_4 [52] { ready::<5>(&IriPrefixMap::default(), DEFAULT) }
    fn m08q_default_7 [52] { ready::<8>(&IriPrefixMap::default(), DEFAULT) }
    fn m08q_common_1 [52] { ready::<2>(&IriPrefixMap::common(), COMMON) }
    fn m08q_common_3 [52] { ready::<4>(&IriPrefixMap::common(), COMMON) }
    fn m08q_common_4 [52] { ready::<5>(&IriPrefixMap::common(), COMMON) }
    fn m08q_common_7 [52] { ready::<8>(&IriPrefixMap::common(), COMMON) }
}

harnesses! {
    [ALL_IRIS]
    // V01: each published vocabulary (its prefix and IRI as the owning specification gives them)
    fn v01q_cal [52] { published(&VOCABULARY_CAL, "cal", "http://www.w3.org/2002/12/cal/ical#") }
    fn v01q_dbpedia [52] { published(&VOCABULARY_DBPEDIA, "dbpedia", "http://dbpedia.org/ontology/") }
    fn v01q_dc_elements [52] { published(&VOCABULARY_DC_ELEMENTS, "dc", "http://purl.org/dc/elements/1.1/") }
    fn v01q_dc_terms [52] { published(&VOCABULARY_DC_TERMS, "dcterms", "http://purl.org/dc/terms/") }
    fn v01q_doap [52] { published(&VOCABULARY_DOAP, "doap", "http://usefulinc.com/ns/doap#") }
    fn v01q_foaf [52] { published(&VOCABULARY_FOAF, "foaf", "http://xmlns.com/foaf/0.1/") }
    fn v01q_geo_names [52] { published(&VOCABULARY_GEO_NAMES, "geonames", "http://www.geonames.org/ontology#") }
    fn v01q_iso_skos [52] { published(&VOCABULARY_ISO_SKOS, "isothes", "http://purl.org/iso25964/skos-thes#") }
    fn v01q_open_gis [52] { published(&VOCABULARY_OPEN_GIS, "opengis", "http://www.opengis.net/ont/geosparql#") }
    fn v01q_org [52] { published(&VOCABULARY_ORG, "org", "http://www.w3.org/ns/org#") }
    fn v01q_owl [52] { published(&VOCABULARY_OWL, "owl", "http://www.w3.org/2002/07/owl#") }
    fn v01q_rdf [52] { published(&VOCABULARY_RDF, "rdf", "http://www.w3.org/1999/02/22-rdf-syntax-ns#") }
    fn v01q_rdf_schema [52] { published(&VOCABULARY_RDF_SCHEMA, "rdfs", "http://www.w3.org/2000/01/rdf-schema#") }
    fn v01q_sioc [52] { published(&VOCABULARY_SIOC, "sioc", "http://rdfs.org/sioc/ns#") }
    fn v01q_skos [52] { published(&VOCABULARY_SKOS, "skos", "http://www.w3.org/2004/02/skos/core#") }
    fn v01q_skos_xl [52] { published(&VOCABULARY_SKOS_XL, "skosxl", "http://www.w3.org/2008/05/skos-xl#") }
    fn v01q_vann [52] { published(&VOCABULARY_VANN, "vann", "http://purl.org/vocab/vann/") }
    fn v01q_void [52] { published(&VOCABULARY_VOID, "void", "http://rdfs.org/ns/void#") }
    fn v01q_wot [52] { published(&VOCABULARY_WOT, "wot", "http://xmlns.com/wot/0.1/") }
    fn v01q_xml_schema [52] { published(&VOCABULARY_XML_SCHEMA, "xsd", "http://www.w3.org/2001/XMLSchema#") }
    // (either the IRI documented or the one in use: the difference is what `documented` is about)
    fn v01q_xml [52] {
        if !same(VOCABULARY_XML.iri(), "http://www.w3.org/XML/1998/namespace") {
            published(&VOCABULARY_XML, "xml", "http://www.w3.org/XML/1998/namespace#")
        }
    }
    fn v01q_xml_documented [52] { documented(&VOCABULARY_XML, "http://www.w3.org/XML/1998/namespace") }

    // V02: a vocabulary of one's own
    fn v02q_1 [12] { own::<1>() }
    fn v02q_3 [12] { own::<3>() }
    fn v02t_5 [14] { own::<5>() }
}

/// The constant says what it documents, and every name in it expands and compresses.
fn published(v: &Vocabulary, prefix: &str, namespace: &str) {
    assert!(same(v.prefix(), prefix), "V01: prefix");
    assert!(same(v.iri(), namespace), "V01: IRI");
    let k = v.prefix_as_namespace();
    assert!(is_concat2(k.as_ref(), prefix.as_bytes(), b":"), "V01: prefix as a namespace");
    let i = v.iri_as_iri();
    assert!(same(iri_text(&i), namespace), "V01: IRI as an Iri");
    assert!(i.looks_like_namespace(), "V01: the IRI is not a namespace");
    let n = ascii_array::<2>();
    match i.make_name(any_name(&n)) {
        None => panic!("V01: the vocabulary has no names"),
        Some(u) => assert!(is_concat2(iri_text(&u), namespace.as_bytes(), &n), "V01: a name in the vocabulary"),
    }
    witness!(true);
}

fn documented(v: &Vocabulary, namespace: &str) {
    assert!(same(v.iri(), namespace), "V01: the IRI is not the documented one");
    witness!(true);
}

/// Any valid prefix, any IRI: the accessors give them back.
fn own<const N: usize>() {
    let p = ascii_array::<N>();
    kani::assume(is_pn_prefix(&widen(&p)));
    let c = ascii_array::<2>();
    let path = [b'/', c[0], c[1]];
    let want = iri(BARE, text(&path), None, Some(""));
    let (ps, is) = (leaked(&p), leaked(iri_text(&want).as_bytes()));
    let v = Vocabulary::new(ps, is);
    assert!(same(v.prefix(), text(&p)) && same(v.iri(), iri_text(&want)), "V02: accessors");
    assert!(v.description().is_none(), "V02: a description nobody gave");
    let d = v.with_description("x");
    assert!(same(d.prefix(), text(&p)) && same(d.iri(), iri_text(&want)), "V02: with_description changed the rest");
    assert!(opt_same(d.description().map(|s| *s), Some("x")), "V02: the description is lost");
    assert!(is_concat2(v.prefix_as_namespace().as_ref(), &p, b":"), "V02: prefix_as_namespace");
    assert!(same(iri_text(&v.iri_as_iri()), iri_text(&want)), "V02: iri_as_iri");
    witness!(true);
}

/// For every prefix of N bytes: it is mapped exactly when the table has it, and as the table has
/// it. The default prefix is not mapped.
fn ready<const N: usize>(m: &IriPrefixMap, table: &[(&str, &str)]) {
    assert!(m.len() == table.len(), "M08: number of mappings");
    assert!(m.get_default_namespace().is_none(), "M08: a default namespace");
    let b = ascii_array::<N>();
    kani::assume(is_pname_ns(&widen(&b)));
    let q = Namespace::new_unchecked(text(&b));
    let got = m.get_namespace(&q);
    let mut want = None;
    let mut i = 0;
    while i < table.len() {
        if is_concat2(text(&b), table[i].0.as_bytes(), b":") {
            want = Some(table[i].1);
        }
        i += 1;
    }
    match (got, want) {
        (None, None) => {}
        (Some(_), None) => panic!("M08: a mapping which is not documented"),
        (None, Some(_)) => panic!("M08: a documented mapping is missing"),
        (Some(i), Some(w)) => assert!(same(iri_text(i), w), "M08: mapped to another IRI"),
    }
    witness!(want.is_none());
}
