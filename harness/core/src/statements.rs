//! Blank nodes (B..), nodes, statements and collections (T..).
use super::support::*;
use rdftk_core::model::literal::Literal;
use rdftk_core::model::statement::{BlankNode, Collection, ObjectNode, Statement, SubjectNode};
use rdftk_iri::{Iri, Name};
use core::mem::ManuallyDrop;

pub fn letter() -> u8 {
    let c: u8 = kani::any();
    kani::assume(c == b'a' || c == b'b');
    c
}

pub fn blank(c: u8) -> BlankNode {
    BlankNode::from(Name::new_unchecked(text(&[c])))
}

fn thing(c: u8) -> Iri {
    iri(HTTP, "/", None, Some(text(&[c])))
}

pub fn small(c: u8) -> Statement {
    Statement::new(blank(c), thing(b'p'), blank(b'o'))
}

/// One of three kinds of subject.
pub fn subject(kind: u8, c: u8) -> SubjectNode {
    match kind {
        0 => SubjectNode::from(blank(c)),
        1 => SubjectNode::from(thing(c)),
        _ => SubjectNode::from(small(c)),
    }
}

/// One of five kinds of object.
pub fn object(kind: u8, c: u8) -> ObjectNode {
    match kind {
        0 => ObjectNode::from(blank(c)),
        1 => ObjectNode::from(thing(c)),
        2 => ObjectNode::from(Literal::plain(text(&[c]))),
        3 => ObjectNode::from(Collection::from(blank(c))),
        _ => ObjectNode::from(small(c)),
    }
}

/// (Dropping a node walks every kind of node.)
pub fn keep<T>(v: T) -> ManuallyDrop<T> {
    ManuallyDrop::new(v)
}

fn is(which: [bool; 3], n: usize) -> bool {
    let mut ok = true;
    let mut i = 0;
    while i < 3 {
        ok = ok && which[i] == (i == n);
        i += 1;
    }
    ok
}

fn check_subject(s: &SubjectNode, kind: usize) {
    assert!(is([s.is_blank(), s.is_resource(), s.is_statement()], kind), "T01: not the kind of node");
    let some = [s.as_blank().is_some(), s.as_resource().is_some(), s.as_statement().is_some()];
    assert!(is(some, kind), "T01: not the kind of node");
}

fn check_object(o: &ObjectNode, kind: usize) {
    let a = [o.is_blank(), o.is_resource(), o.is_literal(), o.is_collection(), o.is_statement()];
    let b = [
        o.as_blank().is_some(),
        o.as_resource().is_some(),
        o.as_literal().is_some(),
        o.as_collection().is_some(),
        o.as_statement().is_some(),
    ];
    let mut i = 0;
    while i < 5 {
        assert!(a[i] == (i == kind) && b[i] == (i == kind), "T01: not the kind of node");
        i += 1;
    }
}

fn subjects(ka: u8, kb: u8) {
    let (ca, cb) = (letter(), letter());
    let (a, b) = (subject(ka, ca), subject(kb, cb));
    let equal = ka == kb && ca == cb;
    assert!((a == b) == equal, "T02: equality is not that of the parts");
    let (x, y) = (sign(a.cmp(&b)), sign(b.cmp(&a)));
    assert!(x == -y, "T02: order is not antisymmetric");
    assert!((x == 0) == equal, "T02: order and equality disagree");
    assert!(a.partial_cmp(&b).map(sign) == Some(x), "T02: partial and total order disagree");
    if ka != kb {
        assert!((x < 0) == (ka < kb), "T02: kinds are not in order");
    }
    if equal {
        assert!(fnv(&a) == fnv(&b), "T02: equal nodes hash differently");
    }
    core::mem::forget((a, b));
}

fn objects(ka: u8, kb: u8) {
    let (ca, cb) = (letter(), letter());
    let (a, b) = (object(ka, ca), object(kb, cb));
    let equal = ka == kb && ca == cb;
    assert!((a == b) == equal, "T02: equality is not that of the parts");
    let (x, y) = (sign(a.cmp(&b)), sign(b.cmp(&a)));
    assert!(x == -y, "T02: order is not antisymmetric");
    assert!((x == 0) == equal, "T02: order and equality disagree");
    assert!(a.partial_cmp(&b).map(sign) == Some(x), "T02: partial and total order disagree");
    if ka != kb {
        assert!((x < 0) == (ka < kb), "T02: kinds are not in order");
    }
    if equal {
        assert!(fnv(&a) == fnv(&b), "T02: equal nodes hash differently");
    }
    core::mem::forget((a, b));
}

fn statements(k: u8, o: u8) {
    let (a, b) = ([letter(), letter(), letter()], [letter(), letter(), letter()]);
    let x = Statement::new(subject(k, a[0]), thing(a[1]), object(o, a[2]));
    let y = Statement::new(subject(k, b[0]), thing(b[1]), object(o, b[2]));
    let expected = order(&a, &b);
    assert!((x == y) == (expected == 0), "T02: equality is not that of the parts");
    assert!(sign(x.cmp(&y)) == expected, "T02: not ordered by subject, predicate, object");
    if expected == 0 {
        assert!(fnv(&x) == fnv(&y), "T02: equal statements hash differently");
    }
    core::mem::forget((x, y));
}

/// Made from its part, a subject node is of that kind, has that part, and survives being made an
/// object and back.
fn subject_of(kind: u8) {
    let (a, b) = (letter(), letter());
    let s = keep(subject(kind, a));
    check_subject(&s, kind as usize);
    let same = match kind {
        0 => *s == *keep(blank(b)),
        1 => *s == *keep(thing(b)),
        _ => *s == *keep(small(b)),
    };
    assert!(same == (a == b), "T01: comparing with a part");
    assert!(kind == 0 || *s != *keep(blank(a)), "T01: comparing with another kind");
    assert!(kind == 1 || *s != *keep(thing(a)), "T01: comparing with another kind");
    assert!(kind == 2 || *s != *keep(small(a)), "T01: comparing with another kind");
    let o = keep(s.to_object());
    check_object(&o, if kind == 2 { 4 } else { kind as usize });
    let same = match kind {
        0 => *o == *keep(blank(a)),
        1 => *o == *keep(thing(a)),
        _ => *o == *keep(small(a)),
    };
    assert!(same, "T01: another object");
    match &*keep(o.to_subject()) {
        Some(t) => assert!(*t == *s, "T01: another subject"),
        None => panic!("T01: no subject"),
    }
}

fn object_of(kind: u8) {
    let (a, b) = (letter(), letter());
    let o = keep(object(kind, a));
    check_object(&o, kind as usize);
    let same = match kind {
        2 => *o == *keep(Literal::plain(text(&[b]))),
        _ => *o == *keep(Collection::from(blank(b))),
    };
    assert!(same == (a == b), "T01: comparing with a part");
    assert!(keep(o.to_subject()).is_none(), "T01: a literal or a collection as a subject");
}

fn parts(k: u8, o: u8) {
    let (a, b, c) = (letter(), letter(), letter());
    let s = keep(Statement::new(subject(k, a), thing(b), object(o, c)));
    assert!(*s.subject() == *keep(subject(k, a)), "T01: another subject");
    assert!(*s.predicate() == *keep(thing(b)), "T01: another predicate");
    assert!(*s.object() == *keep(object(o, c)), "T01: another object");
    assert!(s.is_nested() == (k == 2 || o == 4), "T01: nested");
}

named_harnesses! {
    [ALL]
    fn t01q_subject_blank [14] { subject_of(0); }
    fn t01q_subject_iri [14] { subject_of(1); }
    fn t01q_subject_statement [14] { subject_of(2); }
    fn t01q_object_literal [14] { object_of(2); }
    fn t01q_object_collection [14] { object_of(3); }
    fn t01q_statement_0_0 [14] { parts(0, 0); }
    fn t01q_statement_1_2 [14] { parts(1, 2); }
    fn t01q_statement_2_1 [14] { parts(2, 1); }
    fn t01q_statement_0_4 [14] { parts(0, 4); }
    fn t01q_set [14] {
        let (a, b, c) = (letter(), letter(), letter());
        let mut s = Statement::new(blank(a), thing(a), blank(a));
        s.set_predicate(thing(b));
        s.set_subject(SubjectNode::from(thing(c)));
        assert!(*s.subject() == *keep(thing(c)), "T01: another subject");
        assert!(*s.predicate() == *keep(thing(b)), "T01: another predicate");
        assert!(*s.object() == *keep(blank(a)), "T01: another object");
        s.set_object(ObjectNode::from(thing(b)));
        assert!(*s.subject() == *keep(thing(c)), "T01: another subject");
        assert!(*s.object() == *keep(thing(b)), "T01: another object");
        core::mem::forget(s);
    }
    fn t02q_subjects_0_0 [14] { subjects(0, 0); }
    fn t02q_subjects_0_1 [14] { subjects(0, 1); }
    fn t02q_subjects_0_2 [14] { subjects(0, 2); }
    fn t02q_subjects_1_1 [14] { subjects(1, 1); }
    fn t02q_subjects_1_2 [14] { subjects(1, 2); }
    fn t02q_subjects_2_2 [14] { subjects(2, 2); }
    fn t02q_objects_0_0 [14] { objects(0, 0); }
    fn t02q_objects_0_1 [14] { objects(0, 1); }
    fn t02q_objects_0_2 [14] { objects(0, 2); }
    fn t02q_objects_0_3 [14] { objects(0, 3); }
    fn t02q_objects_0_4 [14] { objects(0, 4); }
    fn t02q_objects_1_1 [14] { objects(1, 1); }
    fn t02q_objects_1_2 [14] { objects(1, 2); }
    fn t02q_objects_1_3 [14] { objects(1, 3); }
    fn t02q_objects_1_4 [14] { objects(1, 4); }
    fn t02q_objects_2_2 [14] { objects(2, 2); }
    fn t02q_objects_2_3 [14] { objects(2, 3); }
    fn t02q_objects_2_4 [14] { objects(2, 4); }
    fn t02q_objects_3_3 [14] { objects(3, 3); }
    fn t02q_objects_3_4 [14] { objects(3, 4); }
    fn t02q_objects_4_4 [14] { objects(4, 4); }
    fn t02q_statements_blank [14] { statements(0, 0); }
    fn t02q_statements_iri [14] { statements(1, 1); }
    fn t02q_statements_literal [14] { statements(0, 2); }
    fn t03q_blank [20] {
        let c = [letter()];
        let s = keep(subject(0, c[0])).to_string();
        assert!(same(&s, Buf::new().add("_:").add(text(&c)).get()), "T03: a blank node");
        let s = keep(object(0, c[0])).to_string();
        assert!(same(&s, Buf::new().add("_:").add(text(&c)).get()), "T03: a blank node");
    }
    fn t03q_iri [20] {
        let c = [letter()];
        let s = keep(subject(1, c[0])).to_string();
        assert!(same(&s, Buf::new().add("<http://h/#").add(text(&c)).add(">").get()), "T03: an IRI");
        let s = keep(object(1, c[0])).to_string();
        assert!(same(&s, Buf::new().add("<http://h/#").add(text(&c)).add(">").get()), "T03: an IRI");
    }
    fn t03q_literal [20] {
        let c = [letter()];
        let s = keep(object(2, c[0])).to_string();
        assert!(same(&s, Buf::new().add("\"").add(text(&c)).add("\"").get()), "T03: a literal");
    }
    fn t03q_statement [40] {
        let (a, b, c) = (letter(), letter(), letter());
        let s = keep(Statement::new(blank(a), thing(b), object(2, c))).to_string();
        let e = Buf::new().add("_:").add(text(&[a])).add(" <http://h/#").add(text(&[b])).add("> \"").add(text(&[c])).add("\"");
        assert!(same(&s, e.get()), "T03: a statement");
    }
    fn t03q_nested [64] {
        let (a, b) = (letter(), letter());
        let s = keep(Statement::new(small(a), thing(b), blank(b'x'))).to_string();
        let e = Buf::new().add("<< _:").add(text(&[a])).add(" <http://h/#p> _:o >> <http://h/#").add(text(&[b])).add("> _:x");
        assert!(same(&s, e.get()), "T03: a nested statement");
    }
    fn t03q_collection [20] {
        let (a, b) = (letter(), letter());
        let c = Collection::from(vec![object(0, a), object(2, b)]);
        let e = Buf::new().add("( _:").add(text(&[a])).add(" \"").add(text(&[b])).add("\" )");
        assert!(same(&keep(c).to_string(), e.get()), "T03: a collection");
    }
}
