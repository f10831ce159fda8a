//! Expected documents, and their comparison with parsed ones.
use crate::rt::*;
use soupy::parser::HTMLNode;
use soupy::prelude::*;

#[derive(Debug, Clone)]
pub enum X {
    T(Vec<u8>),
    C(Vec<u8>),
    D(Vec<u8>),
    E(Vec<u8>, Vec<(Vec<u8>, Vec<u8>)>, Vec<X>),
    R(Vec<u8>, Vec<(Vec<u8>, Vec<u8>)>, Vec<u8>),
    V(Vec<u8>, Vec<(Vec<u8>, Vec<u8>)>),
}
pub use X::*;

pub fn v(s: &str) -> Vec<u8> {
    s.as_bytes().to_vec()
}
fn attrs<S: AsRef<str> + Ord>(
    got: &std::collections::BTreeMap<S, S>,
    want: &[(Vec<u8>, Vec<u8>)],
    id: u64,
) {
    check(got.len() == want.len(), id);
    for (n, val) in want {
        // the names are distinct: exactly one entry of that name, with that value
        let mut hit = false;
        for (k, g) in got {
            let eq = same(k.as_ref().as_bytes(), n);
            hit |= eq;
            check(!eq | same(g.as_ref().as_bytes(), val), id + 1);
        }
        check(hit, id + 2);
    }
}
pub fn eq<S: AsRef<str> + Ord>(got: &HTMLNode<S>, want: &X, id: u64) {
    match (got, want) {
        (HTMLNode::Text(a), T(b)) => check(same(a.as_ref().as_bytes(), b), id),
        (HTMLNode::Comment(a), C(b)) => check(same(a.as_ref().as_bytes(), b), id + 1),
        (HTMLNode::Doctype(a), D(b)) => check(same(a.as_ref().as_bytes(), b), id + 2),
        (HTMLNode::Element { name, attrs: at, children }, E(n, a, k)) => {
            check(same(name.as_ref().as_bytes(), n), id + 3);
            attrs(at, a, id + 7);
            list(children.iter(), k, id);
        }
        (HTMLNode::RawElement { name, attrs: at, content }, R(n, a, c)) => {
            check(same(name.as_ref().as_bytes(), n), id + 3);
            attrs(at, a, id + 7);
            check(same(content.as_ref().as_bytes(), c), id + 4);
        }
        (HTMLNode::Void { name, attrs: at }, V(n, a)) => {
            check(same(name.as_ref().as_bytes(), n), id + 3);
            attrs(at, a, id + 7);
        }
        _ => check(false, id + 5),
    }
}
/// The nodes are exactly the expected ones (ids `id`..`id + 9`).
pub fn list<'a, S: AsRef<str> + Ord + 'a>(mut got: impl Iterator<Item = &'a HTMLNode<S>>, want: &[X], id: u64) {
    for w in want {
        match got.next() {
            Some(g) => eq(g, w, id),
            None => check(false, id + 6),
        }
    }
    check(got.next().is_none(), id + 6);
}
pub type Cows<'a> = HTMLNode<std::borrow::Cow<'a, str>>;
/// The top-level nodes of a document are exactly the expected ones.
pub fn top(s: &Soup<Cows<'_>>, want: &[X], id: u64) {
    let mut i = 0;
    for q in s.strict().all() {
        if i < want.len() {
            eq(&*q, &want[i], id);
        }
        i += 1;
    }
    check(i == want.len(), id + 6);
}
/// The text parses strictly into exactly these nodes (ids `id`..`id + 10`).
pub fn strict_is(doc: &[u8], want: &[X], id: u64) {
    let s = st(doc);
    show("document", &s);
    match Soup::html_strict(s) {
        Ok(soup) => top(&soup, want, id),
        Err(_) => check(false, id + 10),
    }
}
/// The text is refused.
pub fn strict_fails(doc: &[u8], id: u64) {
    let s = st(doc);
    show("document", &s);
    check(Soup::html_strict(s).is_err(), id);
}
/// Lazily built tables (the regular expression's automaton, the reference index) are built before anything is
/// symbolic: this only saves time, a missing table entry is still built on demand.
pub fn warm() {
    let mut d = v("<a b='&amp;");
    for p in ["&", "&a", "&a1", "&#", "&#1", "&#12", "&#x", "&#x1", "&#xa", "&#x1A", ";", ""] {
        for c in "!\"#$&(\n\r 0:;<AGXY[agxy{\u{7f}\u{e9}\u{20ac}\u{1f600}".chars() {
            d.extend_from_slice(p.as_bytes());
            d.extend_from_slice(c.to_string().as_bytes());
            d.extend_from_slice(b"!&lt;");
            d.extend_from_slice(c.to_string().as_bytes());
            for x in "!\"#$(\n\r 0:;<AGXY[agxy{\u{7f}\u{e9}\u{20ac}\u{1f600}".chars() {
                d.extend_from_slice(p.as_bytes());
                d.extend_from_slice(c.to_string().as_bytes());
                d.extend_from_slice(x.to_string().as_bytes());
            }
        }
    }
    let cls = *b"0AGXYagxy";
    for a in cls {
        for b in cls {
            for c in cls {
                for end in [&b";"[..], b"!"] {
                    d.extend_from_slice(&[b'&', a, b, c]);
                    d.extend_from_slice(end);
                }
            }
            for x in ["&#", "&#x"] {
                d.extend_from_slice(x.as_bytes());
                d.extend_from_slice(&[a, b, b';']);
            }
        }
    }
    d.extend_from_slice(b"'/>");
    let _ = Soup::html_strict(st(&d));
}
