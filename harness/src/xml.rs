//! C21-C22: XML.
mod rt;
use rt::*;
use soupy::parser::{XMLElement, XMLNode};
use soupy::prelude::*;
use std::io::{self, Read};

fn v(s: &str) -> Vec<u8> {
    s.as_bytes().to_vec()
}
fn put(d: &mut Vec<u8>, s: &str) {
    d.extend_from_slice(s.as_bytes());
}
fn string(n: usize) -> String {
    let mut d = vec![];
    utf8(&mut d, n);
    st(&d).to_string()
}
fn eq(a: &str, b: &str, id: u64) {
    check(a.len() == b.len(), id);
    check(same(a.as_bytes(), b.as_bytes()), id);
}
fn opt(a: &Option<String>, b: &Option<String>, id: u64) {
    check(a.is_some() == b.is_some(), id);
    if let (Some(a), Some(b)) = (a, b) {
        eq(a, b, id);
    }
}
fn nodes(got: &[XMLNode], want: &[xmltree::XMLNode], id: u64) {
    check(got.len() == want.len(), id);
    for (g, w) in got.iter().zip(want) {
        node(g, w, id + 1);
    }
}
fn node(got: &XMLNode, want: &xmltree::XMLNode, id: u64) {
    match (got, want) {
        (XMLNode::Element(g), xmltree::XMLNode::Element(w)) => element(g, w, id),
        (XMLNode::Comment(g), xmltree::XMLNode::Comment(w)) => eq(g, w, id + 1),
        (XMLNode::CData(g), xmltree::XMLNode::CData(w)) => eq(g, w, id + 2),
        (XMLNode::Text(g), xmltree::XMLNode::Text(w)) => eq(g, w, id + 3),
        (XMLNode::ProcessingInstruction(g, h), xmltree::XMLNode::ProcessingInstruction(w, x)) => {
            eq(g, w, id + 4);
            opt(h, x, id + 5);
        }
        _ => check(false, id),
    }
}
fn element(g: &XMLElement, w: &xmltree::Element, id: u64) {
    opt(&g.prefix, &w.prefix, id + 10);
    opt(&g.namespace, &w.namespace, id + 11);
    check(g.namespaces.is_some() == w.namespaces.is_some(), id + 12);
    if let (Some(a), Some(b)) = (&g.namespaces, &w.namespaces) {
        check(a.0.len() == b.0.len(), id + 12);
        for ((k, x), (l, y)) in a.0.iter().zip(&b.0) {
            eq(k, l, id + 12);
            eq(x, y, id + 12);
        }
    }
    eq(&g.name, &w.name, id + 13);
    check(g.attributes.len() == w.attributes.len(), id + 14);
    for (k, x) in &w.attributes {
        match g.attributes.get(k) {
            Some(y) => eq(x, y, id + 15),
            None => check(false, id + 16),
        }
    }
    check(g.children.len() == w.children.len(), id + 17);
    for (g, w) in g.children.iter().zip(&w.children) {
        node(g, w, id);
    }
    // the same element through the common interface
    let n = XMLNode::Element(g.clone());
    check(n.children().len() == w.children.len(), id + 18);
    match n.name() {
        Some(x) => eq(x, &w.name, id + 19),
        None => check(false, id + 19),
    }
    for (k, x) in &w.attributes {
        match n.get(k) {
            Some(y) => eq(x, y, id + 20),
            None => check(false, id + 20),
        }
    }
}

// ---------- C21 ----------
/// Elements with symbolic strings in every field.
struct Gen {
    len: usize,
    attrs: u8,
    ascii: bool,
}
impl Gen {
    fn string(&self) -> String {
        if !self.ascii {
            return string(self.len);
        }
        let mut d = vec![];
        for _ in 0..self.len {
            let b = byte();
            assume(b < 0x80);
            d.push(b);
        }
        st(&d).to_string()
    }
    fn leaf(&self, kind: u8) -> xmltree::XMLNode {
        match kind {
            0 => xmltree::XMLNode::Element(self.element()),
            1 => xmltree::XMLNode::Comment(self.string()),
            2 => xmltree::XMLNode::CData(self.string()),
            3 => xmltree::XMLNode::Text(self.string()),
            4 => xmltree::XMLNode::ProcessingInstruction(self.string(), None),
            _ => xmltree::XMLNode::ProcessingInstruction(self.string(), Some(self.string())),
        }
    }
    fn element(&self) -> xmltree::Element {
        let mut e = xmltree::Element::new("");
        e.name = self.string();
        if self.attrs == 0 {
            return e;
        }
        let c = choose(8);
        if c & 1 == 1 {
            e.prefix = Some(self.string());
        }
        if c & 2 == 2 {
            e.namespace = Some(self.string());
        }
        if c & 4 == 4 {
            let mut n = xmltree::Namespace::empty();
            n.put("p", self.string());
            n.put("q", self.string());
            e.namespaces = Some(n);
        }
        let k = choose(self.attrs + 1);
        for i in 0..k {
            let name = if i < 2 { self.string() } else { "\u{e9}".to_string() };
            e.attributes.insert(name, self.string());
        }
        e
    }
}
/// An ordered forest of `n` nodes; `kind` chooses the kind of each leaf.
fn forest(n: usize, g: &Gen, kinds: bool) -> Vec<xmltree::XMLNode> {
    // parents[i] = 0 for top level, else 1 + the index of an earlier node on the last branch
    let mut out = vec![];
    let mut depth: Vec<usize> = vec![];
    for i in 0..n {
        let d = if i == 0 { 0 } else { choose(depth[i - 1] as u8 + 2) as usize };
        depth.push(d);
    }
    fn build(i: &mut usize, d: usize, depth: &[usize], g: &Gen, kinds: bool, out: &mut Vec<xmltree::XMLNode>) {
        while *i < depth.len() && depth[*i] == d {
            *i += 1;
            let inner = *i < depth.len() && depth[*i] > d;
            let mut x = g.leaf(if inner || !kinds { 0 } else { choose(6) });
            if inner {
                if let xmltree::XMLNode::Element(e) = &mut x {
                    build(i, d + 1, depth, g, kinds, &mut e.children);
                }
            }
            out.push(x);
        }
    }
    let mut i = 0;
    build(&mut i, 0, &depth, g, kinds, &mut out);
    out
}
/// The conversion of a tree is public (`From`). Should that ever change, only whole documents can be compared (feature
/// `indirect`, which check.py falls back to).
#[cfg(not(feature = "indirect"))]
fn convert(n: xmltree::XMLNode) -> XMLNode {
    n.into()
}
#[cfg(feature = "indirect")]
fn convert(_: xmltree::XMLNode) -> XMLNode {
    check(false, 899);
    XMLNode::Text(String::new())
}
fn image(want: Vec<xmltree::XMLNode>) {
    show("tree", &want);
    let got: Vec<XMLNode> = want.iter().cloned().map(convert).collect();
    nodes(&got, &want, 800);
    reach(1);
}
#[no_mangle]
pub extern "C" fn h_c21_kinds3() {
    let n = 1 + choose(3) as usize;
    image(forest(n, &Gen { len: 2, attrs: 0, ascii: false }, true))
}
#[no_mangle]
pub extern "C" fn h_c21_kinds4() {
    image(forest(4, &Gen { len: 1, attrs: 0, ascii: false }, true))
}
#[no_mangle]
pub extern "C" fn h_c21_kinds5() {
    image(forest(5, &Gen { len: 1, attrs: 0, ascii: false }, true))
}
#[no_mangle]
pub extern "C" fn h_c21_shapes7() {
    image(forest(6 + choose(2) as usize, &Gen { len: 1, attrs: 0, ascii: false }, false))
}
#[no_mangle]
pub extern "C" fn h_c21_fields() {
    let len = choose(3) as usize;
    let g = Gen { len, attrs: 3, ascii: true };
    let mut e = g.element();
    if choose(2) == 1 {
        e.children.push(xmltree::XMLNode::Element(g.element()));
        e.children.push(g.leaf(1 + choose(5)));
    }
    show("element", &e);
    if let XMLNode::Element(x) = convert(xmltree::XMLNode::Element(e.clone())) {
        element(&x, &e, 800);
    }
    image(vec![xmltree::XMLNode::Element(e)])
}
/// A document with a symbolic text in every field.
#[no_mangle]
pub extern "C" fn h_c21_doc() {
    let n = 1 + choose(6) as usize;
    let mut d = vec![];
    for p in [
        "<?xml version='1.0'?>\n<!--", "--><?p ", "?>\n<q:a xmlns:q='u", "' xmlns='v", "' b='", "' c=\"", "\" id='", "'>",
        "<![CDATA[", "]]><!--", "--><b i='", "'><c>", "</c>", "</b>", "<d/></q:a>\n<!--", "-->",
    ] {
        put(&mut d, p);
        if p.ends_with("\"-->") {
            break;
        }
        for _ in 0..n {
            let b = byte();
            assume(alnum(b));
            d.push(b);
        }
    }
    d.truncate(d.len() - n);
    check(document(&d), 833);
    reach(1);
}
/// `Soup::xml` of a document against the XML tree of the same document.
fn document(d: &[u8]) -> bool {
    show("document", &st(d));
    let want = xmltree::Element::parse_all(d);
    let got = Soup::xml(d);
    check(want.is_ok() == got.is_ok(), 830);
    if let (Ok(w), Ok(g)) = (want, got) {
        let mut n = 0;
        for q in g.strict().all() {
            check(n < w.len(), 831);
            node(&q, &w[n], 840);
            n += 1;
        }
        check(n == w.len(), 832);
        return true;
    }
    false
}
const HOLES: [(&str, &str); 16] = [
    ("<a>", "</a>"),
    ("<a><b/>", "<c/></a>"),
    ("<", "/>"),
    ("<a", "/>"),
    ("<a ", "='1' c='2'/>"),
    ("<a b='", "'/>"),
    ("<a xmlns:p='u'><p:b p:c='", "'/></a>"),
    ("<a><!--", "--></a>"),
    ("<a><![CDATA[", "]]></a>"),
    ("<a><?p ", "?></a>"),
    ("<!--x-->", "<a/>"),
    ("<a/>", ""),
    ("<a>&", ";</a>"),
    ("<a>&#x", ";</a>"),
    ("<a><b></", "></a>"),
    ("", "<a/>"),
];
fn hole(i: usize, n: usize) {
    let (a, z) = HOLES[i];
    let mut d = v(a);
    utf8(&mut d, n);
    put(&mut d, z);
    if document(&d) {
        reach(1);
    } else {
        reach(2);
    }
}
#[no_mangle]
pub extern "C" fn h_c21_hole1() {
    let i = choose(HOLES.len() as u8) as usize;
    hole(i, choose(2) as usize)
}
#[no_mangle]
pub extern "C" fn h_c21_hole2() {
    hole(choose(HOLES.len() as u8) as usize, 2)
}
#[no_mangle]
pub extern "C" fn h_c21_hole3() {
    hole(choose(HOLES.len() as u8) as usize, 3)
}

#[no_mangle]
pub extern "C" fn h_c21_hole5() {
    hole(choose(HOLES.len() as u8) as usize, 5)
}
#[no_mangle]
pub extern "C" fn h_c22_bytes5() {
    bytes_any(5)
}
#[no_mangle]
pub extern "C" fn h_c22_tags8() {
    tags(7 + choose(2) as usize)
}
#[no_mangle]
pub extern "C" fn h_c21_hole4() {
    hole(choose(HOLES.len() as u8) as usize, 4)
}

// ---------- C22 ----------
const DOCS: [&str; 5] = [
    "<a b='1'>x<c/>y</a>",
    "<?xml version=\"1.0\"?><a>\u{e9}\u{20ac}&lt;<b/></a>",
    "<a><!--c--><![CDATA[<&]]><?p d?></a>",
    "<p:a xmlns:p='u'><p:b/></p:a><!--z-->",
    "<a>\u{1f600}</b>",
];
/// Delivers `d` in pieces of the given sizes (0: an interrupted read), failing with an error at read `fail`.
struct Pieces {
    d: &'static [u8],
    at: usize,
    sizes: Vec<u8>,
    reads: usize,
    fail: usize,
    failed: bool,
}
const KINDS: [io::ErrorKind; 9] = [
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::InvalidData,
    io::ErrorKind::WriteZero,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::NotFound,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::Other,
];
/// An error of any kind at any read; the reader would go on with the document if it were asked again.
#[no_mangle]
pub extern "C" fn h_c22_kinds() {
    let doc = choose(DOCS.len() as u8) as usize;
    let size = [1, 200][choose(2) as usize];
    let at = choose(60) as usize;
    let kind = choose(2 * KINDS.len() as u8) as usize;
    show("document", &DOCS[doc]);
    show("failing read", &at);
    show("error", &KINDS[kind / 2]);
    struct R(Pieces, usize, std::rc::Rc<std::cell::Cell<bool>>);
    impl Read for R {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            let r = self.0.read(b);
            match r {
                Err(_) => {
                    self.2.set(true);
                    let k = KINDS[self.1 / 2];
                    Err(if self.1 % 2 == 0 { io::Error::from(k) } else { io::Error::new(k, "told so") })
                }
                r => r,
            }
        }
    }
    let failed = std::rc::Rc::new(std::cell::Cell::new(false));
    let p = Pieces { d: DOCS[doc].as_bytes(), at: 0, sizes: vec![size; 200], reads: 0, fail: at, failed: false };
    let r = Soup::xml(R(p, kind, failed.clone()));
    if failed.get() {
        check(r.is_err(), 912);
        reach(1);
    } else {
        check(r.is_ok() == (doc < 4), 913);
        reach(2);
    }
}
impl Read for Pieces {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let i = self.reads;
        self.reads += 1;
        if i == self.fail {
            self.failed = true;
            return Err(io::Error::from(io::ErrorKind::ConnectionReset));
        }
        let k = match self.sizes.get(i).map(|k| conc(*k as u64)) {
            Some(0) => return Err(io::Error::from(io::ErrorKind::Interrupted)),
            Some(k) => k as usize,
            None => usize::MAX,
        };
        let n = k.min(b.len()).min(self.d.len() - self.at);
        b[..n].copy_from_slice(&self.d[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
fn agree(got: &Soup<XMLNode>, want: &Soup<XMLNode>, id: u64) {
    let (a, b): (Vec<_>, Vec<_>) = (got.strict().all().collect(), want.strict().all().collect());
    check(a.len() == b.len(), id);
    for (x, y) in a.iter().zip(&b) {
        check(**x == **y, id);
    }
}
fn pieces(doc: usize, sizes: Vec<u8>) {
    show("document", &DOCS[doc]);
    show("read sizes (0 = interrupted)", &sizes);
    let d = DOCS[doc].as_bytes();
    let want = Soup::xml(d);
    let got = Soup::xml(Pieces { d, at: 0, sizes, reads: 0, fail: usize::MAX, failed: false });
    check(want.is_ok() == (doc < 4), 900);
    check(want.is_ok() == got.is_ok(), 901);
    if let (Ok(g), Ok(w)) = (got, want) {
        agree(&g, &w, 902);
        reach(1);
    } else {
        reach(2);
    }
}
#[no_mangle]
pub extern "C" fn h_c22_split() {
    let doc = choose(DOCS.len() as u8) as usize;
    let sizes = (0..6).map(|_| below(4)).collect();
    pieces(doc, sizes)
}
/// Interrupted reads anywhere in the document.
#[no_mangle]
pub extern "C" fn h_c22_interrupted() {
    let doc = choose(DOCS.len() as u8) as usize;
    let (a, b) = (below(60), below(60));
    assume(a <= b);
    let sizes = (0..60u8).map(|i| ite((i == a) | (i == b), 0, 1) as u8).collect();
    pieces(doc, sizes)
}
/// A read error at any read surfaces.
#[no_mangle]
pub extern "C" fn h_c22_fault() {
    let doc = choose(DOCS.len() as u8) as usize;
    let d = DOCS[doc].as_bytes();
    let size = 1 + choose(3);
    let at = choose(60) as usize;
    show("document", &DOCS[doc]);
    show("failing read", &at);
    let failed = std::cell::Cell::new(false);
    struct R<'a>(Pieces, &'a std::cell::Cell<bool>);
    impl Read for R<'_> {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            let r = self.0.read(b);
            self.1.set(self.0.failed);
            r
        }
    }
    let p = Pieces { d, at: 0, sizes: vec![size; 200], reads: 0, fail: at, failed: false };
    let r = Soup::xml(R(p, &failed));
    if failed.get() {
        check(r.is_err(), 910);
        reach(1);
    } else {
        check(r.is_ok() == (doc < 4), 911);
        reach(2);
    }
}
/// Every proper prefix of a document that lacks its end is an error.
#[no_mangle]
pub extern "C" fn h_c22_cut() {
    let doc = choose(4) as usize;
    let d = DOCS[doc].as_bytes();
    let end = if doc == 3 { d.len() - "<!--z-->".len() } else { d.len() };
    let at = choose(60) as usize;
    assume(at < end);
    let sizes = vec![1 + choose(2) * 6; 100];
    show("document", &&d[..at]);
    let r = Soup::xml(Pieces { d: &d[..at], at: 0, sizes, reads: 0, fail: usize::MAX, failed: false });
    check(r.is_err(), 920);
    reach(1);
}
/// Sequences of tags: a document exactly if they balance (the XML parser also takes several top-level elements).
fn tags(n: usize) {
    let mut d = vec![];
    let (mut ok, mut roots) = (true, 0);
    let mut open: Vec<u8> = vec![];
    for _ in 0..n {
        let k = choose(4);
        let c = byte();
        assume((c >= b'a') & (c <= b'z'));
        match k {
            0 | 2 => {
                if open.is_empty() {
                    roots += 1;
                }
                d.extend_from_slice(&[b'<', c]);
                put(&mut d, if k == 0 { ">" } else { "/>" });
                if k == 0 {
                    open.push(c);
                }
            }
            1 => {
                d.extend_from_slice(&[b'<', b'/', c, b'>']);
                match open.pop() {
                    Some(o) => ok &= o == c,
                    None => ok = false,
                }
            }
            _ => {
                if open.is_empty() {
                    ok = false;
                }
                d.push(c);
            }
        }
    }
    ok &= open.is_empty() & (roots >= 1);
    show("document", &st(&d));
    let r = Soup::xml(&d[..]);
    let got = r.is_ok();
    check(got == ok, 930);
    if got {
        reach(1);
    } else {
        reach(2);
    }
}
#[no_mangle]
pub extern "C" fn h_c22_tags4() {
    let n = choose(5) as usize;
    tags(n)
}
#[no_mangle]
pub extern "C" fn h_c22_tags5() {
    tags(5)
}
#[no_mangle]
pub extern "C" fn h_c22_tags6() {
    tags(6)
}
/// Any bytes, not only text: an error or a document, never a panic; the same however they are split.
fn bytes_any(n: usize) {
    let (a, z) = [("<a>", "</a>"), ("", ""), ("<a b='", "'/>"), ("", "<a/>")][choose(4) as usize];
    let mut d = v(a);
    for _ in 0..n {
        d.push(byte());
    }
    put(&mut d, z);
    let s = st(&d).as_bytes();
    show("document", &s);
    let want = Soup::xml(s);
    let got = Soup::xml(Pieces { d: s, at: 0, sizes: vec![2, 1, 0, 3, 1, 1], reads: 0, fail: usize::MAX, failed: false });
    check(want.is_ok() == got.is_ok(), 940);
    if let (Ok(g), Ok(w)) = (got, want) {
        agree(&g, &w, 941);
        reach(1);
    } else {
        reach(2);
    }
}
#[no_mangle]
pub extern "C" fn h_c22_bytes2() {
    let n = choose(3) as usize;
    bytes_any(n)
}
#[no_mangle]
pub extern "C" fn h_c22_bytes3() {
    bytes_any(3)
}
#[no_mangle]
pub extern "C" fn h_c22_bytes4() {
    bytes_any(4)
}
// ---------- unusual sizes ----------
const SIZES: [usize; 8] = [20, 33, 65, 129, 256, 257, 300, 1030];
/// Many children, deep trees, many attributes, long texts.
#[no_mangle]
pub extern "C" fn h_c21_big() {
    let n = SIZES[choose(8) as usize];
    let g = Gen { len: 1, attrs: 0, ascii: true };
    let t = g.string();
    let mut e = xmltree::Element::new("r");
    match choose(4) {
        0 => {
            for i in 0..n {
                e.children.push(match i % 6 {
                    0 => xmltree::XMLNode::Element(xmltree::Element::new("c")),
                    1 => xmltree::XMLNode::Comment(t.clone()),
                    2 => xmltree::XMLNode::CData(t.clone()),
                    3 => xmltree::XMLNode::Text(t.clone()),
                    4 => xmltree::XMLNode::ProcessingInstruction(t.clone(), None),
                    _ => xmltree::XMLNode::ProcessingInstruction(t.clone(), Some(t.clone())),
                });
            }
        }
        1 => {
            for _ in 0..n.min(300) {
                let mut up = xmltree::Element::new("p");
                up.children.push(xmltree::XMLNode::Text(t.clone()));
                up.children.push(xmltree::XMLNode::Element(e));
                up.children.push(xmltree::XMLNode::Comment(t.clone()));
                e = up;
            }
        }
        2 => {
            for i in 0..n {
                e.attributes.insert(format!("k{}", i * 7 % 1009), if i % 2 == 0 { t.clone() } else { i.to_string() });
            }
            let mut ns = xmltree::Namespace::empty();
            for i in 0..n.min(300) {
                ns.put(format!("n{i}"), format!("{i}{t}"));
            }
            e.namespaces = Some(ns);
        }
        _ => {
            let mut d = "x".repeat(n * 64);
            d.push_str(&t);
            e.name = d.clone();
            e.prefix = Some(d.clone());
            e.attributes.insert(d.clone(), d.clone());
            e.children.push(xmltree::XMLNode::Text(d.clone()));
            e.children.push(xmltree::XMLNode::Comment(d.clone()));
            e.children.push(xmltree::XMLNode::CData(d.clone()));
            e.children.push(xmltree::XMLNode::ProcessingInstruction(d.clone(), Some(d)));
        }
    }
    // written out, the tree would be too long to show
    let want = vec![xmltree::XMLNode::Element(e)];
    let got: Vec<XMLNode> = want.iter().cloned().map(convert).collect();
    nodes(&got, &want, 800);
    reach(1);
}
/// Long documents, whole and in pieces around the usual sizes of buffers, with an error after them or not.
#[no_mangle]
pub extern "C" fn h_c22_big() {
    struct Cut<'a>(&'a [u8], usize, bool);
    impl Read for Cut<'_> {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            if self.0.is_empty() && self.2 {
                return Err(io::Error::from(io::ErrorKind::TimedOut));
            }
            let n = b.len().min(self.0.len()).min(self.1);
            b[..n].copy_from_slice(&self.0[..n]);
            self.0 = &self.0[n..];
            Ok(n)
        }
    }
    let n = [500, 4090, 8190, 16400, 65540][choose(5) as usize];
    let size = [1, 512, 4096, 8192, 1 << 20][choose(5) as usize];
    let bad = choose(3);
    let mut d = v("<r>");
    let mut text = vec![b'x'; n];
    text.push(b"y ;\xc3"[choose(4) as usize]);
    if text.last() == Some(&0xc3) {
        text.push(0xa9);
    }
    d.extend_from_slice(&text);
    put(&mut d, "<a/></r>");
    if bad == 1 {
        // cut
        d.pop();
    }
    let r = Soup::xml(Cut(&d, size, bad == 2));
    check(r.is_ok() == (bad == 0), 950);
    if let Ok(s) = r {
        let r = s.iter().next().unwrap();
        check(r.children().len() == 2, 951);
        check(r.children()[0].text().map_or(false, |t| t.as_bytes() == &text[..]), 952);
        reach(1);
    } else {
        reach(2);
    }
}
/// Nesting so deep that the stack matters.
#[no_mangle]
pub extern "C" fn h_c22_stack() {
    let n = [100, 60000, 130, 257][choose(4) as usize];
    let mut d = vec![];
    for _ in 0..n {
        put(&mut d, "<a>");
    }
    let whole = choose(2) == 1;
    if whole {
        for _ in 0..n {
            put(&mut d, "</a>");
        }
    }
    check(Soup::xml(&d[..]).is_ok() == whole, 951);
    reach(1);
}
/// Elements with any namespace declarations: every prefix and address, in any number and together with the element's own.
fn spaces(len: usize, n: usize) {
    let g = Gen { len, attrs: 0, ascii: true };
    let mut e = xmltree::Element::new("e");
    let mut ns = xmltree::Namespace::empty();
    for _ in 0..n {
        let (l, m) = (choose(len as u8 + 1) as usize, choose(2) as usize);
        ns.put(Gen { len: l, attrs: 0, ascii: true }.string(), Gen { len: m, attrs: 0, ascii: true }.string());
    }
    e.namespaces = Some(ns);
    match choose(3) {
        0 => {}
        1 => e.prefix = Some(g.string()),
        _ => e.namespace = Some(g.string()),
    }
    let mut inner = xmltree::Element::new("i");
    inner.namespaces = if choose(2) == 1 { e.namespaces.clone() } else { None };
    e.children.push(xmltree::XMLNode::Element(inner));
    image(vec![xmltree::XMLNode::Element(e)])
}
#[no_mangle]
pub extern "C" fn h_c21_spaces() {
    spaces(2, choose(3) as usize)
}
/// Well-known prefixes and addresses, alone and with any other.
#[no_mangle]
pub extern "C" fn h_c21_known() {
    const P: [&str; 12] = ["xml", "xmlns", "", "x", "xs", "xsi", "xlink", "html", "svg", "soap", "a", "ns0"];
    const U: [&str; 7] = [
        "http://www.w3.org/XML/1998/namespace",
        "http://www.w3.org/2000/xmlns/",
        "",
        "http://www.w3.org/1999/xhtml",
        "http://www.w3.org/2000/svg",
        "http://www.w3.org/1999/xlink",
        "u",
    ];
    let pick = || (P[choose(12) as usize], U[choose(7) as usize]);
    let mut e = xmltree::Element::new("e");
    let mut ns = xmltree::Namespace::empty();
    let (p, u) = pick();
    ns.put(p, u);
    let g = Gen { len: 1, attrs: 0, ascii: true };
    if choose(2) == 1 {
        ns.put(g.string(), g.string());
    }
    e.namespaces = Some(ns);
    if choose(2) == 1 {
        let (p, u) = pick();
        e.prefix = Some(p.into());
        e.namespace = Some(u.into());
        e.attributes.insert(p.into(), u.into());
    }
    image(vec![xmltree::XMLNode::Element(e)])
}
/// More children than sixteen bits count.
#[no_mangle]
pub extern "C" fn h_c21_huge() {
    let g = Gen { len: 1, attrs: 0, ascii: true };
    let t = g.string();
    let n = 65536 + choose(2) as usize;
    let mut e = xmltree::Element::new("r");
    for i in 0..n {
        e.children.push(if i % 2 == 0 { xmltree::XMLNode::Text(t.clone()) } else { xmltree::XMLNode::Element(xmltree::Element::new("c")) });
    }
    let want = vec![xmltree::XMLNode::Element(e)];
    let got: Vec<XMLNode> = want.iter().cloned().map(convert).collect();
    nodes(&got, &want, 800);
    reach(1);
}
harnesses!(
    h_c21_huge,
    h_c21_spaces, h_c21_known,
    h_c22_stack,
    h_c21_big, h_c22_big,
    h_c21_kinds3, h_c21_kinds4, h_c21_kinds5, h_c21_shapes7, h_c21_fields, h_c21_doc, h_c21_hole1, h_c21_hole2, h_c21_hole3, h_c21_hole4, h_c21_hole5, h_c22_bytes5, h_c22_tags8,
    h_c22_split, h_c22_interrupted, h_c22_fault, h_c22_kinds, h_c22_cut, h_c22_tags4, h_c22_tags5, h_c22_tags6, h_c22_bytes2,
    h_c22_bytes3, h_c22_bytes4,
);
