//! C19-C20: the lenient HTML parser.
mod local;
mod rt;
mod tree;
use local::known_name;
use ego_tree::{NodeId, NodeRef, Tree};
use html5ever::{Attribute, LocalName, Namespace, Prefix, QualName};
use rt::*;
use scraper::node::{Comment, Doctype, Element, Node as SNode, ProcessingInstruction, Text};
use scraper::StrTendril;
use soupy::parser::HTMLNode;
use soupy::prelude::*;
use std::borrow::Cow;
use tree::*;

type L = HTMLNode<StrTendril>;
const HTML: &str = "http://www.w3.org/1999/xhtml";
const SVG: &str = "http://www.w3.org/2000/svg";
const MATH: &str = "http://www.w3.org/1998/Math/MathML";
const VOID: [&str; 13] = [
    "area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr",
];

fn put(d: &mut Vec<u8>, s: &str) {
    d.extend_from_slice(s.as_bytes());
}
fn tend(b: &[u8]) -> StrTendril {
    st(b).into()
}

// ---------- the HTML5 tree, as a list of expected nodes ----------
/// Expected nodes for the children of `n`. Processing instructions do not exist in HTML; the contents of a template
/// are its children.
fn expected(n: NodeRef<'_, SNode>, out: &mut Vec<X>) {
    for c in n.children() {
        match c.value() {
            SNode::Document | SNode::ProcessingInstruction(_) => {}
            SNode::Fragment => expected(c, out),
            SNode::Doctype(d) => out.push(D(v(&d.name))),
            SNode::Comment(t) => out.push(C(v(&t.comment))),
            SNode::Text(t) => out.push(T(v(&t.text))),
            SNode::Element(e) => {
                let name = v(&e.name.local);
                let mut attrs = vec![];
                for (k, val) in e.attrs.iter() {
                    let mut a = vec![];
                    if let Some(p) = &k.prefix {
                        if !p.is_empty() {
                            put(&mut a, p);
                            put(&mut a, ":");
                        }
                    }
                    put(&mut a, &k.local);
                    attrs.push((a, v(val)));
                }
                if &*e.name.ns == HTML && VOID.contains(&&*e.name.local) {
                    out.push(V(name, attrs));
                } else {
                    let mut kids = vec![];
                    expected(c, &mut kids);
                    out.push(E(name, attrs, kids));
                }
            }
        }
    }
}

// ---------- C19: trees built by hand ----------
struct Gen {
    tree: Tree<SNode>,
    len: usize,
    names: &'static [(&'static str, &'static str)],
}
const NAMES: [(&str, &str); 8] =
    [("p", HTML), ("br", HTML), ("template", HTML), ("svg", SVG), ("link", SVG), ("hr", MATH), ("script", HTML), ("param", HTML)];
impl Gen {
    fn text(&self) -> StrTendril {
        let mut d = vec![];
        for _ in 0..self.len {
            let b = byte();
            assume(b < 0x80);
            d.push(b);
        }
        tend(&d)
    }
    fn element(&self, name: (&str, &str), attrs: Vec<Attribute>) -> SNode {
        SNode::Element(Element::new(QualName::new(None, Namespace::from(name.1), LocalName::from(name.0)), attrs))
    }
    fn leaf(&self, kind: u8) -> SNode {
        match kind {
            0 => SNode::Text(Text { text: self.text() }),
            1 => SNode::Comment(Comment { comment: self.text() }),
            2 => SNode::Doctype(Doctype { name: self.text(), public_id: "".into(), system_id: "".into() }),
            k => self.element(self.names[(k - 3) as usize], vec![]),
        }
    }
}
/// The conversion of a tree is public (`TryFrom`). Should that ever change, only whole documents can be compared
/// (feature `indirect`, which check.py falls back to).
#[cfg(not(feature = "indirect"))]
fn convert(n: NodeRef<'_, SNode>) -> Vec<L> {
    n.children().filter_map(|n| L::try_from(n).ok()).collect()
}
#[cfg(feature = "indirect")]
fn convert(_: NodeRef<'_, SNode>) -> Vec<L> {
    check(false, 1099);
    vec![]
}
fn image(t: &Tree<SNode>, reach_id: u64) {
    let mut want = vec![];
    expected(t.root(), &mut want);
    show("tree", &want);
    let got = convert(t.root());
    list(got.iter(), &want, 1000);
    reach(reach_id);
}
/// Every ordered forest of `n` nodes, every kind for every node that has no children, elements of every kind of name.
fn forest(n: usize, len: usize, names: &'static [(&'static str, &'static str)]) {
    let mut g = Gen { tree: Tree::new(SNode::Document), len, names };
    let mut depth: Vec<usize> = vec![];
    for i in 0..n {
        depth.push(if i == 0 { 0 } else { choose(depth[i - 1] as u8 + 2) as usize });
    }
    let mut path: Vec<NodeId> = vec![g.tree.root().id()];
    for i in 0..n {
        let inner = i + 1 < n && depth[i + 1] > depth[i];
        let k = names.len() as u8;
        let x = g.leaf(if inner { 3 + choose(k) } else { choose(3 + k) });
        path.truncate(depth[i] + 1);
        let template = matches!(&x, SNode::Element(e) if &*e.name.local == "template");
        let mut up = g.tree.get_mut(path[depth[i]]).unwrap();
        let mut id = up.append(x).id();
        if template && inner {
            // the contents of a template are in a fragment
            id = g.tree.get_mut(id).unwrap().append(SNode::Fragment).id();
        }
        path.push(id);
    }
    image(&g.tree, 1)
}
#[no_mangle]
pub extern "C" fn h_c19_forest3() {
    let n = 1 + choose(3) as usize;
    forest(n, 2, &NAMES)
}
#[no_mangle]
pub extern "C" fn h_c19_forest4() {
    forest(4, 1, &NAMES[..5])
}
#[no_mangle]
pub extern "C" fn h_c19_forest5() {
    forest(5, 1, &NAMES[..3])
}
#[no_mangle]
pub extern "C" fn h_c19_shapes7() {
    forest(6 + choose(2) as usize, 0, &NAMES[..1])
}
/// Names: every void name and names like one, in every namespace, with and without children.
#[no_mangle]
pub extern "C" fn h_c19_names() {
    const LIKE: [&str; 14] = [
        "are", "bas", "b", "column", "embeds", "h", "image", "inpu", "links", "metar", "tracks", "wbrr", "command", "keygen",
    ];
    let k = choose(27) as usize;
    let name = if k < 13 { VOID[k] } else { LIKE[k - 13] };
    let ns = [HTML, SVG, MATH][choose(3) as usize];
    let mut g = Gen { tree: Tree::new(SNode::Document), len: 1, names: &NAMES };
    let x = g.element((name, ns), vec![]);
    let mut r = g.tree.root_mut();
    let id = r.append(x).id();
    let html_void = k < 13 && ns == HTML;
    if !html_void {
        for _ in 0..choose(3) {
            let x = g.leaf(choose(2));
            g.tree.get_mut(id).unwrap().append(x);
        }
    }
    let x = g.leaf(0);
    g.tree.root_mut().append(x);
    let got = convert(g.tree.root());
    check(matches!(got.first(), Some(HTMLNode::Void { .. })) == html_void, 1010);
    image(&g.tree, 1)
}
/// Attributes: with and without prefixes, equal local names, every value.
#[no_mangle]
pub extern "C" fn h_c19_attrs() {
    const A: [(Option<&str>, &str, &str); 7] = [
        (None, "", "href"),
        (Some("xlink"), "http://www.w3.org/1999/xlink", "href"),
        (None, "", "class"),
        (None, "", "data-a"),
        (Some("xml"), "http://www.w3.org/XML/1998/namespace", "lang"),
        (None, "", "lang"),
        (Some(""), "", "x"),
    ];
    let mut g = Gen { tree: Tree::new(SNode::Document), len: 2, names: &NAMES };
    let set = choose(128);
    let mut attrs = vec![];
    for (i, (p, ns, n)) in A.iter().enumerate() {
        if set >> i & 1 == 1 {
            attrs.push(Attribute {
                name: QualName::new(p.map(Prefix::from), Namespace::from(*ns), LocalName::from(*n)),
                value: g.text(),
            });
        }
    }
    let x = g.element(NAMES[choose(4) as usize], attrs);
    let mut r = g.tree.root_mut();
    r.append(x);
    image(&g.tree, 1)
}
/// Nodes that HTML does not have are skipped without losing their neighbours.
#[no_mangle]
pub extern "C" fn h_c19_skip() {
    let mut g = Gen { tree: Tree::new(SNode::Document), len: 1, names: &NAMES };
    let x = g.leaf(3);
    let mut r = g.tree.root_mut();
    let id = r.append(x).id();
    for _ in 0..choose(4) {
        let x = match choose(3) {
            0 => SNode::ProcessingInstruction(ProcessingInstruction { target: g.text(), data: g.text() }),
            k => g.leaf(k - 1),
        };
        g.tree.get_mut(id).unwrap().append(x);
    }
    image(&g.tree, 1)
}

// ---------- C19, C20: documents ----------
/// `Soup::html` of a document against the HTML5 tree of the same document.
fn document(d: &[u8], id: u64) {
    let s = st(d);
    show("document", &s);
    let mut want = vec![];
    expected(scraper::Html::parse_document(s).tree.root(), &mut want);
    let got = Soup::html(s);
    let mut i = 0;
    for q in got.strict().all() {
        check(i < want.len(), id + 20);
        eq(&*q, &want[i], id);
        i += 1;
    }
    check(i == want.len(), id + 20);
    // traversal and queries work on whatever came out
    let all = got.into_iter().count();
    check(got.tag(true).all().count() <= all, id + 21);
    check(all >= 1, id + 22);
    reach(1);
}
const HOLES: [(&str, &str); 22] = [
    ("", ""),
    ("<p>", "</p>"),
    ("<p", ">x</p>"),
    ("<", ">"),
    ("<p a", "=1>"),
    ("<p a=", ">x"),
    ("<p a='", "'>x"),
    ("<p>x</", ">"),
    ("<!--", "-->"),
    ("<!", ">"),
    ("<!DOCTYPE ", ">"),
    ("<b><i>", "</b>x</i>"),
    ("<table>", "</table>"),
    ("<table><tr><td>", "</table>"),
    ("<template>", "</template>"),
    ("<svg><", "/></svg>"),
    ("<svg><desc>", "</svg>"),
    ("<script>", "</script>"),
    ("<title>", "</title>"),
    ("<select><option>", "</select>"),
    ("<body>&", ";"),
    ("</body>", "</html>"),
];
fn hole(i: usize, n: usize) {
    let (a, z) = HOLES[i];
    let mut d = v(a);
    utf8(&mut d, n);
    if i == 20 {
        // references to names are decided by C17's counterpart in html5ever
        for b in &d[a.len()..] {
            assume(!alpha(*b));
        }
    }
    put(&mut d, z);
    document(&d, 1030);
}
#[no_mangle]
pub extern "C" fn h_c19_hole1() {
    let i = choose(HOLES.len() as u8) as usize;
    hole(i, choose(2) as usize)
}
#[no_mangle]
pub extern "C" fn h_c19_hole2() {
    hole(choose(HOLES.len() as u8) as usize, 2)
}
#[no_mangle]
pub extern "C" fn h_c19_hole3() {
    hole(choose(HOLES.len() as u8) as usize, 3)
}

#[no_mangle]
pub extern "C" fn h_c19_hole4() {
    hole(choose(HOLES.len() as u8) as usize, 4)
}
// ---------- C20 ----------
fn total(d: &[u8]) {
    let s = st(d);
    show("document", &s);
    let soup = Soup::html(s);
    let mut n = 0u64;
    for q in &soup {
        n += 1;
        if let Some(x) = q.name() {
            obs(x.as_bytes());
        }
        obs1(q.children().len() as u64);
    }
    check(n >= 3, 1100);
    check(soup.tag("html").all().count() >= 1, 1101);
    let _ = soup.attr("a", true).first().map(|q| q.all_text());
    reach(1);
}
fn any(n: usize) {
    let mut d = vec![];
    utf8(&mut d, n);
    total(&d)
}
#[no_mangle]
pub extern "C" fn h_c20_any2() {
    any(choose(3) as usize)
}
#[no_mangle]
pub extern "C" fn h_c20_any3() {
    any(3)
}
#[no_mangle]
pub extern "C" fn h_c20_any4() {
    any(4)
}
#[no_mangle]
pub extern "C" fn h_c20_any5() {
    any(5)
}
/// The same contents in both parsers' documents.
fn agree(a: &[HTMLNode<Cow<'_, str>>], b: &[L], id: u64) {
    check(a.len() == b.len(), id);
    for (x, y) in a.iter().zip(b) {
        match (x, y) {
            (HTMLNode::Text(x), HTMLNode::Text(y)) => check(same(x.as_bytes(), y.as_bytes()), id + 1),
            (HTMLNode::Comment(x), HTMLNode::Comment(y)) => check(same(x.as_bytes(), y.as_bytes()), id + 2),
            (HTMLNode::Void { name, attrs }, HTMLNode::Void { name: n, attrs: t }) => {
                check(same(name.as_bytes(), n.as_bytes()), id + 3);
                same_attrs(attrs, t, id + 4);
            }
            (HTMLNode::Element { name, attrs, children }, HTMLNode::Element { name: n, attrs: t, children: c }) => {
                check(same(name.as_bytes(), n.as_bytes()), id + 3);
                same_attrs(attrs, t, id + 4);
                agree(children, c, id);
            }
            _ => check(false, id + 7),
        }
    }
}
fn same_attrs(
    a: &std::collections::BTreeMap<Cow<'_, str>, Cow<'_, str>>,
    b: &std::collections::BTreeMap<StrTendril, StrTendril>,
    id: u64,
) {
    check(a.len() == b.len(), id);
    for ((k, x), (l, y)) in a.iter().zip(b) {
        check(same(k.as_bytes(), l.as_bytes()), id + 1);
        check(same(x.as_bytes(), y.as_bytes()), id + 2);
    }
}
/// Contents of text or a quoted attribute value: text that is neither markup nor changed by HTML's newline rule, and
/// references.
fn content(d: &mut Vec<u8>, n: usize, not: &[u8], refs: bool) {
    let k = if refs { choose(4) } else { 0 };
    let s = d.len();
    utf8(d, n);
    let mut bad = false;
    for b in &d[s..] {
        bad |= is_in(*b, not) | is_in(*b, b"\0\r<&");
    }
    assume(!bad);
    match k {
        1 => {
            let c = byte();
            let e = byte();
            assume(digit(c) & digit(e) & (c >= b'4'));
            put(d, "&#");
            d.extend_from_slice(&[c, e]);
            put(d, ";");
        }
        2 => put(d, ["&amp;", "&lt;", "&quot;", "&eacute;", "&nbsp;", "&NotEqualTilde;"][choose(6) as usize]),
        3 => {
            let c = byte();
            let e = lower(byte());
            assume(digit(c) & (c >= b'2') & (c != b'8') & (c != b'9'));
            assume(digit(e) | ((e >= b'a') & (e <= b'e')));
            put(d, "&#x");
            d.extend_from_slice(&[c, e]);
            put(d, ";");
        }
        _ => {}
    }
}
fn fragment(d: &mut Vec<u8>, pieces: usize, depth: usize, n: usize, refs: bool, few: bool) {
    for _ in 0..pieces {
        match choose(if depth > 0 { 4 } else { 3 }) {
            0 => content(d, n, b"", refs),
            1 => {
                put(d, "<!--");
                let s = d.len();
                content(d, n, b"->!", false);
                let _ = s;
                put(d, "-->");
            }
            2 => {
                put(d, if few { "<br" } else { ["<br", "<img"][choose(2) as usize] });
                attribute(d, n, refs, few);
                put(d, if few { ">" } else { [">", "/>", " >"][choose(3) as usize] });
            }
            _ => {
                let name = ["div", "b", "span", "my-tag"][choose(if few { 2 } else { 4 }) as usize];
                put(d, "<");
                put(d, name);
                attribute(d, n, false, few);
                put(d, ">");
                fragment(d, choose(2) as usize + 1, depth - 1, n, false, few);
                put(d, "</");
                put(d, name);
                put(d, ">");
            }
        }
    }
}
fn attribute(d: &mut Vec<u8>, n: usize, refs: bool, few: bool) {
    match if few { choose(2) * 4 } else { choose(5) } {
        0 => {}
        1 => put(d, " disabled"),
        2 => {
            put(d, " a=");
            for _ in 0..n {
                let b = byte();
                assume(alnum(b) | is_in(b, b"-_.:#"));
                d.push(b);
            }
        }
        k => {
            let q = if k == 3 { b'"' } else { b'\'' };
            put(d, " data-x=");
            d.push(q);
            content(d, n, &[q], refs);
            d.push(q);
        }
    }
}
fn both(frag: &[u8]) {
    let s = st(frag);
    show("fragment", &s);
    let Ok(a) = Soup::html_strict(s) else { return check(false, 1110) };
    let mut d = v("<!DOCTYPE html><html><head></head><body>");
    d.extend_from_slice(frag);
    put(&mut d, "</body></html>");
    compare(&a, &d)
}
fn compare(a: &Soup<HTMLNode<Cow<'_, str>>>, d: &[u8]) {
    let b = Soup::html(st(d));
    let Some(body) = b.tag("body").first() else { return check(false, 1111) };
    let a: Vec<_> = a.strict().all().map(|q| (*q).clone()).collect();
    agree(&a, body.children(), 1120);
    reach(1);
}
/// The fragment alone, after something that begins the body: the document's own tags may be left out.
fn bare(pieces: usize, depth: usize, n: usize) {
    warm();
    let mut frag = v(["<b></b>", "x"][choose(2) as usize]);
    fragment(&mut frag, pieces, depth, n, false, true);
    if choose(2) == 1 {
        frag.push([b' ', b'\n'][choose(2) as usize]);
    }
    let s = st(&frag);
    show("fragment", &s);
    let Ok(a) = Soup::html_strict(s) else { return check(false, 1110) };
    let mut d = v(["", "<!DOCTYPE html>\n<title></title>"][choose(2) as usize]);
    d.extend_from_slice(&frag);
    compare(&a, &d)
}
#[no_mangle]
pub extern "C" fn h_c20_bare1() {
    bare(1, 1, 1)
}
#[no_mangle]
pub extern "C" fn h_c20_bare2() {
    bare(2, 0, 1)
}
#[no_mangle]
pub extern "C" fn h_c20_bare3() {
    bare(3, 0, 1)
}
fn agreement(pieces: usize, depth: usize, n: usize, refs: bool, few: bool) {
    warm();
    let mut d = vec![];
    fragment(&mut d, pieces, depth, n, refs, few);
    both(&d)
}
#[no_mangle]
pub extern "C" fn h_c20_agree1() {
    agreement(1, 1, 1, false, false)
}
#[no_mangle]
pub extern "C" fn h_c20_nested() {
    agreement(1, 1, 1, false, true)
}
#[no_mangle]
pub extern "C" fn h_c20_refs() {
    agreement(1, 0, 1, true, false)
}
#[no_mangle]
pub extern "C" fn h_c20_refs2() {
    agreement(2, 0, 1, true, true)
}
#[no_mangle]
pub extern "C" fn h_c20_agree2() {
    agreement(2, 0, 1, false, false)
}
#[no_mangle]
pub extern "C" fn h_c20_agree3() {
    agreement(3, 0, 1, false, true)
}
#[no_mangle]
pub extern "C" fn h_c20_agree3n() {
    agreement(3, 1, 1, false, true)
}
#[no_mangle]
pub extern "C" fn h_c20_deep() {
    agreement(1, 2, 0, false, true)
}
#[no_mangle]
pub extern "C" fn h_c20_deep3() {
    agreement(1, 3, 0, false, true)
}
/// Longer texts, comments and values.
#[no_mangle]
pub extern "C" fn h_c20_long() {
    warm();
    let mut d = v("<div>");
    let n = 3 + choose(3) as usize;
    match choose(4) {
        0 => content(&mut d, n, b"", false),
        1 => {
            put(&mut d, "<!--");
            content(&mut d, n, b"->!", false);
            put(&mut d, "-->");
        }
        2 => {
            put(&mut d, "<br a='");
            content(&mut d, n, b"'", false);
            put(&mut d, "'>");
        }
        _ => {
            put(&mut d, "<i a=\"");
            content(&mut d, n, b"\"", false);
            put(&mut d, "\"></i>");
        }
    }
    put(&mut d, "</div>");
    both(&d)
}
/// Elements that HTML5 treats alike in a body, whatever is in them.
const PLAIN: [&str; 76] = [
    "a", "abbr", "address", "article", "aside", "audio", "b", "bdi", "bdo", "big", "blockquote", "button", "canvas",
    "center", "cite", "code", "data", "dd", "del", "details", "dfn", "dialog", "dir", "div", "dl", "dt", "em",
    "fieldset", "figcaption", "figure", "font", "footer", "form", "h1", "h2", "h3", "h4", "h5", "h6", "header",
    "hgroup", "i", "ins", "kbd", "label", "legend", "li", "main", "map", "mark", "menu", "meter", "nav", "nobr",
    "object", "ol", "output", "p", "progress", "q", "s", "samp", "search", "section", "slot", "small", "span",
    "strike", "strong", "sub", "summary", "sup", "time", "tt", "u", "x-y",
];
/// Void elements that may be in a body.
const VOIDS: [&str; 12] =
    ["area", "base", "br", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"];
#[no_mangle]
pub extern "C" fn h_c20_names() {
    warm();
    let mut d = vec![];
    let outer = ["", "div", "section", "b"][choose(4) as usize];
    if !outer.is_empty() {
        put(&mut d, "<");
        put(&mut d, outer);
        put(&mut d, ">");
    }
    let mut text = vec![];
    content(&mut text, 1, b"", false);
    let k = choose(88) as usize;
    let at = [" title='", " class=\"", " id='"][choose(3) as usize];
    let open = |d: &mut Vec<u8>, n: &str| {
        put(d, "<");
        put(d, n);
        put(d, at);
        content(d, 1, b"'\"", false);
        put(d, &at[at.len() - 1..]);
        put(d, ">");
    };
    if k < 76 {
        let n = PLAIN[k];
        assume(n != outer);
        open(&mut d, n);
        d.extend_from_slice(&text);
        put(&mut d, ["<em></em>", "<!--c--> ", "<img>", ""][choose(4) as usize]);
        put(&mut d, "</");
        put(&mut d, n);
        put(&mut d, ">");
    } else {
        open(&mut d, VOIDS[k - 76]);
    }
    d.extend_from_slice(&text);
    if !outer.is_empty() {
        put(&mut d, "</");
        put(&mut d, outer);
        put(&mut d, ">");
    }
    both(&d)
}
/// Attributes of every known name (in lower case, as HTML5 makes names lower-case) on three kinds of elements.
#[no_mangle]
pub extern "C" fn h_c20_attrs() {
    warm();
    let n = known_name();
    assume(n.bytes().all(|b| b.is_ascii_lowercase() | b.is_ascii_digit() | (b == b'-') | (b == b':')));
    // two attributes of one name are not well-formed
    assume(n != "a" && n != "z");
    let mut d = v(["<p ", "<img a=1 ", "<div><b "][choose(3) as usize]);
    let el = d.len();
    put(&mut d, n);
    match choose(4) {
        0 => {}
        1 => put(&mut d, "=''"),
        2 => {
            put(&mut d, "=");
            let b = byte();
            assume(alnum(b));
            d.push(b);
        }
        _ => {
            put(&mut d, "=\" ");
            content(&mut d, 1, b"\"", false);
            put(&mut d, "  x&amp;y \"");
        }
    }
    put(&mut d, if el == 3 { " z=2>" } else { ">" });
    put(&mut d, match el {
        3 => "x</p>",
        9 => "",
        _ => "</b></div>",
    });
    both(&d)
}
// ---------- unusual sizes ----------
const SIZES: [usize; 8] = [20, 33, 65, 129, 256, 257, 300, 1030];
/// Trees with many children, deep trees, many attributes and long texts.
#[no_mangle]
pub extern "C" fn h_c19_big() {
    let n = SIZES[choose(8) as usize];
    let mut g = Gen { tree: Tree::new(SNode::Document), len: 1, names: &NAMES };
    let text = g.text();
    match choose(5) {
        0 => {
            // many children of several kinds
            let x = g.leaf(3);
            let id = g.tree.root_mut().append(x).id();
            for i in 0..n {
                let x = match i % 4 {
                    0 => SNode::Text(Text { text: text.clone() }),
                    1 => SNode::Comment(Comment { comment: text.clone() }),
                    k => g.element(NAMES[k - 2], vec![]),
                };
                g.tree.get_mut(id).unwrap().append(x);
            }
        }
        1 => {
            // deep, with text on both sides of every level
            let n = n.min(300);
            let mut id = g.tree.root().id();
            for i in 0..n {
                let x = g.element(NAMES[if i % 3 == 0 { 3 } else { 0 }], vec![]);
                let mut up = g.tree.get_mut(id).unwrap();
                up.append(SNode::Text(Text { text: text.clone() }));
                id = up.append(x).id();
                g.tree.get_mut(id).unwrap().insert_after(SNode::Comment(Comment { comment: text.clone() }));
            }
        }
        2 => {
            // templates in templates
            let n = n.min(65);
            let mut id = g.tree.root().id();
            for _ in 0..n {
                let x = g.element(NAMES[2], vec![]);
                let mut up = g.tree.get_mut(id).unwrap();
                up.append(SNode::Text(Text { text: text.clone() }));
                let t = up.append(x).id();
                id = g.tree.get_mut(t).unwrap().append(SNode::Fragment).id();
            }
        }
        3 => {
            // many attributes
            let mut attrs = vec![];
            for i in 0..n.min(300) {
                attrs.push(Attribute {
                    name: QualName::new(None, Namespace::from(""), LocalName::from(format!("k{}", i * 7 % 1009))),
                    value: if i % 2 == 0 { text.clone() } else { tend(i.to_string().as_bytes()) },
                });
            }
            let x = g.element(NAMES[choose(2) as usize], attrs);
            g.tree.root_mut().append(x);
        }
        _ => {
            // long texts
            let mut d = vec![b'x'; n * 64];
            d.extend_from_slice(text.as_bytes());
            let x = g.leaf(3);
            let id = g.tree.root_mut().append(x).id();
            let mut up = g.tree.get_mut(id).unwrap();
            up.append(SNode::Text(Text { text: tend(&d) }));
            up.append(SNode::Comment(Comment { comment: tend(&d) }));
            g.tree.root_mut().append(SNode::Doctype(Doctype { name: tend(&d), public_id: "".into(), system_id: "".into() }));
        }
    }
    image(&g.tree, 1)
}
/// Both parsers on long fragments: many pieces, deep nesting, long texts, comments and values.
#[no_mangle]
pub extern "C" fn h_c20_big() {
    warm();
    let n = [20, 65, 129, 257, 1030][choose(5) as usize];
    let b = byte();
    assume((b < 0x80) & !is_in(b, b"\0\r<&-!>'"));
    let mut d = v("<div>");
    match choose(6) {
        0 => {
            d.extend(vec![b'x'; n * 8]);
            d.push(b);
        }
        1 => {
            put(&mut d, "<!--");
            d.extend(vec![b'x'; n]);
            d.push(b);
            put(&mut d, "-->");
        }
        2 => {
            put(&mut d, "<br a='");
            d.extend(vec![b'x'; n]);
            d.push(b);
            put(&mut d, "'>");
        }
        3 => {
            for _ in 0..n.min(300) {
                put(&mut d, "t<br><b>u</b>");
                d.push(b);
                put(&mut d, "<!--c-->");
            }
        }
        4 => {
            let n = n.min(65);
            for _ in 0..n {
                put(&mut d, "<div>t");
            }
            d.push(b);
            for _ in 0..n {
                put(&mut d, "</div>");
            }
        }
        _ => {
            for _ in 0..n.min(300) {
                put(&mut d, "&lt;x&#65;");
            }
            d.push(b);
        }
    }
    put(&mut d, "</div>");
    both(&d)
}
/// Nesting so deep that the stack matters.
#[no_mangle]
pub extern "C" fn h_c20_stack() {
    let n = [100, 60000, 130, 257][choose(4) as usize];
    let mut d = vec![];
    for _ in 0..n {
        put(&mut d, "<x>");
    }
    if choose(2) == 1 {
        for _ in 0..n {
            put(&mut d, "</x>");
        }
    }
    check(Soup::html(st(&d)).tag("body").first().is_some(), 1102);
    reach(1);
}
/// Every element name that HTML, SVG or MathML knows, in every namespace.
#[no_mangle]
pub extern "C" fn h_c19_known() {
    let name = known_name();
    let ns = [HTML, SVG, MATH][choose(3) as usize];
    let mut g = Gen { tree: Tree::new(SNode::Document), len: 1, names: &NAMES };
    let x = g.element((name, ns), vec![]);
    let id = g.tree.root_mut().append(x).id();
    if !(ns == HTML && VOID.contains(&name)) {
        for _ in 0..choose(3) {
            let x = g.leaf(0);
            g.tree.get_mut(id).unwrap().append(x);
            let x = g.leaf(3);
            g.tree.get_mut(id).unwrap().append(x);
        }
    }
    let x = g.leaf(0);
    g.tree.root_mut().append(x);
    image(&g.tree, 1)
}
/// Every attribute name that HTML, SVG or MathML knows, with an empty or any value, alone or beside others.
#[no_mangle]
pub extern "C" fn h_c19_knownattr() {
    let name = known_name();
    let mut g = Gen { tree: Tree::new(SNode::Document), len: choose(3) as usize, names: &NAMES };
    let attr = |n: &str, v: StrTendril| Attribute { name: QualName::new(None, Namespace::from(""), LocalName::from(n)), value: v };
    let others = [0, 1, 2, 3, 4, 7][choose(6) as usize];
    let mut attrs = vec![attr(name, g.text())];
    for o in &["A0", "A1", "A2", "A3", "A4", "A5", "A6"][..others] {
        attrs.push(attr(o, "w".into()));
    }
    let x = g.element(NAMES[[0, 1, 3][choose(3) as usize]], attrs);
    g.tree.root_mut().append(x);
    image(&g.tree, 1)
}
/// More children than sixteen bits count.
#[no_mangle]
pub extern "C" fn h_c19_huge() {
    let mut g = Gen { tree: Tree::new(SNode::Document), len: 1, names: &NAMES };
    let text = g.text();
    let n = 65536 + choose(2) as usize;
    let x = g.leaf(3);
    let id = g.tree.root_mut().append(x).id();
    for i in 0..n {
        let x = if i % 2 == 0 { SNode::Text(Text { text: text.clone() }) } else { g.element(NAMES[1], vec![]) };
        g.tree.get_mut(id).unwrap().append(x);
    }
    let mut want = vec![];
    expected(g.tree.root(), &mut want);
    let got = convert(g.tree.root());
    list(got.iter(), &want, 1000);
    reach(1);
}
harnesses!(
    h_c20_names, h_c20_attrs,
    h_c19_huge,
    h_c19_known, h_c19_knownattr,
    h_c20_stack,
    h_c19_big, h_c20_big,
    h_c19_forest3, h_c19_forest4, h_c19_forest5, h_c19_shapes7, h_c19_names, h_c19_attrs, h_c19_skip, h_c19_hole1,
    h_c19_hole2, h_c19_hole3, h_c19_hole4, h_c20_any2, h_c20_any3, h_c20_any4, h_c20_any5, h_c20_agree1, h_c20_nested, h_c20_agree2, h_c20_agree3, h_c20_agree3n, h_c20_deep, h_c20_deep3, h_c20_refs, h_c20_refs2,
    h_c20_long, h_c20_bare1, h_c20_bare2, h_c20_bare3,
);
