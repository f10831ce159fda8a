//! C01-C09: traversal, queries, filters, patterns and node accessors.
mod local;
mod rt;
use local::known_name;
use rt::*;
use soupy::filter::{And, Attr, Filter, Or, Tag};
use soupy::parser::{HTMLNode, Parser, XMLElement, XMLNode};
use soupy::prelude::*;
use std::borrow::Cow;
use std::collections::BTreeMap;

// ---------- a node type with every part under control ----------
#[derive(Clone, Debug, PartialEq)]
struct Nd {
    id: u8,
    name: Option<String>,
    text: Option<String>,
    attrs: Option<BTreeMap<String, String>>,
    kids: Vec<Nd>,
}
impl Node for Nd {
    type Text = String;
    fn name(&self) -> Option<&String> {
        self.name.as_ref()
    }
    fn text(&self) -> Option<&String> {
        self.text.as_ref()
    }
    fn attrs(&self) -> Option<&BTreeMap<String, String>> {
        self.attrs.as_ref()
    }
    fn children(&self) -> &[Nd] {
        &self.kids
    }
}
/// Hands a prepared forest to `Soup::new`.
struct Given<N>(std::marker::PhantomData<N>);
impl<N: Node> Parser for Given<N> {
    type Input = Vec<N>;
    type Node = N;
    type Error = ();
    fn parse(i: Vec<N>) -> Result<Vec<N>, ()> {
        Ok(i)
    }
}
fn soup<N: Node>(v: Vec<N>) -> Soup<N> {
    match Soup::new::<Given<N>>(v) {
        Ok(s) => s,
        Err(()) => panic!(),
    }
}

/// Depths of a symbolic forest of exactly `n` nodes, in document order.
fn depths(n: usize) -> Vec<u8> {
    let mut d: Vec<u8> = vec![];
    for i in 0..n {
        d.push(if i == 0 { 0 } else { choose(d[i - 1] + 2) });
    }
    d
}
fn size(d: &[u8], i: usize) -> usize {
    let mut j = i + 1;
    while j < d.len() && d[j] > d[i] {
        j += 1;
    }
    j - i
}
/// Build nodes i.. at depth `k` with `mk(index, children)`.
fn forest<N>(d: &[u8], i: &mut usize, k: u8, mk: &mut dyn FnMut(usize, Vec<N>) -> N) -> Vec<N> {
    let mut v = vec![];
    while *i < d.len() && d[*i] == k {
        let me = *i;
        *i += 1;
        let c = forest(d, i, k + 1, mk);
        v.push(mk(me, c));
    }
    v
}
fn build<N>(d: &[u8], mut mk: impl FnMut(usize, Vec<N>) -> N) -> Vec<N> {
    let mut i = 0;
    forest(d, &mut i, 0, &mut mk)
}
fn idname(i: usize) -> String {
    let mut s = String::new();
    s.push((b'0' + i as u8) as char);
    s
}
fn plain(d: &[u8]) -> Vec<Nd> {
    build(d, |i, kids| Nd { id: i as u8, name: Some(idname(i)), text: None, attrs: None, kids })
}
/// A pattern accepting the one-character strings '0'+i with bit i of the mask set.
#[derive(Clone, Copy)]
struct Mask(u8);
impl Mask {
    fn has(&self, i: usize) -> bool {
        (self.0 >> i) & 1 == 1
    }
}
impl<S: AsRef<str>> Pattern<S> for Mask {
    fn matches(&self, s: &S) -> bool {
        self.has((s.as_ref().as_bytes()[0] - b'0') as usize)
    }
}

/// `it` yields exactly the ids `want`.
fn seq<'a>(mut it: impl Iterator<Item = u8>, want: &[u8], id: u64) {
    for w in want {
        match it.next() {
            Some(g) => check(g == *w, id),
            None => check(false, id + 1),
        }
    }
    check(it.next().is_none(), id + 2);
}

// ---------- C01 ----------
fn c01_forest(n: usize) {
    let d = depths(n);
    show("depths", &d);
    let s = soup(plain(&d));
    let all: Vec<u8> = (0..n as u8).collect();
    obs(&d);
    seq(s.iter().map(|q| q.id), &all, 10);
    seq((&s).into_iter().map(|q| q.id), &all, 20);
    let mut got = 0u64;
    for q in &s {
        let i = q.id as usize;
        check(i < n, 30);
        let want: Vec<u8> = (i as u8..(i + size(&d, i)) as u8).collect();
        seq(q.descendants().map(|x| x.id), &want, 31);
        got += 1;
        obs1(got);
    }
    reach(1);
}
#[no_mangle]
pub extern "C" fn h_c01_forest6() {
    let n = choose(7) as usize;
    c01_forest(n)
}
#[no_mangle]
pub extern "C" fn h_c01_forest8() {
    c01_forest(8)
}
#[no_mangle]
pub extern "C" fn h_c01_forest10() {
    c01_forest(10)
}
#[no_mangle]
pub extern "C" fn h_c01_forest7() {
    c01_forest(7)
}
/// Long chains, wide levels and combs.
#[no_mangle]
pub extern "C" fn h_c01_large() {
    let deep = choose(41);
    let kind = choose(4);
    let mut d: Vec<u8> = vec![];
    for i in 0..deep {
        d.push(match kind {
            0 => i,                                         // chain
            1 => (i > 0) as u8,                             // one node with many children
            2 => 0,                                         // many top-level nodes
            _ => i / 2 + (i & 1),                           // comb: each level has a leaf and goes deeper
        });
    }
    show("depths", &d);
    let s = soup(plain(&d));
    let all: Vec<u8> = (0..d.len() as u8).collect();
    seq(s.iter().map(|q| q.id), &all, 40);
    for q in &s {
        let i = q.id as usize;
        let want: Vec<u8> = (i as u8..(i + size(&d, i)) as u8).collect();
        seq(q.descendants().map(|x| x.id), &want, 50);
    }
    reach(1);
}
/// However an iterator is consumed, it gives the ids `want` (ids `id`..`id + 12`).
fn consume<T, I: Iterator<Item = T>>(mk: impl Fn() -> I, of: impl Fn(T) -> u8, want: &[u8], id: u64) {
    let n = want.len();
    for k in 0..n + 2 {
        let mut it = mk();
        check(it.nth(k).map(&of) == want.get(k).copied(), id);
        seq(it.map(&of), want.get(k + 1..).unwrap_or(&[]), id + 1);
        let mut it = mk();
        for i in 0..k {
            let (lo, hi) = it.size_hint();
            check(lo <= n.saturating_sub(i), id + 4);
            check(hi.map_or(true, |h| h >= n.saturating_sub(i)), id + 5);
            check(it.next().map(&of) == want.get(i).copied(), id + 6);
        }
        let left = n.saturating_sub(k);
        match k % 4 {
            0 => check(it.count() == left, id + 7),
            1 => check(it.last().map(&of) == if left > 0 { want.last().copied() } else { None }, id + 8),
            2 => {
                let mut at = n - left;
                it.for_each(|x| {
                    check(want.get(at) == Some(&of(x)), id + 9);
                    at += 1;
                });
                check(at == n, id + 9);
            }
            _ => {
                let mut at = n - left;
                let end = it.try_fold((), |(), x| {
                    check(want.get(at) == Some(&of(x)), id + 10);
                    at += 1;
                    if at == n {
                        None
                    } else {
                        Some(())
                    }
                });
                check(end.is_some() == (left == 0), id + 10);
                // at the end it stays at the end
                check(it.next().is_none(), id + 11);
                check(it.next().is_none(), id + 11);
            }
        }
    }
    let mut got = vec![];
    got.extend(mk().map(&of));
    eqv(&got, want, id + 12);
    seq(mk().skip(1).step_by(2).map(&of), &want.iter().copied().skip(1).step_by(2).collect::<Vec<u8>>(), id + 1);
    check(mk().min_by_key(|_| 0).map(&of) == want.first().copied(), id + 9);
    check(mk().find(|_| true).map(&of) == want.first().copied(), id + 10);
}
/// Other ways to consume the iterators than one `next` after another.
fn c01_consume(n: usize) {
    let d = depths(n);
    show("depths", &d);
    let s = soup(plain(&d));
    let all: Vec<u8> = (0..n as u8).collect();
    consume(|| s.iter(), |q| q.id, &all, 800);
    for q in &s {
        let i = q.id as usize;
        let want: Vec<u8> = (i as u8..(i + size(&d, i)) as u8).collect();
        consume(|| q.descendants(), |x| x.id, &want, 820);
    }
    reach(1);
}
#[no_mangle]
pub extern "C" fn h_c01_consume() {
    c01_consume(choose(5) as usize)
}
#[no_mangle]
pub extern "C" fn h_c01_consume5() {
    c01_consume(5)
}
#[no_mangle]
pub extern "C" fn h_c01_consume6() {
    c01_consume(6)
}
/// A node that only has a number, for documents of unusual sizes.
#[derive(Clone)]
struct Big {
    id: u32,
    name: Option<String>,
    text: Option<String>,
    kids: Vec<Big>,
}
impl Node for Big {
    type Text = String;
    fn name(&self) -> Option<&String> {
        self.name.as_ref()
    }
    fn text(&self) -> Option<&String> {
        self.text.as_ref()
    }
    fn attrs(&self) -> Option<&BTreeMap<String, String>> {
        None
    }
    fn children(&self) -> &[Big] {
        &self.kids
    }
}
const SIZES: [u32; 14] = [41, 63, 64, 65, 100, 127, 129, 255, 256, 257, 258, 300, 512, 1025];
/// A big forest of a chosen shape and size, its number of nodes, and how many of them are at the top.
fn big(kind: u8, n: u32) -> (Vec<Big>, u32, u32) {
    let leaf = |id| Big { id, name: None, text: None, kids: vec![] };
    match kind {
        0 => {
            let mut b = leaf(n - 1);
            for id in (0..n - 1).rev() {
                b = Big { id, name: None, text: None, kids: vec![b] };
            }
            (vec![b], n, 1)
        }
        1 => (vec![Big { id: 0, name: None, text: None, kids: (1..n).map(leaf).collect() }], n, 1),
        2 => ((0..n).map(leaf).collect(), n, n),
        3 => {
            // every level has a leaf on both sides of the way down
            let m = n / 3;
            let mut b = leaf(m);
            for i in (0..m).rev() {
                b = Big { id: 2 * i, name: None, text: None, kids: vec![leaf(2 * i + 1), b, leaf(0)] };
            }
            let mut k = 0;
            number(&mut b, &mut k);
            (vec![b], k, 1)
        }
        _ => {
            // every child of many has children
            let mut b = leaf(0);
            for _ in 0..n / 4 {
                b.kids.push(Big { id: 0, name: None, text: None, kids: vec![leaf(0), leaf(0), leaf(0)] });
            }
            let mut k = 0;
            number(&mut b, &mut k);
            (vec![b], k, 1)
        }
    }
}
fn number(b: &mut Big, k: &mut u32) {
    b.id = *k;
    *k += 1;
    for c in &mut b.kids {
        number(c, k);
    }
}
#[no_mangle]
pub extern "C" fn h_c01_big() {
    let n = SIZES[choose(SIZES.len() as u8) as usize];
    let kind = choose(5);
    let (v, n, _) = big(kind, n);
    show("kind/nodes", &(kind, n));
    let s = soup(v);
    let mut k = 0;
    for q in s.iter() {
        check(q.id == k, 840);
        k += 1;
    }
    check(k == n, 841);
    for q in s.strict().all() {
        let mut k = q.id;
        for x in q.descendants() {
            check(x.id == k, 842);
            k += 1;
        }
    }
    check(s.iter().nth(n as usize - 1).map(|q| q.id) == Some(n - 1), 843);
    reach(1);
}
/// More children than sixteen bits count.
#[no_mangle]
pub extern "C" fn h_c01_huge() {
    let (v, n, _) = big(1 + choose(2), 65537 + choose(2) as u32);
    let s = soup(v);
    let mut k = 0;
    for q in s.iter() {
        check(q.id == k, 840);
        k += 1;
    }
    check(k == n, 841);
    reach(1);
}
/// Queries, modes, sub-queries and text of big documents.
fn c_big() -> (Soup<Big>, u8, u32, u32) {
    let n = SIZES[choose(SIZES.len() as u8) as usize];
    let kind = choose(5);
    let (v, n, top) = big(kind, n);
    show("kind/nodes", &(kind, n));
    (soup(v), kind, n, top)
}
fn c_parts() -> (Vec<Big>, u32, u32) {
    let n = SIZES[choose(SIZES.len() as u8) as usize];
    big(choose(5), n)
}
fn label(b: &mut Big, m: u32, r: u32) {
    if b.id % m == r {
        b.name = Some("a".to_string());
    }
    for c in &mut b.kids {
        label(c, m, r);
    }
}
#[no_mangle]
pub extern "C" fn h_c02_big() {
    let (mut v, n, _) = c_parts();
    let m = 1 + 2 * choose(3) as u32;
    let r = choose(3) as u32;
    assume(r < m);
    for b in &mut v {
        label(b, m, r);
    }
    let s = soup(v);
    let mut k = r;
    for q in s.tag("a").all() {
        check(q.id == k, 850);
        k += m;
    }
    check(k >= n, 851);
    check(k < n + m, 851);
    check(s.tag(true).all().count() as u32 == (n - r).div_ceil(m), 852);
    check(s.iter().count() == n as usize, 853);
    reach(1);
}
#[no_mangle]
pub extern "C" fn h_c03_big() {
    let (s, _, n, top) = c_big();
    let mut k = 0;
    for q in s.strict().all() {
        check((top == 1) | (q.id == k), 855);
        k += 1;
    }
    check(k == top, 856);
    check(s.strict().recursive().all().count() == n as usize, 857);
    reach(1);
}
#[no_mangle]
pub extern "C" fn h_c07_big() {
    let (s, kind, n, _) = c_big();
    let at = [0, 1, 2, n / 2, n - 2, n - 1][choose(6) as usize];
    let q = match s.iter().nth(at as usize) {
        Some(q) => q,
        None => {
            check(false, 860);
            return;
        }
    };
    check(q.id == at, 861);
    let sub = q.query();
    let mut k = at + 1;
    for x in sub.iter() {
        check(x.id == k, 862);
        k += 1;
    }
    let size = q.descendants().count() as u32;
    check(k == at + size, 863);
    let mut want = q.children().iter();
    for x in sub.strict().all() {
        check(want.next().map(|c| c.id) == Some(x.id), 864);
    }
    check(want.next().is_none(), 864);
    if kind == 0 {
        check(size == n - at, 865);
    }
    reach(1);
}
fn texts(b: &mut Big, t: &str, want: &mut Vec<u8>) {
    if b.kids.is_empty() {
        b.text = Some(t.to_string());
        if !want.is_empty() {
            want.push(b'\n');
        }
        want.extend_from_slice(t.as_bytes());
    }
    for c in &mut b.kids {
        texts(c, t, want);
    }
}
fn ascii(n: usize) -> Vec<u8> {
    let mut d = vec![];
    for _ in 0..n {
        let b = byte();
        assume(b < 0x80);
        d.push(b);
    }
    d
}
/// Text of many, and of long, text nodes.
#[no_mangle]
pub extern "C" fn h_c08_big() {
    let n = SIZES[choose(SIZES.len() as u8) as usize];
    let kind = choose(6);
    let t = ascii(2);
    assume(t[0] != 0);
    if kind == 5 {
        // one long text
        let mut l = vec![b'x'; n as usize];
        l.extend_from_slice(&t);
        l.extend_from_slice(&[b'y'; 20]);
        let s = soup(vec![Big { id: 0, name: None, text: Some(st(&l).to_string()), kids: vec![] }]);
        for q in &s {
            check(same(q.all_text().as_bytes(), &l), 870);
        }
        reach(1);
        return;
    }
    let (mut v, _, _) = big(kind, n);
    let root = v.len() == 1;
    let mut want = vec![];
    for b in &mut v {
        texts(b, st(&t), &mut want);
    }
    if root {
        check(same(v[0].all_text().as_bytes(), &want), 871);
    } else {
        let b = Big { id: 0, name: None, text: None, kids: v };
        check(same(b.all_text().as_bytes(), &want), 872);
    }
    reach(1);
}
fn html_name(n: &HTMLNode<&'static str>) -> u8 {
    match n {
        HTMLNode::Element { name, .. } | HTMLNode::RawElement { name, .. } | HTMLNode::Void { name, .. } => {
            name.as_bytes()[0] - b'0'
        }
        HTMLNode::Text(t) | HTMLNode::Comment(t) | HTMLNode::Doctype(t) => t.as_bytes()[0] - b'0',
    }
}
const IDS: [&str; 8] = ["0", "1", "2", "3", "4", "5", "6", "7"];
fn html_forest(d: &[u8]) -> Vec<HTMLNode<&'static str>> {
    build(d, |i, children| {
        let name = IDS[i];
        if !children.is_empty() {
            return HTMLNode::Element { name, attrs: BTreeMap::new(), children };
        }
        match choose(6) {
            0 => HTMLNode::Element { name, attrs: BTreeMap::new(), children },
            1 => HTMLNode::RawElement { name, attrs: BTreeMap::new(), content: "x" },
            2 => HTMLNode::Void { name, attrs: BTreeMap::new() },
            3 => HTMLNode::Text(name),
            4 => HTMLNode::Comment(name),
            _ => HTMLNode::Doctype(name),
        }
    })
}
fn xml_name(n: &XMLNode) -> u8 {
    match n {
        XMLNode::Element(e) => e.name.as_bytes()[0] - b'0',
        XMLNode::Comment(t) | XMLNode::CData(t) | XMLNode::Text(t) | XMLNode::ProcessingInstruction(t, _) => {
            t.as_bytes()[0] - b'0'
        }
    }
}
fn xml_forest(d: &[u8]) -> Vec<XMLNode> {
    build(d, |i, children| {
        let name = idname(i);
        if !children.is_empty() {
            return XMLNode::Element(XMLElement { name, children, ..Default::default() });
        }
        match choose(5) {
            0 => XMLNode::Element(XMLElement { name, children, ..Default::default() }),
            1 => XMLNode::Comment(name),
            2 => XMLNode::CData(name),
            3 => XMLNode::Text(name),
            _ => XMLNode::ProcessingInstruction(name, None),
        }
    })
}
fn c01_real<N: Node>(d: &[u8], v: Vec<N>, id: fn(&N) -> u8) {
    let s = soup(v);
    let all: Vec<u8> = (0..d.len() as u8).collect();
    seq(s.iter().map(|q| id(&*q)), &all, 60);
    for q in &s {
        let i = id(&*q) as usize;
        let want: Vec<u8> = (i as u8..(i + size(d, i)) as u8).collect();
        seq(q.descendants().map(id), &want, 70);
        // direct iteration of the children
        let mut kids: Vec<u8> = vec![];
        for (j, e) in d.iter().enumerate().skip(i + 1).take(size(d, i) - 1) {
            if *e == d[i] + 1 {
                kids.push(j as u8);
            }
        }
        seq(q.children().iter().map(id), &kids, 80);
    }
    reach(1);
}
#[no_mangle]
pub extern "C" fn h_c01_html() {
    let d = depths(choose(6) as usize);
    let v = html_forest(&d);
    show("nodes", &v);
    c01_real(&d, v, html_name)
}
#[no_mangle]
pub extern "C" fn h_c01_xml() {
    let d = depths(choose(6) as usize);
    let v = xml_forest(&d);
    show("nodes", &v);
    c01_real(&d, v, xml_name)
}

// ---------- C02 ----------
fn ids<'x, Q>(q: Q) -> Vec<u8>
where
    Q: Queryable<'x, Node = Nd> + IntoIterator<Item = soupy::query::QueryItem<'x, Nd>>,
{
    let mut v = vec![];
    for x in q.into_iter() {
        v.push(x.id);
    }
    v
}
fn eqv(a: &[u8], b: &[u8], id: u64) {
    check(a.len() == b.len(), id);
    if a.len() == b.len() {
        for i in 0..a.len() {
            check(a[i] == b[i], id + 1);
        }
    }
}
/// Queries consumed in other ways than one `next` after another.
fn c02_consume(n: usize) {
    let d = depths(n);
    let m = Mask(choose(1 << n));
    show("depths", &d);
    show("mask", &m.0);
    let s = soup(plain(&d));
    let want: Vec<u8> = (0..n).filter(|i| m.has(*i)).map(|i| i as u8).collect();
    consume(|| s.tag(m).all(), |q| q.id, &want, 880);
    let top: Vec<u8> = want.iter().copied().filter(|i| d[*i as usize] == 0).collect();
    consume(|| s.strict().tag(m).all(), |q| q.id, &top, 900);
    reach(1);
}
#[no_mangle]
pub extern "C" fn h_c02_consume() {
    c02_consume(choose(4) as usize)
}
#[no_mangle]
pub extern "C" fn h_c02_consume4() {
    c02_consume(4)
}
#[no_mangle]
pub extern "C" fn h_c02_consume5() {
    c02_consume(5)
}
fn c02(n: usize) {
    let d = depths(n);
    let named = byte(); // bit i: node i has a name
    let m = Mask(byte());
    show("depths", &d);
    show("named/mask", &(named, m.0));
    let s = soup(build(&d, |i, kids| Nd {
        id: i as u8,
        name: if (named >> i) & 1 == 1 { Some(idname(i)) } else { None },
        text: None,
        attrs: None,
        kids,
    }));
    let mut want = vec![];
    for i in 0..n {
        if ((named >> i) & 1 == 1) && m.has(i) {
            want.push(i as u8);
        }
    }
    obs(&want);
    eqv(&ids(s.tag(m)), &want, 100);
    let f = s.tag(m).first().map(|q| q.id);
    check(f == want.first().copied(), 102);
    let mut got = vec![];
    for x in s.tag(m).all() {
        got.push(x.id);
    }
    eqv(&got, &want, 103);
    if !want.is_empty() {
        reach(2);
    }
    reach(1);
}
#[no_mangle]
pub extern "C" fn h_c02_4() {
    let n = choose(5) as usize;
    c02(n)
}
#[no_mangle]
pub extern "C" fn h_c02_5() {
    c02(5)
}
#[no_mangle]
pub extern "C" fn h_c02_6() {
    c02(6)
}
#[no_mangle]
pub extern "C" fn h_c02_7() {
    c02(7)
}
/// Attribute conditions as the selecting condition, and names by symbolic literal.
#[no_mangle]
pub extern "C" fn h_c02_lit() {
    let n = choose(5) as usize;
    let d = depths(n);
    let names = bytes::<4>();
    let kind = choose(3);
    for i in 0..4 {
        assume((names[i] == b'a') | (names[i] == b'b'));
    }
    show("depths", &d);
    let s = soup(build(&d, |i, kids| {
        let nm = String::from(st(&names[i..i + 1]));
        Nd {
            id: i as u8,
            name: if kind == 0 { Some(nm.clone()) } else { None },
            text: None,
            attrs: match kind {
                0 => None,
                1 => Some([("k".to_string(), nm)].into()),
                _ => Some([(nm, "v".to_string())].into()),
            },
            kids,
        }
    }));
    let mut want = vec![];
    for i in 0..n {
        if names[i] == b'a' {
            want.push(i as u8);
        }
    }
    obs(&want);
    match kind {
        0 => eqv(&ids(s.tag("a")), &want, 110),
        1 => {
            eqv(&ids(s.attr("k", "a")), &want, 112);
            eqv(&ids(s.attr_value("a")), &want, 114);
        }
        _ => {
            eqv(&ids(s.attr_name("a")), &want, 116);
            eqv(&ids(s.attr("a", "v")), &want, 118);
        }
    }
    reach(1);
}
/// Unusual sizes: long chains and wide levels, any single node (or none) matching.
#[no_mangle]
pub extern "C" fn h_c02_large() {
    let n = choose(41);
    let kind = choose(3);
    let hit = choose(42);
    let mut d: Vec<u8> = vec![];
    for i in 0..n {
        d.push(match kind {
            0 => i,
            1 => (i > 0) as u8,
            _ => 0,
        });
    }
    let s = soup(plain(&d));
    let mut want = vec![];
    if hit < n {
        want.push(hit);
    }
    let name = idname(hit as usize);
    eqv(&ids(s.tag(name.as_str())), &want, 120);
    eqv(&ids(s.tag(true)), &(0..n).collect::<Vec<u8>>(), 122);
    reach(1);
}

// ---------- C03 ----------
/// Apply one of: nothing, recursive, strict, strict then recursive, recursive then strict.
macro_rules! mode {
    ($q:expr, $m:expr, $rec:ident, $f:expr) => {{
        let q = $q;
        match $m {
            0 => $f(q),
            1 => {
                $rec = true;
                $f(q.recursive())
            }
            2 => {
                $rec = false;
                $f(q.strict())
            }
            3 => {
                $rec = true;
                $f(q.strict().recursive())
            }
            _ => {
                $rec = false;
                $f(q.recursive().strict())
            }
        }
    }};
}
fn qid<'x, F>(q: soupy::query::Query<'x, Nd, F>) -> soupy::query::Query<'x, Nd, F> {
    q
}
fn c03(n: usize) {
    let d = depths(n);
    let (m1, m2) = (Mask(byte()), Mask(byte()));
    let s = soup(build(&d, |i, kids| Nd {
        id: i as u8,
        name: Some(idname(i)),
        text: None,
        attrs: Some([(idname(i), "v".to_string())].into()),
        kids,
    }));
    let (a, b, c) = (choose(5), choose(5), choose(5));
    show("depths/modes/masks", &(&d, a, b, c, m1.0, m2.0));
    let mut rec = true;
    // the mode is chosen before, between and after the conditions
    let mut got: Vec<u8> = vec![];
    let q = match a {
        0 => s.tag(m1),
        1 => (&s).recursive().tag(m1),
        2 => {
            rec = false;
            (&s).strict().tag(m1)
        }
        3 => (&s).strict().recursive().tag(m1),
        _ => {
            rec = false;
            (&s).recursive().strict().tag(m1)
        }
    };
    let q = mode!(q, b, rec, qid);
    let q = q.attr_name(m2);
    let q = mode!(q, c, rec, qid);
    for x in q.all() {
        got.push(x.id);
    }
    let mut want = vec![];
    for i in 0..n {
        if (rec || d[i] == 0) && m1.has(i) && m2.has(i) {
            want.push(i as u8);
        }
    }
    obs(&got);
    eqv(&got, &want, 130);
    if rec {
        reach(2)
    } else {
        reach(3)
    }
}
#[no_mangle]
pub extern "C" fn h_c03_3() {
    let n = choose(4) as usize;
    c03(n)
}
#[no_mangle]
pub extern "C" fn h_c03_4() {
    c03(4)
}
#[no_mangle]
pub extern "C" fn h_c03_5() {
    c03(5)
}
/// The bare modes, and copies of a query switched independently of each other.
#[no_mangle]
pub extern "C" fn h_c03_bare() {
    let n = choose(6) as usize;
    let d = depths(n);
    show("depths", &d);
    let s = soup(plain(&d));
    let all: Vec<u8> = (0..n as u8).collect();
    let mut top = vec![];
    for i in 0..n {
        if d[i] == 0 {
            top.push(i as u8);
        }
    }
    eqv(&ids((&s).recursive()), &all, 140);
    eqv(&ids((&s).strict()), &top, 142);
    eqv(&ids(s.tag(true)), &all, 144);
    eqv(&ids(s.tag(true).strict()), &top, 146);
    let q = (&s).strict();
    let r = q.recursive();
    eqv(&ids(q), &top, 148);
    eqv(&ids(r), &all, 150);
    eqv(&ids(r.strict().tag(true)), &top, 152);
    eqv(&ids(q.tag(true).tag(true)), &top, 154);
    eqv(&ids(r.tag(true).tag(true)), &all, 156);
    let f = (&s).strict().first().map(|x| x.id);
    check(f == top.first().copied(), 158);
    reach(1);
}

/// Copies made at any step (with and without `Copy` conditions), and every condition and way to run on a strict query.
fn c03_clone(n: usize) {
    let d = depths(n);
    let (m1, m2) = (Mask(byte()), Mask(byte()));
    show("depths/masks", &(&d, m1.0, m2.0));
    let s = soup(build(&d, |i, kids| Nd {
        id: i as u8,
        name: Some(idname(i)),
        text: None,
        attrs: Some([("class".to_string(), idname(i)), (idname(i), "v".to_string())].into()),
        kids,
    }));
    let strict = choose(2) == 1;
    let base = if strict { (&s).strict() } else { (&s).recursive() };
    let mut all = vec![];
    let (mut one, mut both) = (vec![], vec![]);
    for i in 0..n {
        if strict && d[i] > 0 {
            continue;
        }
        all.push(i as u8);
        if m1.has(i) {
            one.push(i as u8);
            if m2.has(i) {
                both.push(i as u8);
            }
        }
    }
    let id = |x: Option<soupy::query::QueryItem<Nd>>| x.map(|x| x.id);
    eqv(&ids(Clone::clone(&base)), &all, 700);
    eqv(&ids(Clone::clone(&base).tag(m1)), &one, 702);
    eqv(&ids(Clone::clone(&base).class(m1).tag(m2)), &both, 704);
    eqv(&ids(Clone::clone(&Clone::clone(&base))), &all, 706);
    eqv(&ids(Clone::clone(&base.strict().recursive()).tag(m1).strict()), &one.iter().copied().filter(|i| d[*i as usize] == 0).collect::<Vec<u8>>(), 708);
    // conditions that are not `Copy`
    let k = choose(n as u8 + 1);
    let hit = all.contains(&k);
    let want: Vec<u8> = if hit { vec![k] } else { vec![] };
    let key = || idname(k as usize);
    eqv(&ids(Clone::clone(&base).tag(key())), &want, 710);
    eqv(&ids(base.tag(key()).class(key()).attr_name(key())), &want, 712);
    eqv(&ids(base.tag(key()).strict()), if hit && d[k as usize] == 0 { &want } else { &[] }, 714);
    eqv(&ids(base.attr(key(), "v").attr("class", key())), &want, 716);
    check(id(base.attr_value(key()).tag(key()).first()) == want.first().copied(), 718);
    // every condition on the query itself
    eqv(&ids(base.class(m1)), &one, 720);
    eqv(&ids(base.attr("class", m1)), &one, 722);
    eqv(&ids(base.attr_name(m1v(m1))), &one, 724);
    eqv(&ids(base.attr_value(m1v(m1))), &one, 726);
    check(id(base.attr_value(m1v(m1)).first()) == one.first().copied(), 728);
    check(id(base.class(m1).tag(m2).first()) == both.first().copied(), 729);
    check(id(base.tag(m1).class(m2).all().next()) == both.first().copied(), 730);
    // the searched document copied
    let t = s.clone();
    let base = if strict { (&t).strict() } else { (&t).recursive() };
    eqv(&ids(base.tag(m1)), &one, 732);
    let v: Vec<_> = base.tag(m1).all().collect();
    let w = v.clone();
    eqv(&w.iter().map(|x| x.id).collect::<Vec<u8>>(), &one, 734);
    reach(1);
}
/// Like the mask, but accepts no other string.
fn m1v(m: Mask) -> Only {
    Only(m)
}
#[derive(Clone, Copy)]
struct Only(Mask);
impl<S: AsRef<str>> Pattern<S> for Only {
    fn matches(&self, s: &S) -> bool {
        let b = s.as_ref().as_bytes();
        b.len() == 1 && (b'0'..b'8').contains(&b[0]) && self.0.has((b[0] - b'0') as usize)
    }
}
#[no_mangle]
pub extern "C" fn h_c03_clone() {
    c03_clone(choose(4) as usize)
}
#[no_mangle]
pub extern "C" fn h_c03_clone4() {
    c03_clone(4)
}
/// Queries on the real node types, in both modes, sub-queries included.
fn c02_real<N: Node + Clone + PartialEq>(d: &[u8], v: Vec<N>, id: fn(&N) -> u8)
where
    N::Text: AsRef<str>,
{
    let m = Mask(byte());
    let s = soup(v);
    let mut named = vec![];
    for q in &s {
        named.push(q.name().is_some());
    }
    check(named.len() == d.len(), 736);
    let (mut want, mut top) = (vec![], vec![]);
    for i in 0..d.len() {
        if named[i] && m.has(i) {
            want.push(i as u8);
            if d[i] == 0 {
                top.push(i as u8);
            }
        }
    }
    seq(s.tag(m).all().map(|q| id(&*q)), &want, 737);
    seq(s.tag(m).strict().all().map(|q| id(&*q)), &top, 740);
    seq(s.strict().tag(m).into_iter().map(|q| id(&*q)), &top, 743);
    check(s.tag(m).first().map(|q| id(&*q)) == want.first().copied(), 746);
    reach(1);
}
#[no_mangle]
pub extern "C" fn h_c02_real() {
    let d = depths(choose(5) as usize);
    if choose(2) == 1 {
        let v = xml_forest(&d);
        show("nodes", &v);
        c02_real(&d, v, xml_name)
    } else {
        let v = html_forest(&d);
        show("nodes", &v);
        c02_real(&d, v, html_name)
    }
}

// ---------- C04 ----------
/// Filters without any data.
#[derive(Clone, Copy)]
struct Yes;
#[derive(Clone, Copy)]
struct No;
#[derive(Clone, Copy)]
struct Even;
impl Filter<Nd> for Yes {
    fn matches(&self, _: &Nd) -> bool {
        true
    }
}
impl Filter<Nd> for No {
    fn matches(&self, _: &Nd) -> bool {
        false
    }
}
impl Filter<Nd> for Even {
    fn matches(&self, n: &Nd) -> bool {
        n.id & 1 == 0
    }
}
/// Every two of `$f` and `$g`, nested.
macro_rules! pairs {
    ($n:expr, $(($f:expr, $w:expr)),*; $g:tt) => { $( pairs!(@ $n, $f, $w; $g); )* };
    (@ $n:expr, $f:expr, $w:expr; [$(($g:expr, $v:expr)),*]) => { $(
        check(And($f, $g).matches($n) == ($w & $v), 750);
        check(Or($f, $g).matches($n) == ($w | $v), 751);
        check(And(And($f, $g), $f).matches($n) == ($w & $v), 752);
        check(And($f, And((), $g)).matches($n) == ($w & $v), 753);
        check(Or(Or($f, $g), $g).matches($n) == ($w | $v), 754);
        check(And(Or($f, $g), $g).matches($n) == $v, 755);
        check(Or(And($f, $g), $g).matches($n) == $v, 756);
        check(Or(And($g, $f), $g).matches($n) == $v, 757);
    )* };
}
#[no_mangle]
pub extern "C" fn h_c04_zero() {
    let a = Says(byte());
    let id = choose(8);
    let n = Nd { id, name: Some("p".into()), text: None, attrs: None, kids: vec![] };
    show("a,id", &(a.0, id));
    let x = (a.0 >> id) & 1 == 1;
    let e = id & 1 == 0;
    check(Filter::<Nd>::matches(&(), &n), 758);
    pairs!(&n, ((), true), (Yes, true), (No, false), (Even, e), (a, x), (Tag { tag: "p" }, true), (Attr { name: "p", value: true }, false);
        [((), true), (Yes, true), (No, false), (Even, e), (a, x), (Tag { tag: "p" }, true), (Attr { name: "p", value: true }, false)]);
    reach(1);
}
/// A filter with a fixed, symbolic answer for every node.
#[derive(Clone, Copy)]
struct Says(u8);
impl Filter<Nd> for Says {
    fn matches(&self, n: &Nd) -> bool {
        (self.0 >> n.id) & 1 == 1
    }
}
#[no_mangle]
pub extern "C" fn h_c04_bool() {
    let (a, b, c) = (Says(byte()), Says(byte()), Says(byte()));
    let id = choose(8);
    show("a,b,c,id", &(a.0, b.0, c.0, id));
    let n = Nd { id, name: None, text: None, attrs: None, kids: vec![] };
    let h = |s: Says| (s.0 >> id) & 1 == 1;
    let (x, y, z) = (h(a), h(b), h(c));
    check(And(a, b).matches(&n) == (x & y), 160);
    check(Or(a, b).matches(&n) == (x | y), 161);
    check(And(And(a, b), c).matches(&n) == (x & y & z), 162);
    check(And(a, And(b, c)).matches(&n) == (x & y & z), 163);
    check(Or(Or(a, b), c).matches(&n) == (x | y | z), 164);
    check(Or(a, Or(b, c)).matches(&n) == (x | y | z), 165);
    check(And(Or(a, b), c).matches(&n) == ((x | y) & z), 166);
    check(Or(And(a, b), c).matches(&n) == ((x & y) | z), 167);
    check(And(a, Or(b, c)).matches(&n) == (x & (y | z)), 168);
    check(Or(a, And(b, c)).matches(&n) == (x | (y & z)), 169);
    check(Filter::<Nd>::matches(&(), &n), 170);
    check(And((), a).matches(&n) == x, 171);
    check(Or((), a).matches(&n), 172);
    check(Or(a, ()).matches(&n), 173);
    check(And(a, ()).matches(&n) == x, 174);
    reach(1);
}
/// Three conditions of different kinds in all orders.
fn c04_order(n: usize) {
    let d = depths(n);
    let (m1, m2, m3) = (Mask(byte()), Mask(byte()), Mask(byte()));
    show("depths/masks", &(&d, m1.0, m2.0, m3.0));
    let s = soup(build(&d, |i, kids| Nd {
        id: i as u8,
        name: Some(idname(i)),
        text: None,
        attrs: Some([("k".to_string(), idname(i))].into()),
        kids,
    }));
    let mut want = vec![];
    for i in 0..n {
        if m1.has(i) && m2.has(i) && m3.has(i) {
            want.push(i as u8);
        }
    }
    let (a, b, c) = (m1, m2, m3);
    let got = match choose(6) {
        0 => ids(s.tag(a).attr("k", b).attr_value(c)),
        1 => ids(s.tag(a).attr_value(c).attr("k", b)),
        2 => ids(s.attr("k", b).tag(a).attr_value(c)),
        3 => ids(s.attr("k", b).attr_value(c).tag(a)),
        4 => ids(s.attr_value(c).tag(a).attr("k", b)),
        _ => ids(s.attr_value(c).attr("k", b).tag(a)),
    };
    obs(&got);
    eqv(&got, &want, 180);
    reach(1);
}
#[no_mangle]
pub extern "C" fn h_c04_order() {
    let n = choose(4) as usize;
    c04_order(n)
}
#[no_mangle]
pub extern "C" fn h_c04_order4() {
    c04_order(4)
}
#[no_mangle]
pub extern "C" fn h_c04_order5() {
    c04_order(5)
}
/// Repeated conditions of the same kind (later ones must not replace earlier ones).
#[no_mangle]
pub extern "C" fn h_c04_repeat() {
    let n = choose(4) as usize;
    let d = depths(n);
    let (m1, m2, m3) = (Mask(byte()), Mask(byte()), Mask(byte()));
    show("depths/masks", &(&d, m1.0, m2.0, m3.0));
    let s = soup(build(&d, |i, kids| Nd {
        id: i as u8,
        name: Some(idname(i)),
        text: None,
        attrs: Some([("class".to_string(), idname(i)), ("x".to_string(), idname(7 - i))].into()),
        kids,
    }));
    let mut want = vec![];
    let mut wantx = vec![];
    for i in 0..n {
        if m1.has(i) && m2.has(i) && m3.has(i) {
            want.push(i as u8);
        }
        if m1.has(i) && m2.has(7 - i) && m3.has(i) {
            wantx.push(i as u8);
        }
    }
    match choose(4) {
        0 => eqv(&ids(s.tag(m1).tag(m2).tag(m3)), &want, 190),
        1 => eqv(&ids(s.class(m1).class(m2).class(m3)), &want, 192),
        2 => eqv(&ids(s.attr("class", m1).attr("x", m2).attr("class", m3)), &wantx, 194),
        _ => eqv(&ids(s.class(m1).attr("x", m2).tag(m3)), &wantx, 196),
    }
    reach(1);
}

// ---------- C05 ----------
/// Accepts strings whose first byte has the symbolic answer for 'a'..'d' (and `e` for the empty string).
#[derive(Clone, Copy)]
struct Pick(u8);
impl Pick {
    fn ok(&self, b: &[u8]) -> bool {
        if b.is_empty() {
            (self.0 >> 4) & 1 == 1
        } else {
            (self.0 >> ((b[0] - b'a') & 3)) & 1 == 1
        }
    }
}
impl<S: AsRef<str>> Pattern<S> for Pick {
    fn matches(&self, s: &S) -> bool {
        self.ok(s.as_ref().as_bytes())
    }
}
/// The same, but reports itself to be the literal 'a' (so the attribute is looked up by name).
struct At<'a> {
    names: &'a [[u8; 2]],
    values: &'a [[u8; 2]],
    nl: &'a [usize],
    vl: &'a [usize],
}
impl At<'_> {
    fn any(&self, f: &dyn Fn(&[u8], &[u8]) -> bool) -> bool {
        let mut r = false;
        for i in 0..self.names.len() {
            r |= f(&self.names[i][..self.nl[i]], &self.values[i][..self.vl[i]]);
        }
        r
    }
}
fn attr_node(a: &At, some: bool) -> Nd {
    let mut m = BTreeMap::new();
    for i in 0..a.names.len() {
        m.insert(st(&a.names[i][..a.nl[i]]).to_string(), st(&a.values[i][..a.vl[i]]).to_string());
    }
    Nd { id: 0, name: Some("n".into()), text: None, attrs: if some { Some(m) } else { None }, kids: vec![] }
}
fn c05(k: usize) {
    let names = [bytes::<2>(), bytes::<2>(), bytes::<2>()];
    let values = [bytes::<2>(), bytes::<2>(), bytes::<2>()];
    let lit = (bytes::<2>(), bytes::<2>());
    let mut nl = vec![];
    let mut vl = vec![];
    for i in 0..k {
        for b in names[i].iter().chain(values[i].iter()) {
            assume((*b >= b'a') & (*b <= b'd'));
        }
        nl.push(1 + choose(2) as usize);
        vl.push(choose(2) as usize);
    }
    for b in lit.0.iter().chain(lit.1.iter()) {
        assume((*b >= b'a') & (*b <= b'd'));
    }
    let at = At { names: &names[..k], values: &values[..k], nl: &nl, vl: &vl };
    // names are distinct
    for i in 0..k {
        for j in 0..i {
            assume(!same(&names[i][..nl[i]], &names[j][..nl[j]]));
        }
    }
    let n = attr_node(&at, true);
    show("node", &n);
    let (ql, rl) = (1 + choose(2) as usize, choose(2) as usize);
    let (qb, rb) = (&lit.0[..ql], &lit.1[..rl]);
    let (q, r) = (st(qb), st(rb));
    show("literals", &(q, r));
    let p = Pick(byte());
    let p2 = Pick(byte());
    show("picks", &(p.0, p2.0));
    let (want, got): (bool, bool) = match choose(9) {
        0 => (at.any(&|a, b| same(a, qb) & same(b, rb)), Attr { name: q, value: r }.matches(&n)),
        1 => (at.any(&|a, b| same(a, qb) & p.ok(b)), Attr { name: q.to_string(), value: p }.matches(&n)),
        2 => (at.any(&|a, b| p.ok(a) & same(b, rb)), Attr { name: p, value: r }.matches(&n)),
        3 => (at.any(&|a, b| p.ok(a) & p2.ok(b)), Attr { name: p, value: p2 }.matches(&n)),
        4 => (at.any(&|a, _| same(a, qb)), Attr { name: Cow::Borrowed(q), value: true }.matches(&n)),
        5 => (at.any(&|_, b| same(b, rb)), Attr { name: true, value: Cow::Borrowed(r) }.matches(&n)),
        6 => (false, Attr { name: q, value: false }.matches(&n)),
        7 => (k > 0, Attr { name: true, value: true }.matches(&n)),
        _ => (false, Attr { name: false, value: p }.matches(&n)),
    };
    obs1(got as u64);
    check(want == got, 200);
    if got {
        reach(2);
    } else {
        reach(3);
    }
}
#[no_mangle]
pub extern "C" fn h_c05_2() {
    let k = choose(3) as usize;
    c05(k)
}
#[no_mangle]
pub extern "C" fn h_c05_3() {
    c05(3)
}
/// The shorthands agree with the general condition, in queries.
#[no_mangle]
pub extern "C" fn h_c05_short() {
    let b = bytes::<6>();
    for x in &b {
        assume((*x >= b'a') & (*x <= b'c'));
    }
    let has = choose(2) == 1;
    // a symbolic value of length 0..=3 next to a fixed attribute
    let vl = choose(4) as usize;
    let ql = choose(4) as usize;
    let cls = choose(3); // class attribute, other attribute of that value, none
    let mut m: BTreeMap<String, String> = BTreeMap::new();
    if has {
        m.insert("id".into(), "c".into());
    }
    let v = &b[..vl];
    let q = &b[3..3 + ql];
    match cls {
        0 => {
            m.insert("class".into(), st(v).into());
        }
        1 => {
            m.insert("title".into(), st(v).into());
        }
        _ => {}
    }
    let s = soup(vec![Nd { id: 0, name: None, text: None, attrs: Some(m), kids: vec![] }]);
    show("soup/query", &(&s, st(q)));
    let eq = same(v, q);
    let n = |w: bool| -> Vec<u8> {
        if w {
            vec![0]
        } else {
            vec![]
        }
    };
    eqv(&ids(s.class(st(q))), &n(cls == 0 && eq), 210);
    eqv(&ids(s.class(st(q).to_string())), &n(cls == 0 && eq), 212);
    let idc = has && same(q, b"c");
    eqv(&ids(s.attr_value(st(q))), &n((cls != 2 && eq) || idc), 214);
    eqv(&ids(s.attr_name("class")), &n(cls == 0), 216);
    eqv(&ids(s.attr_name("title")), &n(cls == 1), 218);
    eqv(&ids(s.attr_name(true)), &n(cls != 2 || has), 220);
    eqv(&ids(s.attr_name(false)), &n(false), 222);
    eqv(&ids(s.class(true)), &n(cls == 0), 224);
    reach(1);
}
/// Class compares the whole attribute value, whatever whitespace or letter case it contains.
#[no_mangle]
pub extern "C" fn h_c05_class() {
    let vl = choose(5) as usize;
    let ql = choose(5) as usize;
    let mut v = vec![];
    utf8(&mut v, vl);
    let mut q = vec![];
    utf8(&mut q, ql);
    let n: HTMLNode<&str> =
        HTMLNode::Element { name: "p", attrs: [("class", st(&v))].into(), children: vec![] };
    show("node/query", &(&n, st(&q)));
    let eq = same(&v, &q);
    let s = soup(vec![n.clone()]);
    check(s.class(st(&q)).first().is_some() == eq, 230);
    check(Attr { name: "class", value: st(&q) }.matches(&n) == eq, 231);
    if eq {
        reach(2);
    }
    reach(1);
}
/// Nodes without attributes never match, on the real node types.
#[no_mangle]
pub extern "C" fn h_c05_none() {
    let p = Pick(byte());
    let n: HTMLNode<&str> = match choose(6) {
        0 => HTMLNode::Element { name: "a", attrs: BTreeMap::new(), children: vec![] },
        1 => HTMLNode::RawElement { name: "a", attrs: BTreeMap::new(), content: "a" },
        2 => HTMLNode::Void { name: "a", attrs: BTreeMap::new() },
        3 => HTMLNode::Text("a"),
        4 => HTMLNode::Comment("a"),
        _ => HTMLNode::Doctype("a"),
    };
    show("node", &n);
    check(!Attr { name: "a", value: "a" }.matches(&n), 240);
    check(!Attr { name: true, value: true }.matches(&n), 241);
    check(!Attr { name: p, value: p }.matches(&n), 242);
    let none = Nd { id: 0, name: Some("a".into()), text: Some("a".into()), attrs: None, kids: vec![] };
    check(!Attr { name: true, value: true }.matches(&none), 243);
    check(!Attr { name: "a", value: p }.matches(&none), 244);
    reach(1);
}

// ---------- C06 ----------
fn c06_pair(v: &[u8], q: &[u8]) {
    let (hs, ps) = (st(v), st(q));
    show("text/pattern", &(hs, ps));
    let eq = same(v, q);
    let hb: &str = hs;
    let ho: String = hs.to_string();
    let hc: Cow<str> = Cow::Borrowed(hs);
    let hd: Cow<str> = Cow::Owned(hs.to_string());
    let po = ps.to_string();
    let pc: Cow<str> = Cow::Borrowed(ps);
    let pd: Cow<str> = Cow::Owned(ps.to_string());
    check(Pattern::<&str>::matches(&ps, &hb) == eq, 250);
    check(Pattern::<String>::matches(&ps, &ho) == eq, 251);
    check(Pattern::<Cow<str>>::matches(&ps, &hc) == eq, 252);
    check(Pattern::<Cow<str>>::matches(&ps, &hd) == eq, 253);
    check(Pattern::<String>::matches(&po, &ho) == eq, 254);
    check(Pattern::<String>::matches(&pc, &ho) == eq, 257);
    check(Pattern::<String>::matches(&pd, &ho) == eq, 260);
    // tag conditions and a literal attribute name (looked up instead of compared)
    let n = Nd {
        id: 0,
        name: Some(ho.clone()),
        text: None,
        attrs: Some([(ho.clone(), "v".to_string())].into()),
        kids: vec![],
    };
    check(Tag { tag: ps }.matches(&n) == eq, 261);
    check(Tag { tag: po.clone() }.matches(&n) == eq, 262);
    check(Tag { tag: pd.clone() }.matches(&n) == eq, 263);
    let m = Nd { id: 0, name: None, text: None, attrs: Some([("k".to_string(), ho.clone())].into()), kids: vec![] };
    check(Attr { name: true, value: ps }.matches(&m) == eq, 267);
    check(Attr { name: "k", value: po.clone() }.matches(&m) == eq, 268);
    check(Attr { name: true, value: pc.clone() }.matches(&m) == eq, 269);
    check(Attr { name: pc, value: pd.clone() }.matches(&m) == (same(q, b"k") & eq), 269);
    check(Attr { name: ps, value: true }.matches(&n) == eq, 264);
    check(Attr { name: po, value: true }.matches(&n) == eq, 265);
    check(Attr { name: pd, value: "v" }.matches(&n) == eq, 266);
    if eq {
        reach(2);
    } else {
        reach(3);
    }
}
/// Any two texts of up to 4 bytes.
#[no_mangle]
pub extern "C" fn h_c06_eq() {
    let (a, b) = (choose(5) as usize, choose(5) as usize);
    let mut v = vec![];
    let mut q = vec![];
    utf8(&mut v, a);
    utf8(&mut q, b);
    c06_pair(&v, &q)
}
/// Long texts (ASCII), equal and off-by-one lengths.
#[no_mangle]
pub extern "C" fn h_c06_long() {
    let n = [8usize, 16, 17, 33, 48][choose(5) as usize];
    let k = n - choose(2) as usize;
    let b = bytes::<48>();
    let c = bytes::<48>();
    for i in 0..48 {
        assume((b[i] < 0x80) & (c[i] < 0x80));
    }
    c06_pair(&b[..n], &c[..k])
}
/// Booleans, nodes without a name, regular expressions.
#[no_mangle]
pub extern "C" fn h_c06_other() {
    let n = choose(5) as usize;
    let mut v = vec![];
    utf8(&mut v, n);
    let s = st(&v).to_string();
    show("text", &s);
    check(Pattern::<String>::matches(&true, &s), 270);
    check(!Pattern::<String>::matches(&false, &s), 271);
    let nameless = Nd { id: 0, name: None, text: Some(s.clone()), attrs: None, kids: vec![] };
    let named = Nd { id: 0, name: Some(s.clone()), text: None, attrs: None, kids: vec![] };
    check(!Tag { tag: true }.matches(&nameless), 272);
    check(!Tag { tag: s.as_str() }.matches(&nameless), 273);
    check(!Tag { tag: s.clone() }.matches(&nameless), 274);
    check(Tag { tag: true }.matches(&named), 275);
    check(!Tag { tag: false }.matches(&named), 276);
    let t: HTMLNode<&str> = HTMLNode::Text(st(&v));
    let c: HTMLNode<&str> = HTMLNode::Comment(st(&v));
    check(!Tag { tag: true }.matches(&t), 277);
    check(!Tag { tag: st(&v) }.matches(&t), 278);
    check(!Tag { tag: true }.matches(&c), 279);
    reach(1);
}
fn rx(i: u8) -> &'static str {
    ["^h[0-9]$", "e$", "b", "^$", "^a.c", "(?i)^Ab", "[^a-z]", "a*"][i as usize]
}
/// What `rx(i)` finds a match in, written out (ASCII texts).
fn rx_ref(i: u8, b: &[u8]) -> bool {
    let n = b.len();
    match i {
        0 => n == 2 && (b[0] == b'h') & digit(b[1]),
        1 => n >= 1 && b[n - 1] == b'e',
        2 => {
            let mut r = false;
            for x in b {
                r |= *x == b'b';
            }
            r
        }
        3 => n == 0,
        4 => n >= 3 && (b[0] == b'a') & (b[1] != b'\n') & (b[2] == b'c'),
        5 => n >= 2 && (lower(b[0]) == b'a') & (lower(b[1]) == b'b'),
        6 => {
            let mut r = false;
            for x in b {
                r |= !((*x >= b'a') & (*x <= b'z'));
            }
            r
        }
        _ => true,
    }
}
#[no_mangle]
pub extern "C" fn h_c06_regex() {
    let i = choose(8);
    let re = regex::Regex::new(rx(i)).unwrap();
    let _ = Pattern::<String>::matches(&re, &"warm up".to_string());
    let n = choose(5) as usize;
    let b = bytes::<4>();
    for x in &b {
        assume(*x < 0x80);
    }
    let s = st(&b[..n]).to_string();
    show("regex/text", &(rx(i), &s));
    let got = Pattern::<String>::matches(&re, &s);
    check(got == rx_ref(i, &b[..n]), 290);
    let nd = Nd {
        id: 0,
        name: Some(s.clone()),
        text: None,
        attrs: Some([("k".to_string(), s.clone())].into()),
        kids: vec![],
    };
    check(Tag { tag: re.clone() }.matches(&nd) == got, 291);
    check(Attr { name: "k", value: re.clone() }.matches(&nd) == got, 292);
    if got {
        reach(2);
    } else {
        reach(3);
    }
}

// ---------- C07 ----------
fn c07(n: usize) {
    let d = depths(n);
    let m = Mask(byte());
    show("depths/mask", &(&d, m.0));
    let s = soup(plain(&d));
    for q in &s {
        let i = q.id as usize;
        let sub = q.query();
        let mut kids = vec![];
        let mut below = vec![];
        let (mut mk, mut mb) = (vec![], vec![]);
        for j in i + 1..i + size(&d, i) {
            below.push(j as u8);
            if m.has(j) {
                mb.push(j as u8);
            }
            if d[j] == d[i] + 1 {
                kids.push(j as u8);
                if m.has(j) {
                    mk.push(j as u8);
                }
            }
        }
        seq(sub.iter().map(|x| x.id), &below, 300);
        eqv(&ids((&sub).strict()), &kids, 304);
        eqv(&ids(sub.tag(m)), &mb, 306);
        eqv(&ids(sub.tag(m).strict()), &mk, 308);
        eqv(&ids(sub.attr_name(true)), &[], 310);
        // unchanged: each child of the sub-document equals the original child
        let mut c = q.children().iter();
        for x in (&sub).strict().all() {
            match c.next() {
                Some(o) => check(*x == *o, 312),
                None => check(false, 313),
            }
        }
        if !below.is_empty() {
            reach(2);
        }
    }
    reach(1);
}
#[no_mangle]
pub extern "C" fn h_c07_4() {
    let n = choose(5) as usize;
    c07(n)
}
#[no_mangle]
pub extern "C" fn h_c07_5() {
    c07(5)
}
#[no_mangle]
pub extern "C" fn h_c07_7() {
    c07(7)
}
/// Sub-queries of sub-queries, from a query result, on the real node types.
#[no_mangle]
pub extern "C" fn h_c07_real() {
    let d = depths(choose(6) as usize);
    let xml = choose(2) == 1;
    if xml {
        let v = xml_forest(&d);
        show("nodes", &v);
        c07_real(&d, v, xml_name)
    } else {
        let v = html_forest(&d);
        show("nodes", &v);
        c07_real(&d, v, html_name)
    }
}
fn c07_real<N: Node + Clone + PartialEq>(d: &[u8], v: Vec<N>, id: fn(&N) -> u8) {
    let s = soup(v);
    for q in (&s).into_iter() {
        let i = id(&*q) as usize;
        let sub = q.query();
        let want: Vec<u8> = (i as u8 + 1..(i + size(d, i)) as u8).collect();
        seq(sub.iter().map(|x| id(&*x)), &want, 320);
        for r in &sub {
            let j = id(&*r) as usize;
            let subsub = r.query();
            let want: Vec<u8> = (j as u8 + 1..(j + size(d, j)) as u8).collect();
            seq(subsub.iter().map(|x| id(&*x)), &want, 324);
        }
    }
    reach(1);
}

// ---------- C08 ----------
fn c08(n: usize, len: u8) {
    let d = depths(n);
    let pool = bytes::<8>();
    for b in &pool {
        assume(*b < 0x80);
    }
    let mut texts: Vec<Option<Vec<u8>>> = vec![];
    let mut at = 0;
    for _ in 0..n {
        let l = choose(len + 2);
        texts.push(if l == 0 {
            None
        } else {
            let l = l as usize - 1;
            at += l;
            Some(pool[at - l..at].to_vec())
        });
    }
    show("depths/texts", &(&d, &texts));
    let s = soup(build(&d, |i, kids| Nd {
        id: i as u8,
        name: Some(idname(i)),
        text: texts[i].as_ref().map(|t| st(t).to_string()),
        attrs: None,
        kids,
    }));
    for q in &s {
        let i = q.id as usize;
        let mut want: Vec<u8> = vec![];
        let mut first = true;
        for t in texts[i..i + size(&d, i)].iter().flatten() {
            if !first {
                want.push(b'\n');
            }
            first = false;
            want.extend_from_slice(t);
        }
        let got = q.all_text();
        obs(got.as_bytes());
        check(same(got.as_bytes(), &want), 330);
        match (q.text(), &texts[i]) {
            (Some(a), Some(b)) => check(same(a.as_bytes(), b), 331),
            (None, None) => {}
            _ => check(false, 332),
        }
        if want.len() > 2 {
            reach(2);
        }
    }
    reach(1);
}
#[no_mangle]
pub extern "C" fn h_c08_4() {
    let n = choose(5) as usize;
    c08(n, 2)
}
#[no_mangle]
pub extern "C" fn h_c08_5() {
    c08(5, 1)
}
#[no_mangle]
pub extern "C" fn h_c08_6() {
    c08(6, 1)
}
/// The real node types: only text nodes count, whatever their content.
#[no_mangle]
pub extern "C" fn h_c08_real() {
    let d = depths(choose(5) as usize);
    let pool = bytes::<8>();
    for b in &pool {
        assume(*b < 0x80);
    }
    let mut texts: Vec<Option<usize>> = vec![None; d.len()];
    let mut at = 0;
    let xml = choose(2) == 1;
    let mut take = |n: usize| {
        at += n;
        (at - n, at)
    };
    let mut lens: Vec<(usize, usize)> = vec![(0, 0); d.len()];
    let hv;
    let xv;
    if xml {
        xv = build(&d, |i, children| {
            let name = "e".to_string();
            if !children.is_empty() {
                return XMLNode::Element(XMLElement { name, children, ..Default::default() });
            }
            let k = choose(4);
            let (a, b) = take(if k == 0 { 0 } else { choose(3) as usize });
            let t = st(&pool[a..b]).to_string();
            match k {
                0 => XMLNode::Element(XMLElement { name, children, ..Default::default() }),
                1 => {
                    texts[i] = Some(i);
                    lens[i] = (a, b);
                    XMLNode::Text(t)
                }
                2 => XMLNode::Comment(t),
                _ => XMLNode::ProcessingInstruction(t, Some("p".into())),
            }
        });
        show("nodes", &xv);
        c08_real(&d, xv, &texts, &lens, &pool)
    } else {
        hv = build(&d, |i, children| {
            let name = "e".to_string();
            if !children.is_empty() {
                return HTMLNode::Element { name, attrs: BTreeMap::new(), children };
            }
            let k = choose(4);
            let (a, b) = take(if k == 0 { 0 } else { choose(3) as usize });
            let t = st(&pool[a..b]).to_string();
            match k {
                0 => HTMLNode::Void { name, attrs: BTreeMap::new() },
                1 => {
                    texts[i] = Some(i);
                    lens[i] = (a, b);
                    HTMLNode::Text(t)
                }
                2 => HTMLNode::Comment(t),
                _ => HTMLNode::Doctype(t),
            }
        });
        show("nodes", &hv);
        c08_real(&d, hv, &texts, &lens, &pool)
    }
}
fn c08_real<N: Node<Text = String>>(
    d: &[u8],
    v: Vec<N>,
    texts: &[Option<usize>],
    lens: &[(usize, usize)],
    pool: &[u8],
) {
    let s = soup(v);
    let mut i = 0;
    for q in &s {
        let mut want: Vec<u8> = vec![];
        let mut first = true;
        for j in i..i + size(d, i) {
            if texts[j].is_some() {
                if !first {
                    want.push(b'\n');
                }
                first = false;
                want.extend_from_slice(&pool[lens[j].0..lens[j].1]);
            }
        }
        check(same(q.all_text().as_bytes(), &want), 340);
        i += 1;
    }
    check(i == d.len(), 341);
    reach(1);
}
/// Attribute lookup by symbolic names.
fn c08_get(k: usize) {
    let names = bytes::<6>();
    let vals = bytes::<6>();
    let q = bytes::<2>();
    for i in 0..6 {
        assume((names[i] < 0x80) & (vals[i] < 0x80));
    }
    assume((q[0] < 0x80) & (q[1] < 0x80));
    let mut nl = vec![];
    for i in 0..k {
        nl.push(choose(3) as usize);
        for j in 0..i {
            assume(!same(&names[2 * i..2 * i + nl[i]], &names[2 * j..2 * j + nl[j]]));
        }
    }
    let ql = choose(3) as usize;
    let mut m: BTreeMap<&str, &str> = BTreeMap::new();
    for i in 0..k {
        m.insert(st(&names[2 * i..2 * i + nl[i]]), st(&vals[2 * i..2 * i + 2]));
    }
    let kind = choose(4);
    let n: HTMLNode<&str> = match kind {
        0 => HTMLNode::Element { name: "e", attrs: m, children: vec![] },
        1 => HTMLNode::RawElement { name: "e", attrs: m, content: "x" },
        2 => HTMLNode::Void { name: "e", attrs: m },
        _ => HTMLNode::Text("e"),
    };
    show("node/name", &(&n, st(&q[..ql])));
    let got = n.get(st(&q[..ql]));
    let mut hit = false;
    for i in 0..k {
        let eq = (kind < 3) & same(&names[2 * i..2 * i + nl[i]], &q[..ql]);
        hit |= eq;
        if let Some(g) = got {
            check(!eq | same(g.as_bytes(), &vals[2 * i..2 * i + 2]), 350);
        }
    }
    check(got.is_some() == hit, 351);
    if got.is_some() {
        reach(2);
    } else {
        reach(3);
    }
}
#[no_mangle]
pub extern "C" fn h_c08_get() {
    let k = choose(3) as usize;
    c08_get(k)
}
#[no_mangle]
pub extern "C" fn h_c08_get3() {
    c08_get(3)
}

// ---------- C09 ----------
#[no_mangle]
pub extern "C" fn h_c09_html() {
    let b = bytes::<8>();
    for x in &b {
        assume(*x < 0x80);
    }
    let w = |i: usize, n: u8| st(&b[i..i + choose(n) as usize]);
    let (name, text) = (w(0, 4), w(4, 5));
    let kind = choose(6);
    let na = choose(3) as usize;
    let nc = choose(4) as usize;
    let mut attrs: BTreeMap<&str, &str> = BTreeMap::new();
    for (k, v) in [("k", text), ("l", name)].iter().take(na) {
        attrs.insert(k, v);
    }
    let mut kids: Vec<HTMLNode<&str>> = vec![];
    for i in 0..nc {
        kids.push(match choose(3) {
            0 => HTMLNode::Text(IDS[i]),
            1 => HTMLNode::Void { name: IDS[i], attrs: BTreeMap::new() },
            _ => HTMLNode::Element { name: IDS[i], attrs: BTreeMap::new(), children: vec![HTMLNode::Text("g")] },
        });
    }
    let n: HTMLNode<&str> = match kind {
        0 => HTMLNode::Element { name, attrs: attrs.clone(), children: kids.clone() },
        1 => HTMLNode::RawElement { name, attrs: attrs.clone(), content: text },
        2 => HTMLNode::Void { name, attrs: attrs.clone() },
        3 => HTMLNode::Text(text),
        4 => HTMLNode::Comment(text),
        _ => HTMLNode::Doctype(text),
    };
    show("node", &n);
    let same_o = |a: Option<&&str>, b: Option<&str>| match (a, b) {
        (Some(x), Some(y)) => same(x.as_bytes(), y.as_bytes()),
        (None, None) => true,
        _ => false,
    };
    check(same_o(n.name(), if kind < 3 { Some(name) } else { None }), 360);
    check(same_o(n.text(), if kind == 3 { Some(text) } else { None }), 361);
    match n.attrs() {
        Some(a) => {
            check(kind < 3, 362);
            check(a.len() == na, 363);
            for (k, v) in &attrs {
                match a.get(k) {
                    Some(g) => check(same(g.as_bytes(), v.as_bytes()), 364),
                    None => check(false, 365),
                }
            }
        }
        None => check(kind >= 3, 366),
    }
    let wc: &[HTMLNode<&str>] = if kind == 0 { &kids } else { &[] };
    check(n.children().len() == wc.len(), 367);
    check(n.iter().count() == wc.len(), 368);
    check((&n).into_iter().count() == wc.len(), 369);
    for (i, c) in wc.iter().enumerate() {
        check(n.children()[i] == *c, 370);
    }
    for (x, y) in n.iter().zip(wc.iter()) {
        check(x == y, 371);
    }
    for (x, y) in (&n).into_iter().zip(wc.iter()) {
        check(x == y, 372);
    }
    reach(1 + kind as u64);
}
#[no_mangle]
pub extern "C" fn h_c09_xml() {
    let b = bytes::<8>();
    for x in &b {
        assume(*x < 0x80);
    }
    let w = |i: usize, n: u8| st(&b[i..i + choose(n) as usize]).to_string();
    let (name, text) = (w(0, 4), w(4, 5));
    let kind = choose(5);
    let na = choose(3) as usize;
    let nc = choose(4) as usize;
    let mut attrs: BTreeMap<String, String> = BTreeMap::new();
    for (k, v) in [("k", &text), ("l", &name)].iter().take(na) {
        attrs.insert(k.to_string(), v.to_string());
    }
    let mut kids: Vec<XMLNode> = vec![];
    for i in 0..nc {
        kids.push(match choose(3) {
            0 => XMLNode::Text(idname(i)),
            1 => XMLNode::Comment(idname(i)),
            _ => XMLNode::Element(XMLElement { name: idname(i), ..Default::default() }),
        });
    }
    let n = match kind {
        0 => XMLNode::Element(XMLElement {
            name: name.clone(),
            attributes: attrs.clone(),
            children: kids.clone(),
            prefix: Some("pre".into()),
            namespace: Some("ns".into()),
            namespaces: None,
        }),
        1 => XMLNode::Text(text.clone()),
        2 => XMLNode::Comment(text.clone()),
        3 => XMLNode::CData(text.clone()),
        _ => XMLNode::ProcessingInstruction(name.clone(), Some(text.clone())),
    };
    show("node", &n);
    let same_o = |a: Option<&String>, b: Option<&String>| match (a, b) {
        (Some(x), Some(y)) => same(x.as_bytes(), y.as_bytes()),
        (None, None) => true,
        _ => false,
    };
    check(same_o(n.name(), if kind == 0 { Some(&name) } else { None }), 380);
    check(same_o(n.text(), if kind == 1 { Some(&text) } else { None }), 381);
    match n.attrs() {
        Some(a) => {
            check(kind == 0, 382);
            check(a.len() == na, 383);
            for (k, v) in &attrs {
                match a.get(k) {
                    Some(g) => check(same(g.as_bytes(), v.as_bytes()), 384),
                    None => check(false, 385),
                }
            }
        }
        None => check(kind != 0, 386),
    }
    let wc: &[XMLNode] = if kind == 0 { &kids } else { &[] };
    check(n.children().len() == wc.len(), 387);
    check(n.iter().count() == wc.len(), 388);
    check((&n).into_iter().count() == wc.len(), 389);
    for (i, c) in wc.iter().enumerate() {
        check(n.children()[i] == *c, 390);
    }
    for (x, y) in n.iter().zip(wc.iter()) {
        check(x == y, 391);
    }
    for (x, y) in (&n).into_iter().zip(wc.iter()) {
        check(x == y, 392);
    }
    reach(1 + kind as u64);
}

/// Texts of any length that differ in one place or not at all.
#[no_mangle]
pub extern "C" fn h_c06_huge() {
    let n = [64, 100, 127, 128, 255, 256, 257, 300, 1025, 4097, 65537][choose(11) as usize];
    let at = [0, 1, n / 2, n - 2, n - 1][choose(5) as usize];
    let (x, y) = (byte(), byte());
    assume((x < 0x80) & (y < 0x80));
    let mut a = vec![b'x'; n];
    let mut b = a.clone();
    a[at] = x;
    b[at] = y;
    b.truncate(n - choose(2) as usize);
    c06_pair(&a, &b)
}
/// Expressions on long texts: the match may be anywhere.
#[no_mangle]
pub extern "C" fn h_c06_regexlong() {
    let re = regex::Regex::new("b$|^e").unwrap();
    let _ = Pattern::<String>::matches(&re, &"warm up".to_string());
    let n = [1, 16, 40, 129, 300, 1025][choose(6) as usize];
    let (x, y) = (among(b"bex"), among(b"bex"));
    let mut t = vec![b'x'; n];
    t.insert(0, x);
    t.push(y);
    let s = st(&t).to_string();
    check(Pattern::<String>::matches(&re, &s) == ((x == b'e') | (y == b'b')), 290);
    reach(1);
}
/// Many attributes with names that are beginnings of each other.
#[no_mangle]
pub extern "C" fn h_c05_many() {
    let n = 1 + choose(40) as usize;
    let at = [0, n / 2, n - 1][choose(3) as usize];
    let (a, b) = (byte(), byte());
    assume((a < 0x80) & (b < 0x80));
    let mut m = BTreeMap::new();
    let name = |i: usize| "k".repeat(1 + i * 11 % 41);
    for i in 0..n {
        m.insert(name(i), st(&[if i == at { a } else { b'-' }]).to_string());
    }
    check(m.len() == n, 250);
    let nd = Nd { id: 0, name: None, text: None, attrs: Some(m), kids: vec![] };
    let val = st(&[b]).to_string();
    // the attribute by its own name, its neighbours, and names nothing has
    for i in 0..41 {
        let k = name(i);
        let has = i < n;
        check(Attr { name: k.as_str(), value: true }.matches(&nd) == has, 251);
        let eq = has & (if i == at { a == b } else { b == b'-' });
        check(Attr { name: k.as_str(), value: val.as_str() }.matches(&nd) == eq, 252);
        check(Attr { name: k.clone(), value: val.clone() }.matches(&nd) == eq, 253);
    }
    check(Attr { name: "", value: true }.matches(&nd) == false, 254);
    check(Attr { name: true, value: val.as_str() }.matches(&nd) == ((a == b) | ((n > 1) & (b == b'-'))), 255);
    check(nd.get(&name(at)).map_or(false, |v| same(v.as_bytes(), &[a])), 256);
    reach(1);
}
/// Every attribute name that HTML, SVG or MathML knows, with any short value: no name is special.
#[no_mangle]
pub extern "C" fn h_c05_known() {
    let k = known_name();
    let (vl, ql) = (choose(3) as usize, choose(3) as usize);
    let (a, b) = (bytes::<2>(), bytes::<2>());
    for c in a.iter().chain(&b) {
        assume(*c < 0x80);
    }
    let (val, q) = (st(&a[..vl]), st(&b[..ql]));
    let eq = same(val.as_bytes(), q.as_bytes());
    let attrs: BTreeMap<&str, &str> = [("A", "1"), (k, val)].into();
    let n: HTMLNode<&str> = match choose(3) {
        0 => HTMLNode::Element { name: "p", attrs, children: vec![] },
        1 => HTMLNode::RawElement { name: "script", attrs, content: "" },
        _ => HTMLNode::Void { name: "br", attrs },
    };
    show("node/query", &(&n, q));
    check(Attr { name: k, value: q }.matches(&n) == eq, 260);
    check(Attr { name: k, value: true }.matches(&n), 261);
    check(!Attr { name: k, value: false }.matches(&n), 262);
    check(Attr { name: true, value: q }.matches(&n) == (eq | same(q.as_bytes(), b"1")), 263);
    check(!Attr { name: "B", value: q }.matches(&n), 264);
    let hit = soup(vec![n.clone()]).attr(k, q).first().is_some();
    check(hit == eq, 265);
    if k == "class" {
        check(soup(vec![n.clone()]).class(q).first().is_some() == eq, 266);
    } else {
        check(soup(vec![n.clone()]).class(q).first().is_none(), 267);
    }
    reach(1);
}
/// Every tag name that HTML, SVG or MathML knows: no name is special.
#[no_mangle]
pub extern "C" fn h_c06_known() {
    let (k, l) = (known_name(), ["p", "br", "class", "html", "body", "x"][choose(6) as usize]);
    let n: HTMLNode<&str> = HTMLNode::Element { name: k, attrs: [].into(), children: vec![HTMLNode::Text("t")] };
    check(Tag { tag: k }.matches(&n), 270);
    check(Tag { tag: l }.matches(&n) == (k == l), 271);
    check(Tag { tag: true }.matches(&n) & !Tag { tag: false }.matches(&n), 272);
    let s = soup(vec![n]);
    check(s.tag(k).first().is_some(), 273);
    check(s.tag(l).all().count() == (k == l) as usize, 274);
    check(s.tag(true).all().count() == 1, 275);
    reach(1);
}
/// A node of one of the names that HTML, SVG or MathML know, or with an attribute of such a name, alone, beside others
/// or within one: (document, the top-level node it is in, whether it is nested)
fn known_tree() -> (&'static str, bool, Vec<HTMLNode<&'static str>>) {
    let k = known_name();
    let attr = choose(2) == 1;
    let b = byte();
    assume(b < 0x80);
    let x: &'static str = st(Box::leak(Box::new([b])));
    let t = HTMLNode::Text;
    let el = |name, attrs: &[(&'static str, &'static str)], children| {
        HTMLNode::Element { name, attrs: attrs.iter().copied().collect(), children }
    };
    let kids = vec![t(x), el("q", &[("k", x)], vec![t("u")]), HTMLNode::Comment("c"), t("w")];
    let n = if attr { el("q", &[(k, x)], kids) } else { el(k, &[("k", "v")], kids) };
    let v = match choose(3) {
        0 => vec![n],
        1 => vec![t("1"), n, el("q", &[], vec![t("2")])],
        _ => vec![el("q", &[("k", "0")], vec![el("q", &[], vec![]), n, t("3")])],
    };
    show("nodes", &v);
    (k, attr, v)
}
fn kids_of<'a>(n: &'a HTMLNode<&'static str>) -> &'a [HTMLNode<&'static str>] {
    match n {
        HTMLNode::Element { children, .. } => children,
        _ => &[],
    }
}
fn preorder<'a>(v: &'a [HTMLNode<&'static str>], depth: u8, out: &mut Vec<(&'a HTMLNode<&'static str>, u8)>) {
    for n in v {
        out.push((n, depth));
        preorder(kids_of(n), depth + 1, out);
    }
}
/// What is known of the tree against what iteration, queries, sub-queries and texts say; `part` chooses.
fn known_part(part: u8) {
    let (k, attr, v) = known_tree();
    let want_doc = v.clone();
    let mut want = vec![];
    preorder(&want_doc, 0, &mut want);
    let s = soup(v);
    match part {
        1 => {
            let mut i = 0;
            for q in s.iter() {
                check(i < want.len() && html_same(&q, want[i].0), 280);
                let mut sub = vec![];
                preorder(kids_of(&q), 0, &mut sub);
                let mut j = 0;
                for d in q.descendants() {
                    // the iteration starts with the node itself
                    check(if j == 0 { html_same(d, &q) } else { j <= sub.len() && html_same(d, sub[j - 1].0) }, 281);
                    j += 1;
                }
                check(j == sub.len() + 1, 282);
                i += 1;
            }
            check(i == want.len(), 283);
        }
        2 | 3 => {
            let strict = part == 3;
            let holds = |n: &HTMLNode<&str>, f: u8| match n {
                HTMLNode::Element { name, attrs, .. } => match f {
                    0 => *name == "q",
                    1 => *name == k,
                    2 => attrs.contains_key(k),
                    3 => attrs.contains_key("k"),
                    _ => true,
                },
                _ => false,
            };
            for f in 0..5 {
                let exp: Vec<_> = want.iter().filter(|(n, d)| holds(n, f) && (!strict || *d == 0)).collect();
                let mut i = 0;
                let mut one = |q: &HTMLNode<&'static str>| {
                    check(i < exp.len() && html_same(q, exp[i].0), 284);
                    i += 1;
                };
                match (f, strict) {
                    (0, false) => s.tag("q").all().for_each(|q| one(&q)),
                    (1, false) => s.tag(k).all().for_each(|q| one(&q)),
                    (2, false) => s.attr_name(k).all().for_each(|q| one(&q)),
                    (3, false) => s.attr("k", true).all().for_each(|q| one(&q)),
                    (_, false) => s.tag(true).all().for_each(|q| one(&q)),
                    (0, _) => s.tag("q").strict().all().for_each(|q| one(&q)),
                    (1, _) => s.strict().tag(k).all().for_each(|q| one(&q)),
                    (2, _) => s.attr_name(k).strict().all().for_each(|q| one(&q)),
                    (3, _) => s.strict().attr("k", true).all().for_each(|q| one(&q)),
                    _ => s.tag(true).strict().all().for_each(|q| one(&q)),
                }
                check(i == exp.len(), 285);
            }
        }
        7 => {
            for q in s.iter() {
                let q = if choose(2) == 1 { q.clone() } else { q };
                let kids = kids_of(&q).to_vec();
                let mut sub = vec![];
                preorder(&kids, 0, &mut sub);
                let d = q.query();
                let (mut i, mut j) = (0, 0);
                for x in d.strict().all() {
                    check(i < kids.len() && html_same(&x, &kids[i]), 286);
                    i += 1;
                }
                for x in d.recursive().all() {
                    check(j < sub.len() && html_same(&x, sub[j].0), 287);
                    j += 1;
                }
                check((i == kids.len()) & (j == sub.len()), 288);
                if i > 0 {
                    break;
                }
            }
        }
        _ => {
            for q in s.iter() {
                let mut sub = vec![];
                preorder(kids_of(&q), 0, &mut sub);
                let mut text: Vec<u8> = vec![];
                let mut first = true;
                let own = [(&*q, 0)];
                for (n, _) in own.iter().chain(&sub) {
                    if let HTMLNode::Text(t) = n {
                        if !first {
                            text.push(b'\n');
                        }
                        first = false;
                        text.extend_from_slice(t.as_bytes());
                    }
                }
                check(same(q.all_text().as_bytes(), &text), 289);
                if let HTMLNode::Element { attrs, .. } = &*q {
                    for a in [k, "k", "q"] {
                        match (q.get(a), attrs.get(a)) {
                            (Some(g), Some(w)) => check(same(g.as_bytes(), w.as_bytes()), 290),
                            (g, w) => check(g.is_none() & w.is_none(), 291),
                        }
                    }
                }
            }
        }
    }
    let _ = attr;
    reach(1);
}
#[no_mangle]
pub extern "C" fn h_c01_known() {
    known_part(1)
}
#[no_mangle]
pub extern "C" fn h_c02_known() {
    known_part(2)
}
#[no_mangle]
pub extern "C" fn h_c03_known() {
    known_part(3)
}
#[no_mangle]
pub extern "C" fn h_c07_known() {
    known_part(7)
}
#[no_mangle]
pub extern "C" fn h_c08_known() {
    known_part(8)
}
/// Elements of every known name, or with an attribute of that name, as HTML and as XML nodes of every kind.
#[no_mangle]
pub extern "C" fn h_c09_known() {
    let k = known_name();
    let other = choose(2) == 1;
    let (name, at) = if other { ("x", k) } else { (k, "x") };
    let attrs: BTreeMap<&str, &str> = [(at, "v"), ("w", "")].into();
    let kids = vec![HTMLNode::Text("1"), HTMLNode::Comment("2"), HTMLNode::Void { name: k, attrs: [].into() }];
    let kind = choose(4);
    if kind == 3 {
        let mut e = XMLElement { name: name.into(), ..Default::default() };
        for (k, v) in &attrs {
            e.attributes.insert(k.to_string(), v.to_string());
        }
        e.children = vec![XMLNode::Text("1".into()), XMLNode::Comment("2".into())];
        let n = XMLNode::Element(e.clone());
        check(n.name().map_or(false, |x| x == name), 292);
        check(n.text().is_none(), 293);
        check(n.attrs().map_or(false, |a| *a == e.attributes), 294);
        check(n.children().len() == 2 && n.iter().zip(&e.children).all(|(a, b)| xml_same(a, b)), 295);
        check(n.iter().count() == 2 && (&n).into_iter().count() == 2, 296);
    } else {
        let n: HTMLNode<&str> = match kind {
            0 => HTMLNode::Element { name, attrs: attrs.clone(), children: kids.clone() },
            1 => HTMLNode::RawElement { name, attrs: attrs.clone(), content: "c" },
            _ => HTMLNode::Void { name, attrs: attrs.clone() },
        };
        check(n.name().map_or(false, |x| *x == name), 297);
        check(n.text().is_none(), 298);
        check(n.attrs().map_or(false, |a| *a == attrs), 299);
        let m = if kind == 0 { 3 } else { 0 };
        check(n.children().len() == m && n.iter().zip(&kids).all(|(a, b)| html_same(a, b)), 300);
        check(n.iter().count() == m && (&n).into_iter().count() == m, 301);
    }
    reach(1);
}
// ---------- more nodes than sixteen bits count ----------
fn huge() -> (Vec<Big>, u32) {
    let (v, n, _) = big(1 + choose(2), 65537 + choose(2) as u32);
    (v, n)
}
#[no_mangle]
pub extern "C" fn h_c02_huge() {
    let (mut v, n) = huge();
    let m = [1, 2, 65536][choose(3) as usize];
    let r = m - 1;
    for b in &mut v {
        label(b, m, r);
    }
    let s = soup(v);
    let mut k = r;
    for q in s.tag("a").all() {
        check(q.id == k, 850);
        k += m;
    }
    check((k >= n) & (k - m < n), 851);
    reach(1);
}
#[no_mangle]
pub extern "C" fn h_c03_huge() {
    let (v, n) = huge();
    let top = v.len();
    let s = soup(v);
    let mut k = 0;
    for q in s.strict().all() {
        check(q.id == k, 852);
        k += 1;
    }
    check(k as usize == top, 853);
    check(s.strict().recursive().all().count() == n as usize, 854);
    check(s.recursive().strict().all().last().map(|q| q.id) == Some(top as u32 - 1), 855);
    reach(1);
}
#[no_mangle]
pub extern "C" fn h_c07_huge() {
    let (v, n, _) = big(2, 65538 + choose(2) as u32);
    let v = if v.len() == 1 { v } else { vec![Big { id: u32::MAX, name: None, text: None, kids: v }] };
    let s = soup(v);
    let q = match s.iter().next() {
        Some(q) => q,
        None => {
            check(false, 856);
            return;
        }
    };
    let sub = q.query();
    let first = q.children().first().map_or(0, |c| c.id);
    let mut k = first;
    for x in sub.iter() {
        check(x.id == k, 857);
        k += 1;
    }
    check(k == n, 858);
    check(sub.strict().all().count() == q.children().len(), 859);
    reach(1);
}
#[no_mangle]
pub extern "C" fn h_c08_huge() {
    let t = ascii(1);
    assume(t[0] != 0);
    let (mut v, _) = huge();
    let mut want = vec![];
    for b in &mut v {
        texts(b, st(&t), &mut want);
    }
    let b = Big { id: 0, name: None, text: None, kids: v };
    check(same(b.all_text().as_bytes(), &want), 872);
    reach(1);
}

// ---------- C23 ----------
/// Any text of at most one free byte.
fn t01() -> &'static str {
    let n = choose(2) as usize;
    let b = byte();
    assume(b < 0x80);
    &st(Box::leak(Box::new([b])))[..n]
}
fn map01() -> (Vec<(&'static str, &'static str)>, BTreeMap<&'static str, &'static str>) {
    let n = choose(3);
    let mut l = vec![];
    for k in ["k", "l"].iter().take(n as usize) {
        let k = if choose(2) == 1 { "m" } else { k };
        assume(l.iter().all(|(o, _): &(&str, &str)| *o != k));
        l.push((k, t01()));
    }
    l.sort();
    let m = l.iter().copied().collect();
    (l, m)
}
struct Parts {
    kind: u8,
    name: &'static str,
    attrs: Vec<(&'static str, &'static str)>,
    kids: Vec<Parts>,
}
fn any_html(depth: u8) -> (Parts, HTMLNode<&'static str>) {
    let kind = choose(6);
    let name = t01();
    if kind < 3 {
        let n = match kind {
            0 => HTMLNode::Text(name),
            1 => HTMLNode::Comment(name),
            _ => HTMLNode::Doctype(name),
        };
        return (Parts { kind, name, attrs: vec![], kids: vec![] }, n);
    }
    let (l, attrs) = if depth == 0 { map01() } else { (vec![], BTreeMap::new()) };
    if kind == 3 {
        return (Parts { kind, name, attrs: l, kids: vec![] }, HTMLNode::Void { name, attrs });
    }
    if kind == 4 {
        let content = t01();
        let c = Parts { kind: 9, name: content, attrs: vec![], kids: vec![] };
        return (Parts { kind, name, attrs: l, kids: vec![c] }, HTMLNode::RawElement { name, attrs, content });
    }
    let (mut kids, mut children) = (vec![], vec![]);
    if depth == 0 {
        for _ in 0..choose(2) {
            let (p, n) = any_html(1);
            kids.push(p);
            children.push(n);
        }
    }
    (Parts { kind, name, attrs: l, kids }, HTMLNode::Element { name, attrs, children })
}
fn alike(a: &Parts, b: &Parts) -> bool {
    if a.kind != b.kind || a.attrs.len() != b.attrs.len() || a.kids.len() != b.kids.len() {
        return false;
    }
    let mut r = same(a.name.as_bytes(), b.name.as_bytes());
    for ((k, x), (l, y)) in a.attrs.iter().zip(&b.attrs) {
        r &= (k == l) & same(x.as_bytes(), y.as_bytes());
    }
    for (x, y) in a.kids.iter().zip(&b.kids) {
        r &= alike(x, y);
    }
    r
}
/// Two HTML nodes are equal exactly when they are of the same kind with the same parts.
#[no_mangle]
pub extern "C" fn h_c23_html() {
    let ((p, a), (q, b)) = (any_html(0), any_html(0));
    show("nodes", &(&a, &b));
    let eq = alike(&p, &q);
    check((a == b) == eq, 900);
    check((a != b) == !eq, 901);
    check((b == a) == eq, 902);
    if eq {
        reach(2);
    }
    reach(1);
}
/// A copy of an HTML node is equal to it, part by part, and so is what a copied document yields.
#[no_mangle]
pub extern "C" fn h_c23_clone() {
    let (_, a) = any_html(0);
    show("node", &a);
    let b = a.clone();
    check(a == b, 903);
    check(html_same(&a, &b), 904);
    let s = soup(vec![a.clone(), HTMLNode::Text("t")]);
    let c = s.clone();
    let mut n = 0;
    let mut i = c.iter();
    for q in s.iter() {
        match i.next() {
            Some(x) => check(html_same(&q, &x), 905),
            None => check(false, 905),
        }
        n += 1;
    }
    check(i.next().is_none(), 906);
    check(n == a.descendants().count() + 1, 907);
    drop(s);
    check(c.tag(true).all().count() <= n, 908);
    let q = c.recursive().first();
    if let Some(q) = q {
        let r = q.clone();
        check(std::ptr::eq(&*q, &*r), 909);
        check(html_same(&q, &a), 910);
    }
    reach(1);
}
fn html_same(a: &HTMLNode<&str>, b: &HTMLNode<&str>) -> bool {
    let at = |x: &BTreeMap<&str, &str>, y: &BTreeMap<&str, &str>| {
        let mut r = x.len() == y.len();
        for ((k, v), (l, w)) in x.iter().zip(y) {
            r &= same(k.as_bytes(), l.as_bytes()) & same(v.as_bytes(), w.as_bytes());
        }
        r
    };
    match (a, b) {
        (HTMLNode::Text(x), HTMLNode::Text(y))
        | (HTMLNode::Comment(x), HTMLNode::Comment(y))
        | (HTMLNode::Doctype(x), HTMLNode::Doctype(y)) => same(x.as_bytes(), y.as_bytes()),
        (HTMLNode::Void { name: x, attrs: m }, HTMLNode::Void { name: y, attrs: n }) => {
            same(x.as_bytes(), y.as_bytes()) & at(m, n)
        }
        (
            HTMLNode::RawElement { name: x, attrs: m, content: c },
            HTMLNode::RawElement { name: y, attrs: n, content: d },
        ) => same(x.as_bytes(), y.as_bytes()) & at(m, n) & same(c.as_bytes(), d.as_bytes()),
        (
            HTMLNode::Element { name: x, attrs: m, children: c },
            HTMLNode::Element { name: y, attrs: n, children: d },
        ) => {
            let mut r = same(x.as_bytes(), y.as_bytes()) & at(m, n) & (c.len() == d.len());
            for (x, y) in c.iter().zip(d) {
                r &= html_same(x, y);
            }
            r
        }
        _ => false,
    }
}
fn any_xml(deep: bool) -> (Vec<Vec<u8>>, XMLNode) {
    let o = |s: &'static str| s.to_string();
    let kind = choose(6);
    let a = t01();
    let mut p = vec![vec![kind], v(a)];
    let n = match kind {
        0 => XMLNode::Text(o(a)),
        1 => XMLNode::Comment(o(a)),
        2 => XMLNode::CData(o(a)),
        3 => XMLNode::ProcessingInstruction(o(a), None),
        4 => {
            let b = t01();
            p.push(v(b));
            XMLNode::ProcessingInstruction(o(a), Some(o(b)))
        }
        _ => {
            let mut e = XMLElement { name: o(a), ..Default::default() };
            if deep {
                let c = choose(4);
                p.push(vec![c]);
                let b = t01();
                match c {
                    1 => e.prefix = Some(o(b)),
                    2 => e.namespace = Some(o(b)),
                    3 => {
                        e.attributes.insert("k".into(), o(b));
                    }
                    _ => {}
                }
                if c > 0 {
                    p.push(v(b));
                }
                let k = choose(2);
                p.push(vec![k]);
                if k == 1 {
                    let (q, x) = any_xml(false);
                    p.extend(q);
                    e.children.push(x);
                }
            }
            XMLNode::Element(e)
        }
    };
    (p, n)
}
fn v(s: &str) -> Vec<u8> {
    s.as_bytes().to_vec()
}
/// The same for XML nodes.
#[no_mangle]
pub extern "C" fn h_c23_xml() {
    let ((p, a), (q, b)) = (any_xml(true), any_xml(true));
    show("nodes", &(&a, &b));
    let mut eq = p.len() == q.len();
    for (x, y) in p.iter().zip(&q) {
        eq = eq && same(x, y);
    }
    check((a == b) == eq, 911);
    check((a != b) == !eq, 912);
    let c = a.clone();
    check(c == a, 913);
    check((c == b) == eq, 914);
    if eq {
        reach(2);
    }
    reach(1);
}
/// Which parts the element has; texts of one free byte.
fn full_xml(depth: u8) -> XMLElement {
    let t = || {
        let b = byte();
        assume(b < 0x80);
        (b as char).to_string()
    };
    let mut e = XMLElement { name: t(), ..Default::default() };
    let m = choose(8);
    if m & 1 != 0 {
        e.prefix = Some(t());
    }
    if m & 2 != 0 {
        e.namespace = Some(t());
    }
    if m & 4 != 0 {
        let mut n = xmltree::Namespace::empty();
        for k in ["", "p", "q"].iter().take(choose(4) as usize) {
            n.force_put(*k, t());
        }
        e.namespaces = Some(n);
    }
    for k in ["k", "l"].iter().take(choose(3) as usize) {
        e.attributes.insert(k.to_string(), t());
    }
    for i in 0..choose(3) {
        e.children.push(match i {
            0 if depth > 0 => XMLNode::Element(full_xml(depth - 1)),
            0 => XMLNode::ProcessingInstruction(t(), if choose(2) == 1 { Some(t()) } else { None }),
            _ => match choose(3) {
                0 => XMLNode::Text(t()),
                1 => XMLNode::Comment(t()),
                _ => XMLNode::CData(t()),
            },
        });
    }
    e
}
fn opt(a: &Option<String>, b: &Option<String>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => same(a.as_bytes(), b.as_bytes()),
        (a, b) => a.is_none() == b.is_none(),
    }
}
fn maps(a: &BTreeMap<String, String>, b: &BTreeMap<String, String>) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|((k, v), (l, w))| same(k.as_bytes(), l.as_bytes()) && same(v.as_bytes(), w.as_bytes()))
}
fn xml_same(a: &XMLNode, b: &XMLNode) -> bool {
    match (a, b) {
        (XMLNode::Text(x), XMLNode::Text(y))
        | (XMLNode::Comment(x), XMLNode::Comment(y))
        | (XMLNode::CData(x), XMLNode::CData(y)) => same(x.as_bytes(), y.as_bytes()),
        (XMLNode::ProcessingInstruction(x, c), XMLNode::ProcessingInstruction(y, d)) => {
            same(x.as_bytes(), y.as_bytes()) && opt(c, d)
        }
        (XMLNode::Element(x), XMLNode::Element(y)) => {
            same(x.name.as_bytes(), y.name.as_bytes())
                && opt(&x.prefix, &y.prefix)
                && opt(&x.namespace, &y.namespace)
                && match (&x.namespaces, &y.namespaces) {
                    (Some(x), Some(y)) => maps(&x.0, &y.0),
                    (x, y) => x.is_none() == y.is_none(),
                }
                && maps(&x.attributes, &y.attributes)
                && x.children.len() == y.children.len()
                && x.children.iter().zip(&y.children).all(|(x, y)| xml_same(x, y))
        }
        _ => false,
    }
}
fn copied(e: XMLElement) {
    let a = XMLNode::Element(e);
    show("node", &a);
    let b = a.clone();
    check(xml_same(&a, &b), 920);
    check(a == b, 921);
    if let XMLNode::Element(e) = &a {
        let mut f = XMLElement::default();
        f.clone_from(e);
        check(xml_same(&a, &XMLNode::Element(f)), 922);
    }
    reach(1);
}
#[no_mangle]
pub extern "C" fn h_c23_xmlclone() {
    copied(full_xml(0))
}
#[no_mangle]
pub extern "C" fn h_c23_xmldeep() {
    let mut e = XMLElement { name: "r".into(), ..Default::default() };
    e.children.push(XMLNode::Element(full_xml(0)));
    let mut f = XMLElement { name: "s".into(), prefix: Some("p".into()), ..Default::default() };
    f.children = vec![XMLNode::Text("t".into()), XMLNode::Element(e)];
    copied(f)
}
/// Changing any one part of an element that may have all of them makes it another one.
#[no_mangle]
pub extern "C" fn h_c23_xmldiff() {
    let e = full_xml(0);
    let mut f = e.clone();
    let x = byte();
    assume(x < 0x80);
    let x = (x as char).to_string();
    let k = choose(13);
    let o = |p: &mut Option<String>| {
        *p = match p.take() {
            None => Some(x.clone()),
            Some(p) => {
                assume(!same(p.as_bytes(), x.as_bytes()));
                if choose(2) == 1 { Some(x.clone()) } else { None }
            }
        }
    };
    match k {
        0 => {
            assume(!same(f.name.as_bytes(), x.as_bytes()));
            f.name = x;
        }
        1 => o(&mut f.prefix),
        2 => o(&mut f.namespace),
        3 => match f.namespaces.take() {
            None => f.namespaces = Some(xmltree::Namespace::empty()),
            Some(_) => {}
        },
        4 => {
            let Some(n) = &mut f.namespaces else { return assume(false) };
            n.force_put("z", x);
        }
        5 => {
            let Some(n) = &mut f.namespaces else { return assume(false) };
            let Some((_, w)) = n.0.iter_mut().last() else { return assume(false) };
            assume(!same(w.as_bytes(), x.as_bytes()));
            *w = x;
        }
        6 => {
            f.attributes.insert("z".into(), x);
        }
        7 => {
            let Some((_, w)) = f.attributes.iter_mut().last() else { return assume(false) };
            assume(!same(w.as_bytes(), x.as_bytes()));
            *w = x;
        }
        8 => {
            let Some(w) = f.attributes.remove("k") else { return assume(false) };
            f.attributes.insert("K".into(), w);
        }
        9 => f.children.push(XMLNode::Text(x)),
        10 => {
            if f.children.pop().is_none() {
                assume(false);
            }
        }
        11 => match f.children.last_mut() {
            Some(XMLNode::Text(w)) | Some(XMLNode::Comment(w)) | Some(XMLNode::CData(w)) => {
                assume(!same(w.as_bytes(), x.as_bytes()));
                *w = x;
            }
            Some(XMLNode::ProcessingInstruction(_, w)) => o(w),
            _ => assume(false),
        },
        _ => {
            let w = match f.children.pop() {
                Some(XMLNode::Text(w)) => XMLNode::Comment(w),
                Some(XMLNode::Comment(w)) => XMLNode::CData(w),
                Some(XMLNode::CData(w)) => XMLNode::Text(w),
                _ => return assume(false),
            };
            f.children.push(w);
        }
    }
    let (mut a, mut b) = (XMLNode::Element(e), XMLNode::Element(f));
    if choose(2) == 1 {
        let up = |n: XMLNode| {
            XMLNode::Element(XMLElement { name: "r".into(), children: vec![n], ..Default::default() })
        };
        a = up(a);
        b = up(b);
    }
    show("nodes", &(&a, &b));
    check(a != b, 923);
    check(!(a == b), 924);
    check(!(b == a), 925);
    reach(1);
}
/// An element with up to 3 attributes and 3 children of any kind and depth.
fn full_html(depth: u8) -> HTMLNode<&'static str> {
    let t = || {
        let b = byte();
        assume(b < 0x80);
        let s: &'static str = st(Box::leak(Box::new([b])));
        s
    };
    let mut attrs = BTreeMap::new();
    for k in ["k", "l"].iter().take(choose(3) as usize) {
        attrs.insert(*k, t());
    }
    match choose(3) {
        0 => HTMLNode::Void { name: t(), attrs },
        1 => HTMLNode::RawElement { name: t(), attrs, content: t() },
        _ => {
            let mut children = vec![];
            for i in 0..choose(4) {
                children.push(match i {
                    0 if depth > 0 => full_html(depth - 1),
                    0 | 3 => HTMLNode::Text(t()),
                    1 => HTMLNode::Comment(t()),
                    _ => HTMLNode::Doctype(t()),
                });
            }
            HTMLNode::Element { name: t(), attrs, children }
        }
    }
}
#[no_mangle]
pub extern "C" fn h_c23_htmldiff() {
    let a = full_html(1);
    let mut b = a.clone();
    check(html_same(&a, &b), 926);
    check(a == b, 927);
    let x = byte();
    assume(x < 0x80);
    let x: &'static str = st(Box::leak(Box::new([x])));
    let mut at: &mut HTMLNode<&'static str> = &mut b;
    if choose(2) == 1 {
        let HTMLNode::Element { children, .. } = at else { return assume(false) };
        let Some(c) = children.first_mut() else { return assume(false) };
        at = c;
    }
    let k = choose(8);
    match k {
        0 => match at {
            HTMLNode::Void { name, .. } | HTMLNode::RawElement { name, .. } | HTMLNode::Element { name, .. } => {
                assume(!same(name.as_bytes(), x.as_bytes()));
                *name = x;
            }
            _ => assume(false),
        },
        1..=3 => match at {
            HTMLNode::Void { attrs, .. } | HTMLNode::RawElement { attrs, .. } | HTMLNode::Element { attrs, .. } => {
                if k == 1 {
                    attrs.insert("z", x);
                } else if k == 2 {
                    let Some((_, w)) = attrs.iter_mut().last() else { return assume(false) };
                    assume(!same(w.as_bytes(), x.as_bytes()));
                    *w = x;
                } else {
                    let Some(w) = attrs.remove("k") else { return assume(false) };
                    attrs.insert("K", w);
                }
            }
            _ => assume(false),
        },
        4 => match at {
            HTMLNode::Text(w) | HTMLNode::Comment(w) | HTMLNode::Doctype(w) | HTMLNode::RawElement { content: w, .. } => {
                assume(!same(w.as_bytes(), x.as_bytes()));
                *w = x;
            }
            _ => assume(false),
        },
        5 => match at {
            HTMLNode::Element { children, .. } => children.push(HTMLNode::Text(x)),
            _ => assume(false),
        },
        6 => match at {
            HTMLNode::Element { children, .. } => {
                if children.pop().is_none() {
                    assume(false);
                }
            }
            _ => assume(false),
        },
        _ => {
            *at = match at.clone() {
                HTMLNode::Text(w) => HTMLNode::Comment(w),
                HTMLNode::Comment(w) => HTMLNode::Doctype(w),
                HTMLNode::Doctype(w) => HTMLNode::Text(w),
                HTMLNode::Void { name, attrs } => HTMLNode::Element { name, attrs, children: vec![] },
                HTMLNode::RawElement { name, attrs, content } => {
                    HTMLNode::Element { name, attrs, children: vec![HTMLNode::Text(content)] }
                }
                HTMLNode::Element { name, attrs, .. } => HTMLNode::Void { name, attrs },
            };
        }
    }
    show("nodes", &(&a, &b));
    check(a != b, 928);
    check(!(a == b), 929);
    check(!(b == a), 930);
    reach(1);
}
/// A parser of the user's own: the document is what it gives, or its error.
struct Own;
impl Parser for Own {
    type Input = (u8, Vec<u8>);
    type Node = HTMLNode<u8>;
    type Error = (u8, usize);
    fn parse((fail, l): (u8, Vec<u8>)) -> Result<Vec<HTMLNode<u8>>, (u8, usize)> {
        if fail > 7 {
            Err((fail, l.len()))
        } else {
            Ok(l.into_iter().map(HTMLNode::Text).collect())
        }
    }
}
#[no_mangle]
pub extern "C" fn h_c23_own() {
    let n = choose(4) as usize;
    let l: Vec<u8> = (0..n).map(|_| byte()).collect();
    let fail = byte();
    match Soup::new::<Own>((fail, l.clone())) {
        Ok(s) => {
            check(fail <= 7, 915);
            let mut i = 0;
            for q in s.iter() {
                check(i < n, 916);
                check(q.text().map_or(false, |t| *t == l[i]), 917);
                i += 1;
            }
            check(i == n, 918);
            reach(1);
        }
        Err((f, k)) => {
            check((fail > 7) & (f == fail) & (k == n), 919);
            reach(2);
        }
    }
}
/// The same with nodes of every kind: none is dropped, joined or changed.
struct OwnAny;
impl Parser for OwnAny {
    type Input = Vec<HTMLNode<&'static str>>;
    type Node = HTMLNode<&'static str>;
    type Error = ();
    fn parse(l: Vec<HTMLNode<&'static str>>) -> Result<Vec<HTMLNode<&'static str>>, ()> {
        Ok(l)
    }
}
#[no_mangle]
pub extern "C" fn h_c23_ownany() {
    let mut l = vec![];
    for _ in 0..choose(4) {
        l.push(match choose(6) {
            0 => HTMLNode::Text(t01()),
            1 => HTMLNode::Comment(t01()),
            2 => HTMLNode::Doctype(t01()),
            3 => HTMLNode::Void { name: t01(), attrs: [].into() },
            4 => HTMLNode::RawElement { name: t01(), attrs: [].into(), content: "" },
            _ => HTMLNode::Element { name: t01(), attrs: [].into(), children: vec![] },
        });
    }
    show("nodes", &l);
    match Soup::new::<OwnAny>(l.clone()) {
        Ok(s) => {
            let (mut i, mut j) = (0, 0);
            for q in s.iter() {
                check(i < l.len() && html_same(&q, &l[i]), 931);
                i += 1;
            }
            for q in s.strict().all() {
                check(j < l.len() && html_same(&q, &l[j]), 932);
                j += 1;
            }
            check((i == l.len()) & (j == l.len()), 933);
        }
        Err(()) => check(false, 934),
    }
    reach(1);
}
harnesses!(
    h_c23_ownany, h_c01_known, h_c02_known, h_c03_known, h_c07_known, h_c08_known, h_c09_known,
    h_c02_huge, h_c03_huge, h_c07_huge, h_c08_huge, h_c23_html, h_c23_clone, h_c23_xml, h_c23_own, h_c23_xmlclone, h_c23_xmldeep, h_c23_xmldiff, h_c23_htmldiff,
    h_c05_known, h_c06_known,
    h_c03_clone, h_c03_clone4, h_c02_real, h_c04_zero,
    h_c06_huge, h_c06_regexlong, h_c05_many,
    h_c08_6,
    h_c07_7,
    h_c04_order5,
    h_c03_5,
    h_c02_7,
    h_c01_forest10,
    h_c01_consume, h_c01_consume5, h_c01_consume6, h_c01_big, h_c01_huge, h_c02_big, h_c03_big, h_c07_big, h_c08_big,
    h_c02_consume, h_c02_consume4, h_c02_consume5, h_c01_forest6, h_c01_forest7, h_c01_forest8, h_c01_large, h_c01_html, h_c01_xml, h_c02_4, h_c02_5, h_c02_6,
    h_c02_lit, h_c02_large, h_c03_3, h_c03_4, h_c03_bare, h_c04_bool, h_c04_order, h_c04_order4, h_c04_repeat,
    h_c05_2, h_c05_3, h_c05_short, h_c05_class, h_c05_none, h_c06_eq, h_c06_long, h_c06_other, h_c06_regex, h_c07_4,
    h_c07_5, h_c07_real, h_c08_4, h_c08_5, h_c08_real, h_c08_get, h_c08_get3, h_c09_html, h_c09_xml,
);
