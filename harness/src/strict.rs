//! C10-C15: the strict HTML parser.
mod local;
mod rt;
mod tree;
use local::known_name;
use rt::*;
use soupy::prelude::*;
use tree::*;

fn put(d: &mut Vec<u8>, s: &str) {
    d.extend_from_slice(s.as_bytes());
}
fn has(h: &[u8], n: &[u8]) -> bool {
    let mut r = false;
    for i in 0..(h.len() + 1).saturating_sub(n.len()) {
        r |= same(&h[i..i + n.len()], n);
    }
    r
}
fn has_nocase(h: &[u8], n: &[u8]) -> bool {
    let mut r = false;
    for i in 0..(h.len() + 1).saturating_sub(n.len()) {
        r |= same_nocase(&h[i..i + n.len()], n);
    }
    r
}
fn has_byte(h: &[u8], c: &[u8]) -> bool {
    let mut r = false;
    for b in h {
        r |= is_in(*b, c);
    }
    r
}
/// `s` with every letter in either case.
fn any_case(d: &mut Vec<u8>, s: &str) {
    for c in s.bytes() {
        let b = byte();
        assume(lower(b) == c);
        d.push(b);
    }
}

// ---------- C10 ----------
fn total(d: &[u8]) {
    let s = st(d);
    show("document", &s);
    match Soup::html_strict(s) {
        Ok(soup) => {
            reach(1);
            let mut n = 0u64;
            for q in &soup {
                n += 1;
                if let Some(x) = q.name() {
                    obs(x.as_bytes());
                }
                if let Some(x) = q.text() {
                    obs(x.as_bytes());
                }
                for c in q.children() {
                    obs1(c.children().len() as u64);
                }
                let _ = q.get("a");
            }
            obs1(n);
            let m = soup.tag(true).all().count() as u64;
            check(m <= n, 400);
            for q in soup.tag("a").attr_name("b") {
                let sub = q.query();
                obs1(sub.tag(true).all().count() as u64);
            }
            for q in soup.strict().all() {
                obs(q.all_text().as_bytes());
            }
        }
        Err(_) => reach(2),
    }
}
fn any(n: usize) {
    warm();
    let mut d = vec![];
    utf8(&mut d, n);
    total(&d);
}
#[no_mangle]
pub extern "C" fn h_c10_any3() {
    any(choose(4) as usize)
}
#[no_mangle]
pub extern "C" fn h_c10_any4() {
    any(4)
}
#[no_mangle]
pub extern "C" fn h_c10_any5() {
    any(5)
}
#[no_mangle]
pub extern "C" fn h_c10_any6() {
    any(6)
}
const HOLES: [(&str, &str); 24] = [
    ("<a ", "></a>"),
    ("<a b", ">x</a>"),
    ("<a b=", "></a>"),
    ("<a b='", "'></a>"),
    ("<a b=\"", "\"></a>"),
    ("<a b=c", ">"),
    ("<a>", "</a>"),
    ("<a></", ">"),
    ("<a></a", ">"),
    ("<a", ">"),
    ("<br", ">"),
    ("<br ", "/>"),
    ("<lin", "></lin>"),
    ("<script>", "</script>"),
    ("<script>", ""),
    ("<style", "></style>"),
    ("<script></scrip", ">"),
    ("<!--", "-->"),
    ("<!-", ">"),
    ("<!doctype ", ">"),
    ("<!doc", ""),
    ("&", ";"),
    ("&#", ";"),
    ("&#x", ";&amp"),
];
fn hole(i: usize, n: usize) {
    warm();
    let (a, z) = HOLES[i];
    let mut d = a.as_bytes().to_vec();
    utf8(&mut d, n);
    put(&mut d, z);
    total(&d);
}
#[no_mangle]
pub extern "C" fn h_c10_hole2() {
    let i = choose(HOLES.len() as u8) as usize;
    hole(i, choose(3) as usize)
}
#[no_mangle]
pub extern "C" fn h_c10_hole3() {
    hole(choose(HOLES.len() as u8) as usize, 3)
}
#[no_mangle]
pub extern "C" fn h_c10_hole4() {
    hole(choose(HOLES.len() as u8) as usize, 4)
}
/// Deep nesting and many siblings.
#[no_mangle]
pub extern "C" fn h_c10_deep() {
    warm();
    let n = choose(25) as usize;
    let k = choose(3);
    let mut d = vec![];
    for _ in 0..n {
        put(&mut d, "<a b=c>");
        if k > 0 {
            put(&mut d, "x<br>");
        }
    }
    utf8(&mut d, 1);
    if k < 2 {
        for _ in 0..n {
            put(&mut d, "</A>");
        }
    }
    total(&d);
}

// ---------- C11 ----------
/// One segment; `plain` holds whether the previous one was text.
fn segment(d: &mut Vec<u8>, want: &mut Vec<X>, kind: u8, n: usize, wide: bool) {
    let mut c = vec![];
    let utf8 = |c: &mut Vec<u8>, n: usize| if wide { utf8(c, n) } else { c.extend(bytes_ascii(n)) };
    match kind {
        0 => {
            utf8(&mut c, n + 1);
            assume(!has_byte(&c, b"<&"));
            d.extend_from_slice(&c);
            // neighbouring text is one text node
            if let Some(T(t)) = want.last_mut() {
                t.extend_from_slice(&c);
            } else {
                want.push(T(c));
            }
        }
        1 => {
            utf8(&mut c, n);
            comment_ok(&c);
            put(d, "<!--");
            d.extend_from_slice(&c);
            put(d, "-->");
            want.push(C(c));
        }
        2 => {
            utf8(&mut c, n);
            assume(!has_byte(&c, b">"));
            put(d, "<!");
            if wide {
                any_case(d, "doctype");
            } else {
                put(d, "DOCTYPE");
            }
            put(d, " ");
            d.extend_from_slice(&c);
            put(d, ">");
            want.push(D(c));
        }
        _ => {
            utf8(&mut c, n + 1);
            assume(!has_byte(&c, b"<&"));
            put(d, "<p><i></i>");
            d.extend_from_slice(&c);
            put(d, "<br></p>");
            want.push(E(v("p"), vec![], vec![E(v("i"), vec![], vec![]), T(c), V(v("br"), vec![])]));
        }
    }
}
/// Comment contents that every reading of HTML agrees on.
fn comment_ok(c: &[u8]) {
    assume(!has(c, b"-->"));
    assume(!has(c, b"--!>"));
    if !c.is_empty() {
        assume(c[0] != b'>');
        if c.len() > 1 {
            assume(!((c[0] == b'-') & (c[1] == b'>')));
        }
    }
    // the terminator itself must not begin earlier
    let mut w = c.to_vec();
    put(&mut w, "--");
    assume(!has(&w, b"-->"));
}
fn segments(k: usize, n: usize) {
    warm();
    let mut d = vec![];
    let mut want = vec![];
    let inside = choose(2) == 1;
    if inside {
        put(&mut d, "<div>");
    }
    for _ in 0..k {
        let kind = choose(4);
        segment(&mut d, &mut want, kind, n, false);
    }
    if inside {
        put(&mut d, "</div>");
        want = vec![E(v("div"), vec![], want)];
    }
    strict_is(&d, &want, 410);
    reach(1);
}
#[no_mangle]
pub extern "C" fn h_c11_seq2() {
    segments(2, 2)
}
#[no_mangle]
pub extern "C" fn h_c11_seq3() {
    segments(3, 1)
}
#[no_mangle]
pub extern "C" fn h_c11_seq4() {
    segments(4, 1)
}
#[no_mangle]
pub extern "C" fn h_c11_seq2l() {
    segments(2, 3)
}
/// One segment with longer contents, between fixed markup.
fn one(kind: u8, n: usize) {
    warm();
    let mut d = vec![];
    let mut want = vec![];
    put(&mut d, "<b></b>");
    want.push(E(v("b"), vec![], vec![]));
    segment(&mut d, &mut want, kind, n, true);
    put(&mut d, "<!--z-->");
    want.push(C(v("z")));
    strict_is(&d, &want, 420);
    reach(1);
}
#[no_mangle]
pub extern "C" fn h_c11_text() {
    let n = choose(5) as usize;
    one(0, n)
}
#[no_mangle]
pub extern "C" fn h_c11_comment() {
    let n = choose(6) as usize;
    one(1, n)
}
#[no_mangle]
pub extern "C" fn h_c11_doctype() {
    let n = choose(5) as usize;
    one(2, n)
}
#[no_mangle]
pub extern "C" fn h_c11_comment7() {
    one(1, 6 + choose(2) as usize)
}
#[no_mangle]
pub extern "C" fn h_c11_text7() {
    one(0, 6)
}
#[no_mangle]
pub extern "C" fn h_c11_doctype7() {
    one(2, 5 + choose(3) as usize)
}
/// Comments and doctypes without an end, and a `<` that opens nothing, are errors: nothing is dropped.
#[no_mangle]
pub extern "C" fn h_c11_open() {
    warm();
    let k = choose(5);
    let n = choose(4) as usize;
    let mut c = vec![];
    utf8(&mut c, n);
    let mut d = v("x");
    match k {
        0 => {
            assume(!has(&c, b"-->"));
            put(&mut d, "<!--");
            d.extend_from_slice(&c);
            // `<!-->` and `<!--->` are complete comments for an HTML5 tokenizer
            assume(!has(&d, b"<!-->") & !has(&d, b"<!--->") & !has(&d, b"--!>"));
        }
        1 => {
            assume(!has_byte(&c, b">"));
            put(&mut d, "<!doctype ");
            d.extend_from_slice(&c);
        }
        2 => {
            assume(!has_byte(&c, b">"));
            put(&mut d, "<b></b><i");
            d.extend_from_slice(&c);
        }
        3 => {
            assume(!has_byte(&c, b"<>"));
            put(&mut d, "</b");
            d.extend_from_slice(&c);
            put(&mut d, ">");
        }
        _ => {
            assume(!has_byte(&c, b">"));
            put(&mut d, "<b>y</b");
            d.extend_from_slice(&c);
        }
    }
    strict_fails(&d, 430);
    reach(1);
}
/// Any text at the very beginning or end of a document, or of an element.
fn edges(n: usize) {
    warm();
    let mut c = vec![];
    utf8(&mut c, n);
    assume(!has_byte(&c, b"<&"));
    let (a, mut wa, z, wz) = match choose(5) {
        0 => ("", vec![], "", vec![]),
        1 => ("", vec![], "<b></b>", vec![E(v("b"), vec![], vec![])]),
        2 => ("", vec![], "<!--x-->", vec![C(v("x"))]),
        3 => ("<br>", vec![V(v("br"), vec![])], "", vec![]),
        _ => ("<!doctype a>", vec![D(v("a"))], "<!DOCTYPE b>", vec![D(v("b"))]),
    };
    let inside = choose(2) == 1;
    let mut d = v(if inside { "<p>" } else { "" });
    put(&mut d, a);
    d.extend_from_slice(&c);
    put(&mut d, z);
    if n > 0 {
        wa.push(T(c));
    }
    wa.extend(wz);
    if inside {
        put(&mut d, "</p>");
        wa = vec![E(v("p"), vec![], wa)];
    }
    strict_is(&d, &wa, 446);
    reach(1);
}
#[no_mangle]
pub extern "C" fn h_c11_edges() {
    edges(choose(5) as usize)
}
#[no_mangle]
pub extern "C" fn h_c11_edges6() {
    edges(5 + choose(2) as usize)
}
/// Whatever is accepted is represented completely: the nodes account for every byte of the text.
fn cover(n: usize, m: usize) {
    warm();
    let mut d = bytes_ascii(n);
    put(&mut d, "<b>");
    let x = bytes_ascii(m);
    d.extend_from_slice(&x);
    put(&mut d, "</b>");
    let x = bytes_ascii(m);
    d.extend_from_slice(&x);
    assume(!has_byte(&d, b"&\"'"));
    let s = st(&d);
    show("document", &s);
    if let Ok(soup) = Soup::html_strict(s) {
        let mut at = 0;
        for q in soup.strict().all() {
            eat(&d, &mut at, &*q);
        }
        check(at == d.len(), 440);
        reach(1);
    }
}
fn bytes_ascii(n: usize) -> Vec<u8> {
    let mut d = vec![];
    for _ in 0..n {
        let b = byte();
        assume(b < 0x80);
        d.push(b);
    }
    d
}
fn expect(d: &[u8], at: &mut usize, s: &[u8]) {
    check(*at + s.len() <= d.len(), 441);
    check(same_nocase(&d[*at..*at + s.len()], s), 442);
    *at += s.len();
}
/// To just after the end of a tag (no quotes in the text).
fn tag_end(d: &[u8], at: &mut usize) -> bool {
    while d[*at] != b'>' {
        *at += 1;
    }
    *at += 1;
    d[*at - 2] == b'/'
}
fn eat(d: &[u8], at: &mut usize, n: &Cows) {
    use soupy::parser::HTMLNode::*;
    match n {
        Text(t) => {
            check(same(&d[*at..*at + t.len()], t.as_bytes()), 443);
            expect(d, at, t.as_bytes())
        }
        Comment(t) => {
            expect(d, at, b"<!--");
            expect(d, at, t.as_bytes());
            expect(d, at, b"-->");
        }
        Doctype(t) => {
            expect(d, at, b"<!doctype ");
            expect(d, at, t.as_bytes());
            expect(d, at, b">");
        }
        Void { name, .. } => {
            expect(d, at, b"<");
            expect(d, at, name.as_bytes());
            tag_end(d, at);
        }
        Element { name, children, .. } => {
            expect(d, at, b"<");
            expect(d, at, name.as_bytes());
            if tag_end(d, at) {
                check(children.is_empty(), 444);
                return;
            }
            for c in children {
                eat(d, at, c);
            }
            expect(d, at, b"</");
            expect(d, at, name.as_bytes());
            tag_end(d, at);
        }
        RawElement { .. } => check(false, 445),
    }
}
#[no_mangle]
pub extern "C" fn h_c11_cover() {
    cover(3, 1)
}
#[no_mangle]
pub extern "C" fn h_c11_cover5() {
    cover(5, 1)
}
#[no_mangle]
pub extern "C" fn h_c11_cover32() {
    cover(3, 2)
}

// ---------- C12 ----------
fn letter() -> u8 {
    let b = byte();
    assume(alpha(b));
    b
}
/// A symbolic ordinary tag name of `n` letters.
fn name(n: usize) -> Vec<u8> {
    let mut d = vec![];
    for _ in 0..n {
        d.push(letter());
    }
    assume(!one_of(&d, &VOID));
    d
}
/// A name of letters that no void or raw element begins with.
fn name_pq(n: usize) -> Vec<u8> {
    (0..n).map(|_| among(b"pqPQ")).collect()
}
/// Token sequences against a stack machine.
fn tokens(k: usize, len: u8, ws: bool) {
    warm();
    let mut d: Vec<u8> = vec![];
    // the open elements: name and finished content
    let mut open: Vec<(Vec<u8>, Vec<X>)> = vec![];
    let mut cur: Vec<X> = vec![];
    let mut good = true;
    let mut last_text = false;
    for _ in 0..k {
        let kind = choose(if last_text { 3 } else { 4 });
        last_text = kind == 3;
        if kind == 3 {
            let b = byte();
            assume((b < 0x80) & (b != b'<') & (b != b'&'));
            d.push(b);
            cur.push(T(vec![b]));
            continue;
        }
        let n = if len == 1 { name(1) } else { name_pq(1 + choose(len) as usize) };
        let sp = if ws && choose(2) == 1 { Some(among(WS)) } else { None };
        put(&mut d, if kind == 1 { "</" } else { "<" });
        d.extend_from_slice(&n);
        if let Some(s) = sp {
            d.push(s);
        }
        put(&mut d, if kind == 2 { "/>" } else { ">" });
        match kind {
            0 => open.push((n, std::mem::take(&mut cur))),
            1 => {
                let ok = match open.last() {
                    Some((o, _)) => same_nocase(o, &n),
                    None => false,
                };
                if good && ok {
                    let (o, before) = open.pop().unwrap();
                    let inner = std::mem::replace(&mut cur, before);
                    cur.push(E(o, vec![], inner));
                } else {
                    good = false;
                }
            }
            _ => cur.push(E(n, vec![], vec![])),
        }
    }
    if good && open.is_empty() {
        strict_is(&d, &cur, 450);
        reach(1);
    } else {
        strict_fails(&d, 461);
        reach(2);
    }
}
#[no_mangle]
pub extern "C" fn h_c12_4() {
    let k = choose(5) as usize;
    tokens(k, 1, false)
}
#[no_mangle]
pub extern "C" fn h_c12_5() {
    tokens(5, 1, false)
}
#[no_mangle]
pub extern "C" fn h_c12_6() {
    tokens(6, 1, false)
}
#[no_mangle]
pub extern "C" fn h_c12_7() {
    tokens(7, 1, false)
}
#[no_mangle]
pub extern "C" fn h_c12_long3() {
    let k = choose(4) as usize;
    tokens(k, 2, true)
}
#[no_mangle]
pub extern "C" fn h_c12_long4() {
    tokens(4, 2, false)
}
/// Chains: every level's end tag is symbolic.
fn chain(n: usize, len: usize) {
    warm();
    let mut d: Vec<u8> = vec![];
    let mut names = vec![];
    for i in 0..n {
        let x = name_pq(len);
        put(&mut d, "<");
        d.extend_from_slice(&x);
        put(&mut d, ">");
        if i % 2 == 1 {
            put(&mut d, "t");
        }
        names.push(x);
    }
    let mut good = true;
    for i in (0..n).rev() {
        let x = name_pq(len);
        put(&mut d, "</");
        d.extend_from_slice(&x);
        put(&mut d, ">");
        good &= same_nocase(&x, &names[i]);
    }
    if good {
        let mut want: Vec<X> = vec![];
        for i in (0..n).rev() {
            if i % 2 == 1 {
                want.insert(0, T(v("t")));
            }
            want = vec![E(names[i].clone(), vec![], want)];
        }
        strict_is(&d, &want, 462);
        reach(1);
    } else {
        strict_fails(&d, 473);
        reach(2);
    }
}
#[no_mangle]
pub extern "C" fn h_c12_chain() {
    let n = 1 + choose(8) as usize;
    chain(n, 2)
}
#[no_mangle]
pub extern "C" fn h_c12_chain14() {
    chain(9 + choose(6) as usize, 3)
}

// ---------- C13 ----------
/// A symbolic attribute name of `n` bytes.
fn attr_name(n: usize, wide: bool) -> Vec<u8> {
    let mut d = vec![];
    if wide {
        utf8(&mut d, n);
    } else {
        for _ in 0..n {
            d.push(byte());
        }
    }
    for b in &d {
        assume((*b > 0x20) & (*b != 0x7f) & !is_in(*b, b"\"'>/=<`&"));
        if !wide {
            assume(*b < 0x80);
        }
    }
    if wide {
        // control characters U+0080-U+009F and noncharacters are no HTML attribute names
        for i in 0..n.saturating_sub(1) {
            assume(!((d[i] == 0xC2) & (d[i + 1] < 0xA0)));
        }
        for i in 0..n.saturating_sub(2) {
            assume(d[i] != 0xEF);
        }
    }
    d
}
fn value(n: usize, style: u8, wide: bool) -> Vec<u8> {
    let mut d = vec![];
    if wide {
        utf8(&mut d, n);
    } else {
        for _ in 0..n {
            let b = byte();
            assume(b < 0x80);
            d.push(b);
        }
    }
    assume(!has_byte(&d, b"&"));
    match style {
        1 => assume(!has_byte(&d, b" \t\n\x0C\r\"'=<>`")),
        2 => assume(!has_byte(&d, b"'")),
        _ => assume(!has_byte(&d, b"\"")),
    }
    d
}
/// Write one attribute in one of four spellings; returns what it must be read as and whether it ends unquoted.
fn attribute(d: &mut Vec<u8>, nl: usize, vl: usize, ws: bool, wide: bool) -> ((Vec<u8>, Vec<u8>), bool) {
    let n = attr_name(nl, wide);
    d.extend_from_slice(&n);
    let style = choose(4);
    if style == 0 {
        return ((n, vec![]), true);
    }
    let sp = |d: &mut Vec<u8>| {
        if ws && choose(2) == 1 {
            d.push(among(WS));
        }
    };
    sp(d);
    d.push(b'=');
    sp(d);
    let x = if style == 1 { value(1 + choose(vl as u8) as usize, 1, wide) } else { value(choose(vl as u8 + 1) as usize, style, wide) };
    match style {
        1 => d.extend_from_slice(&x),
        2 => {
            d.push(b'\'');
            d.extend_from_slice(&x);
            d.push(b'\'');
        }
        _ => {
            d.push(b'"');
            d.extend_from_slice(&x);
            d.push(b'"');
        }
    }
    ((n, x), style == 1)
}
/// A tag with `k` attributes, of an ordinary, void or raw element, open or self-closed.
fn attributes(k: usize, nl: usize, vl: usize, ws: bool, wide: bool) {
    attributes_of(choose(6), k, nl, vl, ws, wide)
}
fn attributes_of(kind: u8, k: usize, nl: usize, vl: usize, ws: bool, wide: bool) {
    warm();
    let mut d = v(["<a", "<a", "<br", "<br", "<script", "<style"][kind as usize]);
    let mut want: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    let mut bare = false;
    for _ in 0..k {
        d.push(among(WS));
        let (a, b) = attribute(&mut d, nl, vl, ws, wide);
        bare = b;
        for o in &want {
            assume(!same_nocase(&o.0, &a.0));
        }
        want.push(a);
    }
    let slash = kind % 2 == 1;
    if (slash && bare) || choose(2) == 1 {
        d.push(among(WS));
    }
    put(&mut d, if slash { "/>" } else { ">" });
    let e = match kind {
        0 => {
            put(&mut d, "x</a>");
            E(v("a"), want, vec![T(v("x"))])
        }
        1 => E(v("a"), want, vec![]),
        2 | 3 => V(v("br"), want),
        4 => {
            put(&mut d, "x</script>");
            R(v("script"), want, v("x"))
        }
        _ => R(v("style"), want, vec![]),
    };
    put(&mut d, "y");
    strict_is(&d, &[e, T(v("y"))], 480);
    reach(1);
}
#[no_mangle]
pub extern "C" fn h_c13_1() {
    attributes(1, 1 + choose(2) as usize, 2, true, false)
}
#[no_mangle]
pub extern "C" fn h_c13_1wide() {
    attributes(1, 1 + choose(3) as usize, 3, false, true)
}
#[no_mangle]
pub extern "C" fn h_c13_1long() {
    attributes(1, 3, 6, false, false)
}
#[no_mangle]
pub extern "C" fn h_c13_2() {
    attributes(2, 1, 1, true, false)
}
#[no_mangle]
pub extern "C" fn h_c13_2long() {
    attributes(2, 2, 2, false, false)
}
#[no_mangle]
pub extern "C" fn h_c13_3() {
    attributes(3, 1, 1, false, false)
}
#[no_mangle]
pub extern "C" fn h_c13_3a() {
    attributes_of(choose(2), 3, 1, 1, false, false)
}
#[no_mangle]
pub extern "C" fn h_c13_2ws() {
    attributes_of(1 + choose(2), 2, 1, 1, true, false)
}
#[no_mangle]
pub extern "C" fn h_c13_3ws() {
    attributes(3, 1, 1, true, false)
}
/// Runs of whitespace of length 2-3 in every position.
#[no_mangle]
pub extern "C" fn h_c13_ws() {
    warm();
    let mut d = v("<a");
    let run = |d: &mut Vec<u8>, min: u8| {
        for _ in 0..min + choose(3) {
            d.push(among(WS));
        }
    };
    run(&mut d, 1);
    let n = attr_name(1, false);
    d.extend_from_slice(&n);
    run(&mut d, 0);
    d.push(b'=');
    run(&mut d, 0);
    put(&mut d, ["v", "'v'", "\"v\""][choose(3) as usize]);
    run(&mut d, 1);
    put(&mut d, "zz");
    run(&mut d, 0);
    put(&mut d, "></a>");
    strict_is(&d, &[E(v("a"), vec![(n, v("v")), (v("zz"), vec![])], vec![])], 500);
    reach(1);
}

// ---------- C14 ----------
const VOID: [&str; 13] =
    ["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"];
fn one_of(n: &[u8], set: &[&str]) -> bool {
    let mut r = false;
    for s in set {
        r |= same_nocase(n, s.as_bytes());
    }
    r
}
fn tag_names(n: &[u8]) {
    let void = one_of(n, &VOID);
    let raw = one_of(n, &["script", "style"]);
    let form = choose(6);
    let mut d = v("<");
    d.extend_from_slice(n);
    let a = if form >= 3 {
        put(&mut d, " k=w");
        vec![(v("k"), v("w"))]
    } else {
        vec![]
    };
    let n = n.to_vec();
    match form % 3 {
        0 => {
            // start tag only
            put(&mut d, ">");
            if void {
                strict_is(&d, &[V(n, a)], 510);
                reach(1);
            } else {
                strict_fails(&d, 521);
                reach(2);
            }
        }
        1 => {
            put(&mut d, ">x</");
            d.extend_from_slice(&n);
            put(&mut d, ">");
            if void {
                // the end tag belongs to nothing
                strict_fails(&d, 522);
                reach(3);
            } else if raw {
                strict_is(&d, &[R(n, a, v("x"))], 523);
                reach(4);
            } else {
                strict_is(&d, &[E(n, a, vec![T(v("x"))])], 534);
                reach(5);
            }
        }
        _ => {
            put(&mut d, if form == 2 { "/>z" } else { " />z" });
            let e = if void {
                V(n, a)
            } else if raw {
                R(n, a, vec![])
            } else {
                E(n, a, vec![])
            };
            strict_is(&d, &[e, T(v("z"))], 545);
            reach(6);
        }
    }
}
fn c14(n: usize) {
    warm();
    let mut d = vec![letter()];
    for _ in 1..n {
        let b = byte();
        assume(alnum(b) | is_in(b, b"-:_."));
        d.push(b);
    }
    show("name", &st(&d));
    tag_names(&d)
}
#[no_mangle]
pub extern "C" fn h_c14_4() {
    c14(1 + choose(4) as usize)
}
#[no_mangle]
pub extern "C" fn h_c14_7() {
    c14(5 + choose(3) as usize)
}
#[no_mangle]
pub extern "C" fn h_c14_12() {
    c14(8 + choose(5) as usize)
}
/// Names that contain one non-ASCII character next to (part of) a void or raw-text element name.
#[no_mangle]
pub extern "C" fn h_c14_utf8() {
    warm();
    let base = ["br", "link", "track", "embed", "script", "style", "img", "k"][choose(8) as usize];
    let cut = choose(base.len() as u8) as usize + 1;
    let mut d = base.as_bytes()[..cut].to_vec();
    let n = 2 + choose(2) as usize;
    utf8(&mut d, n);
    assume(d[cut] >= 0x80);
    if n == 3 {
        assume(d[cut + 2] >= 0x80);
    }
    let skip = choose(2) as usize;
    d.extend_from_slice(&base.as_bytes()[(cut + skip).min(base.len())..]);
    show("name", &st(&d));
    tag_names(&d)
}
/// Void elements take no children: what follows is a sibling.
#[no_mangle]
pub extern "C" fn h_c14_sibling() {
    warm();
    let i = choose(13) as usize;
    let mut d = v("<p><");
    let at = d.len();
    any_case(&mut d, VOID[i]);
    let n = d[at..].to_vec();
    let form = choose(3);
    put(&mut d, [">", "/>", " a=b>"][form as usize]);
    let b = byte();
    assume((b < 0x80) & (b != b'<') & (b != b'&'));
    d.push(b);
    put(&mut d, "<i>u</i></p>");
    let a = if form == 2 { vec![(v("a"), v("b"))] } else { vec![] };
    let want = [E(v("p"), vec![], vec![V(n, a), T(vec![b]), E(v("i"), vec![], vec![T(v("u"))])])];
    strict_is(&d, &want, 556);
    reach(1);
}

// ---------- C15 ----------
fn space(b: u8) -> bool {
    is_in(b, b" \t\n\x0B\x0C\r")
}
/// Trim ASCII whitespace.
fn trim(c: &[u8]) -> &[u8] {
    let (mut a, mut z) = (0, c.len());
    while a < z && space(c[a]) {
        a += 1;
    }
    while z > a && space(c[z - 1]) {
        z -= 1;
    }
    &c[a..z]
}
/// A raw element with the given content, in the middle of a document.
fn raw(el: &str, content: &[u8], plain: bool) {
    let mut d = v("s<");
    let at = d.len();
    any_case(&mut d, el);
    let n = d[at..].to_vec();
    let a = if !plain && choose(2) == 1 {
        put(&mut d, " k='>'");
        vec![(v("k"), v(">"))]
    } else {
        vec![]
    };
    put(&mut d, ">");
    d.extend_from_slice(content);
    put(&mut d, "</");
    any_case(&mut d, el);
    if !plain && choose(2) == 1 {
        d.push(among(WS));
    }
    put(&mut d, ">t<b></b>");
    let s = st(&d);
    show("document", &s);
    match Soup::html_strict(s) {
        Ok(soup) => {
            let mut i = 0;
            for q in soup.strict().all() {
                match i {
                    0 => eq(&*q, &T(v("s")), 570),
                    1 => match &*q {
                        soupy::parser::HTMLNode::RawElement { name, attrs, content: c } => {
                            check(same(name.as_bytes(), &n), 580);
                            check(attrs.len() == a.len(), 581);
                            check(same(trim(c.as_bytes()), trim(content)), 582);
                            // nothing but whitespace may have been taken off, nothing added
                            check(c.len() <= content.len(), 583);
                        }
                        _ => check(false, 584),
                    },
                    2 => eq(&*q, &T(v("t")), 590),
                    3 => eq(&*q, &E(v("b"), vec![], vec![]), 600),
                    _ => check(false, 610),
                }
                i += 1;
            }
            check(i == 4, 611);
            reach(1);
        }
        Err(_) => check(false, 612),
    }
}
/// Is there something the HTML tokenizer takes for the element's end tag?
fn ends(c: &[u8], el: &str) -> bool {
    let mut n = v("</");
    put(&mut n, el);
    let mut r = false;
    for i in 0..(c.len() + 1).saturating_sub(n.len()) {
        let at = same_nocase(&c[i..i + n.len()], &n);
        match c.get(i + n.len()) {
            Some(x) => r |= at & is_in(*x, b" \t\n\x0C\r/>"),
            None => r |= false,
        }
    }
    r
}
fn raw_any(n: usize, wide: bool, plain: bool) {
    warm();
    let el = ["script", "style"][choose(2) as usize];
    let mut c = vec![];
    if wide {
        utf8(&mut c, n);
    } else {
        c = bytes_ascii(n);
    }
    // whether non-ASCII white space (U+0085, U+00A0, U+1680, U+2000-U+205F, U+3000) is taken off is left open
    assume(!has_byte(&c, b"\xC2\xE1\xE2\xE3"));
    assume(!ends(&c, el));
    raw(el, &c, plain)
}
#[no_mangle]
pub extern "C" fn h_c15_any3() {
    raw_any(choose(4) as usize, true, false)
}
#[no_mangle]
pub extern "C" fn h_c15_any5() {
    raw_any(4 + choose(2) as usize, false, true)
}
#[no_mangle]
pub extern "C" fn h_c15_any7() {
    raw_any(6 + choose(2) as usize, false, true)
}
#[no_mangle]
pub extern "C" fn h_c15_wide5() {
    raw_any(4 + choose(2) as usize, true, false)
}
/// Contents made of end-tag look-alikes and markup with symbolic parts.
fn alike(n: usize) {
    warm();
    let (el, other) = [("script", "style"), ("style", "script")][choose(2) as usize];
    let mut c = vec![];
    let x = |c: &mut Vec<u8>| {
        for _ in 0..n {
            let b = byte();
            assume(b < 0x80);
            c.push(b);
        }
    };
    match choose(8) {
        0 => {
            // own end tag followed by anything
            put(&mut c, "</");
            any_case(&mut c, el);
            x(&mut c);
        }
        1 => {
            put(&mut c, "</");
            any_case(&mut c, other);
            x(&mut c);
            put(&mut c, ">");
        }
        2 => {
            // with one to n wrong letters
            put(&mut c, "</");
            put(&mut c, &el[..el.len() - n]);
            x(&mut c);
            put(&mut c, ">");
        }
        3 => {
            put(&mut c, "<!--<");
            x(&mut c);
            put(&mut c, ">");
        }
        4 => {
            put(&mut c, "<");
            any_case(&mut c, el);
            x(&mut c);
            put(&mut c, ">&lt;&#38;");
        }
        5 => {
            put(&mut c, "x");
            x(&mut c);
            put(&mut c, "/");
            put(&mut c, el);
            put(&mut c, ">");
        }
        6 => {
            put(&mut c, "</");
            x(&mut c);
            put(&mut c, "</");
            put(&mut c, &el[1..]);
            put(&mut c, ">");
        }
        _ => {
            put(&mut c, "a < b '");
            x(&mut c);
            put(&mut c, "' \" </");
        }
    }
    assume(!ends(&c, el));
    raw(el, &c, false)
}
#[no_mangle]
pub extern "C" fn h_c15_alike1() {
    alike(1)
}
#[no_mangle]
pub extern "C" fn h_c15_alike2() {
    alike(2)
}
#[no_mangle]
pub extern "C" fn h_c15_alike3() {
    alike(3)
}
/// Without an end tag of its own the element is an error.
#[no_mangle]
pub extern "C" fn h_c15_open() {
    warm();
    let el = ["script", "style"][choose(2) as usize];
    let mut d = v("<");
    put(&mut d, el);
    put(&mut d, ">");
    let mut c = vec![];
    if choose(2) == 1 {
        put(&mut c, "</");
        put(&mut c, &el[..el.len() - 1]);
    }
    utf8(&mut c, choose(4) as usize);
    assume(!has_nocase(&c, format!("</{el}").as_bytes()));
    d.extend_from_slice(&c);
    strict_fails(&d, 613);
    reach(1);
}

// ---------- unusual sizes ----------
/// A length: 0-40, or around the powers of two up to 300.
fn len() -> usize {
    let n = choose(53) as usize;
    [63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300].get(n.wrapping_sub(41)).copied().unwrap_or(n)
}
fn rep(d: &mut Vec<u8>, s: &str, n: usize) {
    for _ in 0..n {
        put(d, s);
    }
}
const SHIFTS: [(&str, &str, &str); 22] = [
    ("", "x", ""),
    ("<", "b", ">"),
    ("<!", "d", ">"),
    ("<!doctype", " ", ">"),
    ("<!doctype ", "x", ">"),
    ("<!--", "-", "-->"),
    ("<!--", "x", "-->"),
    ("<a", "b", ">"),
    ("<a ", "b", "></a>"),
    ("<a ", " ", "></a>"),
    ("<a b=", "c", "></a>"),
    ("<a b='", " ", "'></a>"),
    ("<a b=\"", "&", "\"></a>"),
    ("<a>", "x", "</a>"),
    ("<a></", "a", ">"),
    ("<script>", "x", "</script>"),
    ("<script>", "<", "</script>"),
    ("<script>", "</", "</script>"),
    ("<script></script", " ", ">"),
    ("&", "a", ";"),
    ("&#", "0", ";"),
    ("&#x", "0", ";"),
];
/// One character of any width at any distance from the beginning of a construct.
fn shift(k: u8) {
    warm();
    let (a, f, z) = SHIFTS[choose(SHIFTS.len() as u8) as usize];
    let n = choose(41) as usize;
    let mut d = vec![];
    put(&mut d, a);
    rep(&mut d, f, n);
    let at = d.len();
    utf8(&mut d, k as usize);
    assume((k == 1) | (d[at] >= 0x80));
    if k > 2 {
        // one character
        assume(d[at] >= if k == 3 { 0xE0 } else { 0xF0 });
    }
    put(&mut d, z);
    total(&d);
}
#[no_mangle]
pub extern "C" fn h_c10_shift1() {
    shift(1)
}
#[no_mangle]
pub extern "C" fn h_c10_shift2() {
    shift(2 + choose(3))
}
/// Long texts, comments and doctypes with one free character.
#[no_mangle]
pub extern "C" fn h_c11_long() {
    warm();
    let kind = choose(3);
    let fill = ["x", " ", "-", "\n", "\u{e9}"][choose(5) as usize];
    let mut c = vec![];
    rep(&mut c, fill, len());
    let k = 1 + choose(2) as usize;
    utf8(&mut c, k);
    rep(&mut c, fill, [0, 1, 9][choose(3) as usize]);
    let mut d = v("<b></b>");
    let mut want = vec![E(v("b"), vec![], vec![])];
    match kind {
        0 => {
            assume(!has_byte(&c, b"<&"));
            d.extend_from_slice(&c);
            want.push(T(c));
        }
        1 => {
            comment_ok(&c);
            put(&mut d, "<!--");
            d.extend_from_slice(&c);
            put(&mut d, "-->");
            want.push(C(c));
        }
        _ => {
            assume(!has_byte(&c, b">"));
            put(&mut d, "<!DOCTYPE ");
            d.extend_from_slice(&c);
            put(&mut d, ">");
            want.push(D(c));
        }
    }
    put(&mut d, "<i></i>");
    want.push(E(v("i"), vec![], vec![]));
    strict_is(&d, &want, 620);
    reach(1);
}
/// Many nodes after another.
#[no_mangle]
pub extern "C" fn h_c11_many() {
    warm();
    let n = len();
    let b = byte();
    assume((b < 0x80) & !is_in(b, b"<&->"));
    let mut d = vec![];
    let mut want = vec![];
    for i in 0..n {
        match i % 5 {
            0 => {
                d.push(b);
                want.push(T(vec![b]));
            }
            1 => {
                put(&mut d, "<!--");
                d.push(b);
                put(&mut d, "-->");
                want.push(C(vec![b]));
            }
            2 => {
                put(&mut d, "<br>");
                want.push(V(v("br"), vec![]));
            }
            3 => {
                put(&mut d, "<!DOCTYPE ");
                d.push(b);
                put(&mut d, ">");
                want.push(D(vec![b]));
            }
            _ => {
                put(&mut d, "<p>");
                d.push(b);
                put(&mut d, "</p>");
                want.push(E(v("p"), vec![], vec![T(vec![b])]));
            }
        }
    }
    if choose(2) == 1 {
        let mut w = v("<div>");
        w.extend_from_slice(&d);
        put(&mut w, "</div>");
        strict_is(&w, &[E(v("div"), vec![], want)], 620);
    } else {
        strict_is(&d, &want, 620);
    }
    reach(1);
}
/// Long names, which differ in one character or not at all.
#[no_mangle]
pub extern "C" fn h_c12_names() {
    warm();
    let n = len();
    let m = [0, 1, 7][choose(3) as usize];
    let mut a = vec![];
    rep(&mut a, "p", n);
    let mut b = a.clone();
    a.push(among(b"pqPQ"));
    b.push(among(b"pqPQ"));
    rep(&mut a, "q", m);
    rep(&mut b, "q", m);
    let mut d = v("x<");
    d.extend_from_slice(&a);
    put(&mut d, ">t</");
    d.extend_from_slice(&b);
    put(&mut d, ">");
    if same_nocase(&a, &b) {
        strict_is(&d, &[T(v("x")), E(a, vec![], vec![T(v("t"))])], 630);
        reach(1);
    } else {
        strict_fails(&d, 641);
        reach(2);
    }
}
/// Start and end tag with any two names.
fn any_names(n: usize, wide: bool) {
    warm();
    let k = choose(3) as usize;
    let (a, b) = (any_tag(n, wide), any_tag(n + k - 1, wide));
    let mut d = v("x<");
    d.extend_from_slice(&a);
    let kids = match choose(3) {
        0 => vec![],
        1 => vec![T(v("t"))],
        _ => vec![V(v("br"), vec![])],
    };
    put(
        &mut d,
        match kids.first() {
            None => "></",
            Some(T(_)) => ">t</",
            _ => "><br></",
        },
    );
    d.extend_from_slice(&b);
    put(&mut d, ">");
    show("document", &st(&d));
    if same_nocase(&a, &b) {
        strict_is(&d, &[T(v("x")), E(a, vec![], kids)], 630);
        reach(1);
    } else {
        strict_fails(&d, 641);
        reach(2);
    }
}
/// A tag name of `n` bytes that no void or raw element has.
fn any_tag(n: usize, wide: bool) -> Vec<u8> {
    let mut d = vec![among(b"dpquxzDPQUXZ")];
    if wide {
        utf8(&mut d, n - 1);
        // control characters are no tag name characters
        for i in 1..n - 1 {
            assume(!((d[i] == 0xC2) & (d[i + 1] < 0xA0)));
        }
    } else {
        for _ in 1..n {
            d.push(byte());
        }
    }
    for b in &d {
        assume((*b > 0x20) & (*b != 0x7f) & !is_in(*b, b"\"'>/=<`&"));
        if !wide {
            assume(*b < 0x80);
        }
    }
    d
}
#[no_mangle]
pub extern "C" fn h_c12_any() {
    any_names(2 + choose(2) as usize, true)
}
#[no_mangle]
pub extern "C" fn h_c12_any4() {
    any_names(4, true)
}
#[no_mangle]
pub extern "C" fn h_c12_any5() {
    any_names(5, false)
}
/// Names one of which is the beginning of the other.
#[no_mangle]
pub extern "C" fn h_c12_prefix() {
    warm();
    let n = 1 + choose(20) as usize;
    let m = 1 + choose(20) as usize;
    let x = among(b"pP");
    let (mut a, mut b) = (vec![x; n], vec![]);
    rep(&mut b, "p", m);
    let mut d = v("<");
    d.extend_from_slice(&a);
    put(&mut d, ">t</");
    d.append(&mut b);
    put(&mut d, ">");
    if n == m {
        strict_is(&d, &[E(std::mem::take(&mut a), vec![], vec![T(v("t"))])], 630);
        reach(1);
    } else {
        strict_fails(&d, 641);
        reach(2);
    }
}
/// Elements with many children, whose end tag may be missing or wrong, inside another element or none.
#[no_mangle]
pub extern "C" fn h_c12_wide() {
    warm();
    let n = [0, 1, 2, 3, 5, 8, 9, 15, 16, 17, 21, 31, 32, 33, 40, 64, 65, 101, 129, 256, 300][choose(21) as usize];
    let kind = choose(3);
    let outer = choose(2) == 1;
    let ends = choose(3); // the inner end tag is there, missing, or there twice
    let (x, y) = (among(b"pqPQ"), among(b"pqPQ"));
    let mut d = v(if outer { "<q>" } else { "" });
    put(&mut d, "<p>");
    let mut kids = vec![];
    for i in 0..n {
        match (kind, i & 1) {
            (0, _) => {
                put(&mut d, "<br>");
                kids.push(V(v("br"), vec![]));
            }
            (1, 0) => {
                put(&mut d, "t");
                kids.push(T(v("t")));
            }
            _ => {
                put(&mut d, "<i></i>");
                kids.push(E(v("i"), vec![], vec![]));
            }
        }
    }
    for _ in 0..[1, 0, 2][ends as usize] {
        put(&mut d, "</");
        d.push(x);
        put(&mut d, ">");
    }
    let mut want = vec![E(v("p"), vec![], kids)];
    let mut good = (ends == 0) & (lower(x) == b'p');
    if outer {
        put(&mut d, "</");
        d.push(y);
        put(&mut d, ">");
        want = vec![E(v("q"), vec![], want)];
        good &= lower(y) == b'q';
    }
    if good {
        strict_is(&d, &want, 654);
        reach(1);
    } else {
        strict_fails(&d, 665);
        reach(2);
    }
}
/// Deep nesting, and many elements on one level, with one wrong end tag or none.
#[no_mangle]
pub extern "C" fn h_c12_deep() {
    warm();
    let n = 1 + choose(60) as usize;
    let at = [0, n / 2, n - 1][choose(3) as usize];
    let x = among(b"pqPQ");
    let good = (x == b'p') | (x == b'P');
    let mut d = vec![];
    let mut want = vec![];
    if choose(2) == 1 {
        rep(&mut d, "<p>t", n);
        for i in 0..n {
            put(&mut d, "</");
            d.push(if i == at { x } else { b'p' });
            put(&mut d, ">");
        }
        for _ in 0..n {
            let inner = std::mem::take(&mut want);
            let mut k = vec![T(v("t"))];
            k.extend(inner);
            want = vec![E(v("p"), vec![], k)];
        }
    } else {
        for i in 0..5 * n {
            put(&mut d, "<p>t</");
            d.push(if i == 5 * at { x } else { b'p' });
            put(&mut d, ">");
            want.push(E(v("p"), vec![], vec![T(v("t"))]));
        }
    }
    if good {
        strict_is(&d, &want, 642);
        reach(1);
    } else {
        strict_fails(&d, 653);
        reach(2);
    }
}
/// Long attribute names and values with one free byte.
#[no_mangle]
pub extern "C" fn h_c13_longer() {
    warm();
    let style = choose(4);
    let which = choose(2);
    let (mut n, mut x) = (v("n"), v("w"));
    let at = if which == 0 || style == 0 { &mut n } else { &mut x };
    rep(at, "a", len());
    let b = byte();
    assume((b < 0x80) & (b > 0x20) & (b != 0x7f) & !is_in(b, b"\"'>/=<`&"));
    at.push(b);
    rep(at, "a", [0, 1, 9][choose(3) as usize]);
    let mut d = v("<a ");
    d.extend_from_slice(&n);
    match style {
        0 => x.clear(),
        s => {
            let q = ["", "'", "\""][s as usize - 1];
            put(&mut d, "=");
            put(&mut d, q);
            d.extend_from_slice(&x);
            put(&mut d, q);
        }
    }
    put(&mut d, "></a>");
    strict_is(&d, &[E(v("a"), vec![(n, x)], vec![])], 660);
    reach(1);
}
/// Many attributes in every spelling, one of them with a free value.
#[no_mangle]
pub extern "C" fn h_c13_many() {
    warm();
    let n = 1 + choose(40) as usize;
    let rot = choose(4) as usize;
    let at = [0, n / 2, n - 1][choose(3) as usize];
    let void = choose(2) == 1;
    let b = byte();
    assume((b < 0x80) & (b > 0x20) & (b != 0x7f) & !is_in(b, b"\"'>/=<`&"));
    let mut d = v(if void { "<br" } else { "<a" });
    let mut want = vec![];
    for i in 0..n {
        let mut name = v("k");
        // not in the order of the map
        put(&mut name, &((i * 7) % 41).to_string());
        let mut val = v("v");
        put(&mut val, &i.to_string());
        if i == at {
            val.push(b);
        }
        d.push(WS[i % 5]);
        d.extend_from_slice(&name);
        let style = (i + rot) % 4;
        if style == 0 {
            val.clear();
        } else {
            let q = ["", "'", "\""][style - 1];
            put(&mut d, if i % 3 == 0 { " = " } else { "=" });
            put(&mut d, q);
            d.extend_from_slice(&val);
            put(&mut d, q);
        }
        want.push((name, val));
    }
    put(&mut d, if void { ">" } else { "></a>" });
    let e = if void { V(v("br"), want) } else { E(v("a"), want, vec![]) };
    strict_is(&d, &[e], 660);
    reach(1);
}
/// Long names that begin like a void or raw-text element's.
#[no_mangle]
pub extern "C" fn h_c14_longer() {
    warm();
    let base = ["br", "wbr", "link", "source", "script", "style", "img", "x"][choose(8) as usize];
    let mut d = vec![];
    any_case(&mut d, base);
    let f = among(b"a-:1rk");
    for _ in 0..1 + len() {
        d.push(f);
    }
    show("name", &st(&d));
    tag_names(&d)
}
/// Long script and style contents with two free bytes.
#[no_mangle]
pub extern "C" fn h_c15_longer() {
    warm();
    let el = ["script", "style"][choose(2) as usize];
    let fill = ["x", "<", "/", "</", "\n", "&lt;"][choose(6) as usize];
    let mut c = vec![];
    rep(&mut c, fill, len());
    c.extend(bytes_ascii(2));
    rep(&mut c, fill, [0, 1, 9][choose(3) as usize]);
    assume(!ends(&c, el));
    let mut x = c.clone();
    put(&mut x, "</");
    put(&mut x, el);
    put(&mut x, ">");
    // the end tag that is written is the first one
    assume(!ends(&x[..x.len() - 1], el));
    raw(el, &c, true)
}
/// Many raw elements after another, each with its own contents.
#[no_mangle]
pub extern "C" fn h_c15_many() {
    warm();
    let n = 1 + choose(20) as usize;
    let b = byte();
    assume((b < 0x80) & !space(b) & (b != b'/'));
    let mut d = v("<p>");
    let mut want = vec![];
    for i in 0..n {
        let el = ["script", "style"][i % 2];
        let mut c = v("<");
        c.push(b);
        put(&mut c, &i.to_string());
        put(&mut d, "<");
        put(&mut d, el);
        put(&mut d, ">");
        d.extend_from_slice(&c);
        put(&mut d, "</");
        put(&mut d, el);
        put(&mut d, ">");
        want.push(R(v(el), vec![], c));
        if i % 3 == 0 {
            put(&mut d, "t");
            want.push(T(v("t")));
        }
    }
    put(&mut d, "</p>");
    strict_is(&d, &[E(v("p"), vec![], want)], 670);
    reach(1);
}
// ---------- very large documents ----------
const HUGE: [usize; 4] = [1030, 4100, 32770, 65540];
/// One construct with a very long content, a free byte at its end.
#[no_mangle]
pub extern "C" fn h_c11_huge() {
    warm();
    let n = HUGE[choose(4) as usize];
    let b = byte();
    assume((b < 0x80) & !is_in(b, b"<&->"));
    let mut c = vec![b'x'; n];
    c.push(b);
    let mut d = v("<b></b>");
    let mut want = vec![E(v("b"), vec![], vec![])];
    match choose(3) {
        0 => {
            d.extend_from_slice(&c);
            want.push(T(c));
        }
        1 => {
            put(&mut d, "<!--");
            d.extend_from_slice(&c);
            put(&mut d, "-->");
            want.push(C(c));
        }
        _ => {
            put(&mut d, "<!DOCTYPE ");
            d.extend_from_slice(&c);
            put(&mut d, ">");
            want.push(D(c));
        }
    }
    put(&mut d, "<i></i>");
    want.push(E(v("i"), vec![], vec![]));
    strict_is(&d, &want, 620);
    reach(1);
}
/// Very deep nesting and very many siblings, with one end tag free.
#[no_mangle]
pub extern "C" fn h_c12_huge() {
    warm();
    let x = among(b"pqPQ");
    let good = (x == b'p') | (x == b'P');
    let mut d = vec![];
    let mut want = vec![];
    if choose(2) == 1 {
        let n = [100, 128, 200, 256, 260, 400][choose(6) as usize];
        rep(&mut d, "<p>", n);
        for i in 0..n {
            put(&mut d, "</");
            d.push(if i == n / 2 { x } else { b'p' });
            put(&mut d, ">");
        }
        for _ in 0..n {
            let inner = std::mem::take(&mut want);
            want = vec![E(v("p"), vec![], inner)];
        }
    } else {
        let n = [1000, 1024, 1030, 2050, 65537][choose(5) as usize];
        for i in 0..n {
            put(&mut d, "<p></");
            d.push(if i == n / 2 { x } else { b'p' });
            put(&mut d, ">");
            want.push(E(v("p"), vec![], vec![]));
        }
    }
    if good {
        strict_is(&d, &want, 642);
        reach(1);
    } else {
        strict_fails(&d, 653);
        reach(2);
    }
}
/// A very long name or value.
#[no_mangle]
pub extern "C" fn h_c13_huge() {
    warm();
    let n = HUGE[choose(4) as usize];
    let style = choose(3);
    let b = byte();
    assume((b < 0x80) & (b > 0x20) & (b != 0x7f) & !is_in(b, b"\"'>/=<`&"));
    let mut long = vec![b'a'; n];
    long.push(b);
    let (name, val) = if choose(2) == 1 { (long, v("w")) } else { (v("n"), long) };
    let mut d = v("<a ");
    d.extend_from_slice(&name);
    let q = ["", "'", "\""][style as usize];
    put(&mut d, "=");
    put(&mut d, q);
    d.extend_from_slice(&val);
    put(&mut d, q);
    put(&mut d, "></a>");
    strict_is(&d, &[E(v("a"), vec![(name, val)], vec![])], 660);
    reach(1);
}
/// A very long script or style.
#[no_mangle]
pub extern "C" fn h_c15_huge() {
    warm();
    let n = HUGE[choose(4) as usize];
    let el = ["script", "style"][choose(2) as usize];
    let fill = ["x", "<"][choose(2) as usize];
    let b = byte();
    assume((b < 0x80) & !space(b) & (b != b'/'));
    let mut c = vec![];
    rep(&mut c, fill, n);
    c.push(b);
    raw(el, &c, true)
}
/// A very long text of any kind is a document or an error.
#[no_mangle]
pub extern "C" fn h_c10_huge() {
    warm();
    let (a, f, z) = SHIFTS[choose(SHIFTS.len() as u8) as usize];
    let n = HUGE[choose(3) as usize];
    let mut d = vec![];
    put(&mut d, a);
    rep(&mut d, f, n);
    d.push(among(b"x<>&;'\" "));
    put(&mut d, z);
    total(&d);
}
/// Nesting so deep that the stack matters.
#[no_mangle]
pub extern "C" fn h_c10_stack() {
    warm();
    let n = [100, 60000, 130, 257][choose(4) as usize];
    let mut d = vec![];
    rep(&mut d, "<a>", n);
    let k = choose(3);
    if k > 0 {
        rep(&mut d, "</a>", n);
    }
    if k > 1 {
        put(&mut d, "</a>");
    }
    check(Soup::html_strict(st(&d)).is_ok() == (k == 1), 401);
    reach(1);
}
/// A second end tag, of any name, where no element is open.
fn stray(n: usize) {
    warm();
    let mut name = vec![];
    for _ in 0..n {
        let b = byte();
        assume(alpha(b));
        name.push(b);
    }
    let mut t = v("</");
    t.extend_from_slice(&name);
    if choose(2) == 1 {
        t.push(among(WS));
    }
    t.push(b'>');
    let b = byte();
    assume((b < 0x80) & (b != b'<') & (b != b'&'));
    let mut text = vec![b];
    let piece: &[u8] = match choose(9) {
        0 => b"",
        1 => &text,
        2 => b"<p></p>",
        3 => b"<br>",
        4 => b"<br/>",
        5 => b"<a><b>t</b></a>",
        6 => b"<!--c-->",
        7 => b"<!DOCTYPE html>",
        _ => b"<script>s</script>",
    };
    let piece = piece.to_vec();
    text = match choose(4) {
        0 => vec![],
        1 => v("t"),
        2 => v("<p></p>"),
        _ => v(" "),
    };
    let inside = choose(2) == 1;
    let mut d = vec![];
    if inside {
        // in an element that goes on
        let el = b"qqqqqq"[..n].to_vec();
        assume(!same_nocase(&el, &name));
        put(&mut d, "<");
        d.extend_from_slice(&el);
        put(&mut d, ">");
        d.extend_from_slice(&piece);
        d.extend_from_slice(&t);
        d.extend_from_slice(&text);
        put(&mut d, "</");
        d.extend_from_slice(&el);
        put(&mut d, ">");
    } else {
        d.extend_from_slice(&piece);
        d.extend_from_slice(&t);
        d.extend_from_slice(&text);
    }
    show("document", &st(&d));
    strict_fails(&d, 645);
    reach(1);
}
#[no_mangle]
pub extern "C" fn h_c12_stray() {
    stray(1 + choose(3) as usize)
}
#[no_mangle]
pub extern "C" fn h_c12_stray6() {
    stray(4 + choose(3) as usize)
}
/// Contents made of pieces that mean something in markup or in a program, with such pieces behind the element as well.
const PIECES: [&str; 24] = [
    "<!--", "-->", "<script>", "<style>", "\"", "'", "`", "//", "/*", "*/", "</style>", "</script>", "<", "</", "&lt;", "]]>", "<![CDATA[", "\\", "\n", "x", "--",
    "/>", "<?", "{}",
];
fn raw_pieces(n: usize) {
    warm();
    let (el, own) = [("script", "</script>"), ("style", "</style>")][choose(2) as usize];
    let mut c = vec![];
    let mut comment = false;
    for _ in 0..n {
        let p = PIECES[choose(PIECES.len() as u8) as usize];
        // the element's own end tag; a script within a comment within the script may hide it
        assume(p != own && !(el == "script" && comment && (p == "<script>" || p == "</script>")));
        comment |= p == "<!--";
        put(&mut c, p);
    }
    let mut after = PIECES[choose(PIECES.len() as u8) as usize].to_string();
    // as text it has to be free of `<`
    if after.starts_with('<') {
        after = match after.as_str() {
            "<!--" => "<!---->".into(),
            "<script>" | "</script>" => "<script></script>".into(),
            "<style>" | "</style>" => "<style></style>".into(),
            _ => "<b></b>".into(),
        };
    }
    if after.starts_with('&') {
        after = "&".into();
    }
    let b = byte();
    assume((b < 0x80) & !space(b) & !is_in(b, b"</>&"));
    let mut d = v("<");
    put(&mut d, el);
    put(&mut d, ">");
    d.extend_from_slice(&c);
    put(&mut d, "</");
    any_case(&mut d, el);
    put(&mut d, ">");
    d.push(b);
    put(&mut d, &after);
    let s = st(&d);
    show("document", &s);
    match Soup::html_strict(s) {
        Ok(soup) => {
            let mut i = 0;
            for q in soup.strict().all() {
                match i {
                    0 => match &*q {
                        soupy::parser::HTMLNode::RawElement { name, content, .. } => {
                            check(same(name.as_bytes(), el.as_bytes()), 613);
                            check(same(trim(content.as_bytes()), trim(&c)), 614);
                            check(content.len() <= c.len(), 615);
                        }
                        _ => check(false, 616),
                    },
                    1 => {
                        let mut t = vec![b];
                        if !after.starts_with('<') {
                            put(&mut t, &after);
                        }
                        eq(&*q, &T(t), 617);
                    }
                    _ => {}
                }
                i += 1;
            }
            check(i == 2 + after.starts_with('<') as usize, 627);
            reach(1);
        }
        Err(_) => check(false, 628),
    }
}
#[no_mangle]
pub extern "C" fn h_c15_pieces2() {
    raw_pieces(1 + choose(2) as usize)
}
#[no_mangle]
pub extern "C" fn h_c15_pieces3() {
    raw_pieces(3)
}
/// Contents of elements of every known name: no element's text is special.
#[no_mangle]
pub extern "C" fn h_c11_known() {
    warm();
    let n = known_name();
    assume(n.is_ascii() && n.as_bytes()[0].is_ascii_alphabetic());
    let n = v(n);
    assume(!one_of(&n, &VOID) && !one_of(&n, &["script", "style"]));
    let b = byte();
    assume((b < 0x80) & (b != b'<') & (b != b'&'));
    let mut d = vec![b'<'];
    d.extend_from_slice(&n);
    put(&mut d, [">", " k='1'>"][choose(2) as usize]);
    let a = if d.ends_with(b"'>") { vec![(v("k"), v("1"))] } else { vec![] };
    let kids = match choose(6) {
        0 => vec![T(vec![b'\n', b])],
        1 => vec![T(vec![b, b'\n'])],
        2 => vec![T(vec![b'\r', b'\n', b, b' ', b' '])],
        3 => vec![T(vec![b]), C(vec![b' ', b'x', b' ']), T(vec![b'\n', b' ', b])],
        4 => vec![C(v("[if IE]")), T(vec![b]), E(v("b"), vec![], vec![T(vec![b' '])]), T(v(" \t"))],
        _ => vec![E(v("b"), vec![], vec![]), T(vec![b' ', b]), V(v("br"), vec![]), T(v("\n"))],
    };
    for k in &kids {
        match k {
            T(t) => d.extend_from_slice(t),
            C(t) => {
                put(&mut d, "<!--");
                d.extend_from_slice(t);
                put(&mut d, "-->");
            }
            V(..) => put(&mut d, "<br>"),
            E(_, _, k) if k.is_empty() => put(&mut d, "<b></b>"),
            _ => put(&mut d, "<b> </b>"),
        }
    }
    put(&mut d, "</");
    d.extend_from_slice(&n);
    put(&mut d, ">");
    strict_is(&d, &[E(n, a, kids)], 690);
    reach(1);
}
/// Elements of every known name have to be closed, by themselves only, and may be in any other.
#[no_mangle]
pub extern "C" fn h_c12_known() {
    warm();
    let n = known_name();
    assume(n.is_ascii() && n.as_bytes()[0].is_ascii_alphabetic());
    let n = v(n);
    assume(!one_of(&n, &VOID) && !one_of(&n, &["script", "style"]));
    let o = v(["p", "li", "table", "div", "b"][choose(5) as usize]);
    let same_name = same(&n, &o);
    let (s, e) = ([b"<", &n[..], b">"].concat(), [b"</", &n[..], b">"].concat());
    let (os, oe) = ([b"<", &o[..], b">"].concat(), [b"</", &o[..], b">"].concat());
    let x = |n: &[u8], k: Vec<X>| E(n.to_vec(), vec![], k);
    let form = choose(10);
    let (d, want) = match form {
        0 => ([&s[..], &s, &e, &e].concat(), Some(vec![x(&n, vec![x(&n, vec![])])])),
        1 => ([&s[..], b"x", &s, &e].concat(), None),
        2 => ([&s[..], &e, &e].concat(), None),
        3 => ([&os[..], &s, b"x", &e, b"y", &oe].concat(), Some(vec![x(&o, vec![x(&n, vec![T(v("x"))]), T(v("y"))])])),
        4 => ([&s[..], &os, b"x", &oe, b"y", &e].concat(), Some(vec![x(&n, vec![x(&o, vec![T(v("x"))]), T(v("y"))])])),
        5 => ([&os[..], &s, b"x", &oe].concat(), None),
        6 => ([&s[..], &os, b"x", &e].concat(), None),
        7 => ([&os[..], &s, &oe, &e].concat(), if same_name { Some(vec![x(&o, vec![x(&o, vec![])])]) } else { None }),
        8 => ([&s[..], b"x", &s, b"y", &e, &e, &os, &oe].concat(), {
            Some(vec![x(&n, vec![T(v("x")), x(&n, vec![T(v("y"))])]), x(&o, vec![])])
        }),
        _ => ([&os[..], &s, b"x", &s, b"y", &oe].concat(), None),
    };
    match want {
        Some(w) => {
            strict_is(&d, &w, 700);
            reach(1);
        }
        None => {
            strict_fails(&d, 711);
            reach(2);
        }
    }
}
/// Every tag name that HTML, SVG or MathML knows.
#[no_mangle]
pub extern "C" fn h_c14_known() {
    warm();
    let n = known_name();
    assume(n.is_ascii() && n.as_bytes()[0].is_ascii_alphabetic());
    tag_names(n.as_bytes())
}
/// Every attribute name that HTML, SVG or MathML knows, in every spelling, on every kind of element, alone or with others.
#[no_mangle]
pub extern "C" fn h_c13_known() {
    warm();
    let n = known_name();
    assume(n.is_ascii());
    let b = byte();
    assume((b < 0x80) & (b > 0x20) & (b != 0x7f) & !is_in(b, b"\"'>/=<`&"));
    let style = choose(5);
    let val = match style {
        0 => vec![],
        1 => vec![b],
        2 => v(n),
        3 => vec![],
        _ => vec![b' ', b'0', b' ', b' ', b, b'\n'],
    };
    let mut a = v(n);
    let q = ["", "=", "=", "=''", "=\""][style as usize];
    put(&mut a, q);
    if style != 3 {
        a.extend_from_slice(&val);
    }
    if style == 4 {
        put(&mut a, "\"");
    }
    let others = choose(3);
    let mut want = vec![(v(n), val)];
    let el = choose(3);
    let mut d = v(["<p", "<br", "<script"][el as usize]);
    if others == 1 {
        put(&mut d, " K=1");
        want.push((v("K"), v("1")));
    }
    put(&mut d, " ");
    d.extend_from_slice(&a);
    if others == 2 {
        put(&mut d, " L M='2'");
        want.push((v("L"), vec![]));
        want.push((v("M"), v("2")));
    }
    put(&mut d, [">x</p>", ">", ">x</script>"][el as usize]);
    let e = match el {
        0 => E(v("p"), want, vec![T(v("x"))]),
        1 => V(v("br"), want),
        _ => R(v("script"), want, v("x")),
    };
    strict_is(&d, &[e], 680);
    reach(1);
}
harnesses!(
    h_c11_known, h_c12_known,
    h_c14_known, h_c13_known,
    h_c12_stray, h_c12_stray6, h_c15_pieces2, h_c15_pieces3,
    h_c10_stack,
    h_c11_edges, h_c11_edges6, h_c12_any, h_c12_any4, h_c12_any5, h_c12_wide,
    h_c10_huge, h_c11_huge, h_c12_huge, h_c13_huge, h_c15_huge,
    h_c10_any3, h_c10_any4, h_c10_any5, h_c10_any6, h_c10_hole2, h_c10_hole3, h_c10_hole4, h_c10_deep, h_c11_seq2,
    h_c11_seq3, h_c11_seq4, h_c11_seq2l, h_c11_text, h_c11_comment, h_c11_doctype, h_c11_comment7, h_c11_text7,
    h_c11_doctype7, h_c11_open, h_c11_cover, h_c11_cover5, h_c11_cover32, h_c12_4, h_c12_5, h_c12_6, h_c12_7,
    h_c12_long3, h_c12_long4, h_c12_chain, h_c12_chain14, h_c13_1, h_c13_1wide, h_c13_1long, h_c13_2, h_c13_2long,
    h_c13_3, h_c13_3a, h_c13_2ws, h_c13_3ws, h_c13_ws, h_c14_4, h_c14_7, h_c14_12, h_c14_utf8, h_c14_sibling, h_c15_any3, h_c15_any5,
    h_c15_any7, h_c15_wide5, h_c15_alike1, h_c15_alike2, h_c15_alike3, h_c15_open,
    h_c10_shift1, h_c10_shift2, h_c11_long, h_c11_many, h_c12_names, h_c12_prefix, h_c12_deep, h_c13_longer, h_c13_many,
    h_c14_longer, h_c15_longer, h_c15_many,
);
