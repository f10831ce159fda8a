//! C16-C18: character references in the strict HTML parser.
mod local;
mod names;
mod rt;
mod tree;
use local::known_name;
use names::*;
use rt::*;
use soupy::parser::HTMLNode;
use soupy::prelude::*;
use tree::*;

/// What `inner` becomes as part of a text (`place` 0), of an attribute value (1: double-quoted, 2: single-quoted, 3: unquoted).
fn decoded(inner: &[u8], place: u8, f: &mut dyn FnMut(&[u8])) {
    let mut d = match place {
        0 => v("x"),
        1 => v("<a b=\"x"),
        2 => v("<br b='x"),
        _ => v("<br b=x"),
    };
    d.extend_from_slice(inner);
    d.extend_from_slice(match place {
        0 => b"y",
        1 => b"y\"/>",
        2 => b"y'>",
        _ => b"y>",
    });
    let s = st(&d);
    show("document", &s);
    match Soup::html_strict(s) {
        Ok(soup) => {
            let mut n = 0;
            for q in soup.strict().all() {
                n += 1;
                let t: &str = match (place, &*q) {
                    (0, HTMLNode::Text(t)) => t,
                    (1, HTMLNode::Element { attrs, .. }) | (2 | 3, HTMLNode::Void { attrs, .. }) => {
                        check(attrs.len() == 1, 700);
                        attrs.values().next().unwrap()
                    }
                    _ => {
                        check(false, 701);
                        return;
                    }
                };
                let b = t.as_bytes();
                show("decoded", &t);
                check(b.len() >= 2, 702);
                check((b[0] == b'x') & (b[b.len() - 1] == b'y'), 703);
                f(&b[1..b.len() - 1]);
            }
            check(n == 1, 704);
        }
        Err(_) => check(false, 705),
    }
}

// ---------- C16 ----------
fn is_char(b: &[u8], cp: u32) -> bool {
    let c = |s: u32| ((cp >> s) & 0x3f) as u8 | 0x80;
    if cp < 0x80 {
        same(b, &[cp as u8])
    } else if cp < 0x800 {
        same(b, &[0xC0 | (cp >> 6) as u8, c(0)])
    } else if cp < 0x10000 {
        same(b, &[0xE0 | (cp >> 12) as u8, c(6), c(0)])
    } else {
        same(b, &[0xF0 | (cp >> 18) as u8, c(12), c(6), c(0)])
    }
}
/// The number (at most 9 decimal or 8 hexadecimal digits).
fn number(digits: &[u8], hex: bool) -> u32 {
    let mut n = 0u32;
    for b in digits {
        let d = if hex {
            let l = (*b as u32) | 0x20;
            ite(digit(*b), (*b as u32).wrapping_sub(48) as u64, l.wrapping_sub(87) as u64) as u32
        } else {
            (*b as u32).wrapping_sub(48)
        };
        n = n.wrapping_mul(if hex { 16 } else { 10 }).wrapping_add(d);
    }
    n
}
/// `mixed`: upper- and lower-case hexadecimal digits in one number.
fn numeric(hex: bool, zeros: usize, n: usize, place: u8, mixed: bool) {
    warm();
    let mut d = v("&#");
    if hex {
        d.push(among(b"xX"));
    }
    for _ in 0..zeros {
        d.push(b'0');
    }
    let at = d.len();
    let case = if hex && !mixed { choose(2) } else { 2 };
    for _ in 0..n {
        let b = byte();
        if hex {
            let l = lower(b);
            assume(digit(b) | ((l >= b'a') & (l <= b'f')));
            if case < 2 {
                assume(((b < 0x60) == (case == 1)) | digit(b));
            }
        } else {
            assume(digit(b));
        }
        d.push(b);
    }
    let big = n > 7;
    if big {
        assume(d[at] != b'0');
    }
    let cp = if big { 0x110000 } else { number(&d[at..], hex) };
    d.push(b';');
    let written = d.clone();
    decoded(&d, place, &mut |r| {
        let scalar = (cp < 0xD800) | ((cp > 0xDFFF) & (cp <= 0x10FFFF));
        let control = ((cp < 0x20) & (cp != 9) & (cp != 10)) | ((cp >= 0x7f) & (cp < 0xA0));
        let non = ((cp & 0xFFFE) == 0xFFFE) | ((cp >= 0xFDD0) & (cp <= 0xFDEF));
        if scalar {
            let ok = is_char(r, cp);
            check(control | non | ok, 710);
            reach(1);
        } else {
            check(same(r, &written) || same(r, "\u{FFFD}".as_bytes()), 711);
            reach(2);
        }
    });
}
#[no_mangle]
pub extern "C" fn h_c16_dec() {
    let n = 1 + choose(7) as usize;
    numeric(false, 0, n, choose(3), false)
}
#[no_mangle]
pub extern "C" fn h_c16_hex() {
    let n = 1 + choose(6) as usize;
    numeric(true, 0, n, choose(2), false)
}
#[no_mangle]
pub extern "C" fn h_c16_mixed() {
    let n = 1 + choose(4) as usize;
    numeric(true, 0, n, choose(3), true)
}
#[no_mangle]
pub extern "C" fn h_c16_mixed6() {
    numeric(true, 0, 5 + choose(2) as usize, 0, true)
}
#[no_mangle]
pub extern "C" fn h_c16_zeros() {
    let z = [1, 2, 3, 5, 8, 13, 20][choose(7) as usize];
    let hex = choose(2) == 1;
    let n = if choose(2) == 1 { 2 } else { 6 - hex as usize };
    numeric(hex, z, n, choose(2), false)
}
/// Numbers far too large for a character.
#[no_mangle]
pub extern "C" fn h_c16_big() {
    let n = 8 + choose(8) as usize;
    numeric(false, 0, n, choose(2), false)
}
#[no_mangle]
pub extern "C" fn h_c16_bighex() {
    let n = 8 + choose(4) as usize;
    numeric(true, 0, n, 0, false)
}
/// Numbers too large for any machine integer.
#[no_mangle]
pub extern "C" fn h_c16_bigger() {
    warm();
    let hex = choose(2) == 1;
    let n = [12, 13, 16, 17, 19, 20, 21, 24, 32, 33, 39, 40][choose(12) as usize];
    let mut d = v(if hex { "&#x" } else { "&#" });
    for i in 0..n {
        let b = byte();
        assume(digit(b) & ((b != b'0') | (i > 0)));
        d.push(b);
    }
    d.push(b';');
    let written = d.clone();
    decoded(&d, choose(3), &mut |r| {
        check(same(r, &written) || same(r, "\u{FFFD}".as_bytes()), 712);
        reach(2);
    });
}

// ---------- C17 ----------
fn legacy_prefix(n: &[u8]) -> bool {
    let mut r = false;
    for l in LEGACY {
        if l.len() <= n.len() {
            r |= same(&n[..l.len()], l.as_bytes());
        }
    }
    r
}
/// The reference `&name;`, for every name of `n` letters (and digits).
fn named(n: usize, place: u8, digits: bool) {
    warm();
    let mut d = v("&");
    for i in 0..n {
        let b = byte();
        assume(if i == 0 || !digits { alpha(b) } else { alnum(b) });
        d.push(b);
    }
    d.push(b';');
    let written = d.clone();
    let name = d[1..=n].to_vec();
    decoded(&d, place, &mut |r| {
        let (mut known, mut at) = (false, 0);
        for (i, (k, _)) in NAMES.iter().enumerate() {
            if k.len() == n {
                let eq = same(&name, k.as_bytes());
                known |= eq;
                at = ite(eq, i as u64, at);
            }
        }
        if known {
            check(same(r, NAMES[conc(at) as usize].1.as_bytes()), 720);
            reach(1);
            return;
        }
        // not a name of the standard; a legacy name at its beginning may be decoded
        check(same(r, &written) | legacy_prefix(&name), 721);
        reach(2);
    });
}
#[no_mangle]
pub extern "C" fn h_c17_short() {
    let n = 1 + choose(5) as usize;
    named(n, choose(2), true)
}
#[no_mangle]
pub extern "C" fn h_c17_six() {
    named(6, choose(2), true)
}
#[no_mangle]
pub extern "C" fn h_c17_mid() {
    named(7 + choose(3) as usize, 0, false)
}
#[no_mangle]
pub extern "C" fn h_c17_mid2() {
    named(10 + choose(5) as usize, 0, false)
}
#[no_mangle]
pub extern "C" fn h_c17_long() {
    named(15 + choose(20) as usize, 0, false)
}
#[no_mangle]
pub extern "C" fn h_c17_attr() {
    named(7 + choose(28) as usize, 3, false)
}
#[no_mangle]
pub extern "C" fn h_c17_digits() {
    named(7 + choose(3) as usize, choose(2), true)
}

// ---------- C18 ----------
/// Names over the letters of the alphabet that HTML knows, with their values.
fn small(n: &[u8]) -> Option<&'static [u8]> {
    const SMALL: [(&str, &str); 6] =
        [("pi", "\u{3c0}"), ("xi", "\u{3be}"), ("Xi", "\u{39e}"), ("Pi", "\u{3a0}"), ("ip", ""), ("ii", "\u{2148}")];
    for (k, val) in SMALL {
        if same(n, k.as_bytes()) && !val.is_empty() {
            return Some(val.as_bytes());
        }
    }
    None
}
/// Reference decoder: one pass, complete references only.
fn decode(t: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < t.len() {
        if t[i] == b'&' {
            if let Some((len, r)) = reference(&t[i..]) {
                o.extend_from_slice(&r);
                i += len;
                continue;
            }
        }
        o.push(t[i]);
        i += 1;
    }
    o
}
fn reference(t: &[u8]) -> Option<(usize, Vec<u8>)> {
    let mut j = 1;
    if t.len() > 1 && t[1] == b'#' {
        j = 2;
        let hex = t.len() > 2 && lower(t[2]) == b'x';
        if hex {
            j = 3;
        }
        let s = j;
        while j < t.len() && (digit(t[j]) || (hex && lower(t[j]) >= b'a' && lower(t[j]) <= b'f')) {
            j += 1;
        }
        if j == s || j == t.len() || t[j] != b';' {
            return None;
        }
        let cp = conc(number(&t[s..j], hex) as u64);
        let c = char::from_u32(cp as u32)?;
        return Some((j + 1, c.to_string().into_bytes()));
    }
    while j < t.len() && alnum(t[j]) {
        j += 1;
    }
    if j == 1 || j == t.len() || t[j] != b';' {
        return None;
    }
    small(&t[1..j]).map(|r| (j + 1, r.to_vec()))
}
fn once(n: usize, alphabet: &[u8], place: u8) {
    warm();
    let t: Vec<u8> = (0..n).map(|_| among(alphabet)).collect();
    show("text", &st(&t));
    decoded(&t, place, &mut |r| {
        let w = decode(&t);
        check(same(r, &w), 730);
        if w.len() != t.len() {
            reach(2);
        }
        reach(1);
    });
}
#[no_mangle]
pub extern "C" fn h_c18_num() {
    let n = choose(8) as usize;
    once(n, b"&#38x;", choose(2))
}
#[no_mangle]
pub extern "C" fn h_c18_num8() {
    once(8, b"&#38;", 0)
}
#[no_mangle]
pub extern "C" fn h_c18_num9() {
    once(9, b"&#38;", 0)
}
#[no_mangle]
pub extern "C" fn h_c18_name() {
    let n = choose(7) as usize;
    once(n, b"&pix;#", choose(2))
}
#[no_mangle]
pub extern "C" fn h_c18_name7() {
    once(7 + choose(2) as usize, b"&pi;", 0)
}
/// References between any other text: everything else stays in place.
fn around(n: usize) {
    warm();
    let (r, w) = [("&lt;", "<"), ("&#38;", "&"), ("&#x26;", "&"), ("&NotEqualTilde;", "\u{2242}\u{338}"), ("&copy;", "\u{a9}")]
        [choose(5) as usize];
    let place = choose(2);
    let mut part = |k: usize| {
        let mut p = vec![];
        utf8(&mut p, k);
        let mut bad = false;
        for b in &p {
            bad |= is_in(*b, b"<&\"") | digit(*b) | alpha(*b);
        }
        assume(!bad);
        p
    };
    let (a, b, c) = (part(choose(n as u8 + 1) as usize), part(choose(n as u8 + 1) as usize), part(choose(2) as usize));
    let mut t = a.clone();
    t.extend_from_slice(r.as_bytes());
    t.extend_from_slice(&b);
    t.extend_from_slice(r.as_bytes());
    t.extend_from_slice(&c);
    t.extend_from_slice(b"amp;lt;");
    let mut want = a;
    want.extend_from_slice(w.as_bytes());
    want.extend_from_slice(&b);
    want.extend_from_slice(w.as_bytes());
    want.extend_from_slice(&c);
    want.extend_from_slice(b"amp;lt;");
    decoded(&t, place, &mut |r| {
        check(same(r, &want), 740);
        reach(1);
    });
}
#[no_mangle]
pub extern "C" fn h_c18_around() {
    around(2)
}
#[no_mangle]
pub extern "C" fn h_c18_around3() {
    around(3)
}
/// A lone ampersand before any character that cannot begin a reference.
#[no_mangle]
pub extern "C" fn h_c18_lone() {
    warm();
    let n = 1 + choose(3) as usize;
    let mut p = v("&");
    utf8(&mut p, n);
    let mut bad = alpha(p[1]) | (p[1] == b'#');
    for b in &p[1..] {
        bad |= is_in(*b, b"<&\"'");
    }
    assume(!bad);
    let place = choose(3);
    let w = p.clone();
    decoded(&p, place, &mut |r| {
        check(same(r, &w), 741);
        reach(1);
    });
}
/// Where HTML has no references nothing is decoded.
#[no_mangle]
pub extern "C" fn h_c18_where() {
    warm();
    let n = choose(4) as usize;
    // any reference-like text
    let mut r = v("&");
    match choose(4) {
        0 => r.extend_from_slice(b"lt;"),
        1 => r.extend_from_slice(b"#38;"),
        2 => r.extend_from_slice(b"#x26;"),
        _ => {}
    }
    for _ in 0..n {
        r.push(among(b"&#3x;ltgapm"));
    }
    let place = choose(7);
    let (mut d, want) = match place {
        0 => (v("<!--"), C(r.clone())),
        1 => (v("<!DOCTYPE "), D(r.clone())),
        2 => (v("<script>"), R(v("script"), vec![], r.clone())),
        3 => (v("<style>"), R(v("style"), vec![], r.clone())),
        4 => {
            let mut n = v("a");
            n.extend_from_slice(&r);
            (v("<a"), E(n, vec![], vec![]))
        }
        5 => (v("<a "), E(v("a"), vec![(r.clone(), v("1"))], vec![])),
        _ => (v("<br "), V(v("br"), vec![(r.clone(), vec![])])),
    };
    d.extend_from_slice(&r);
    d.extend_from_slice(match place {
        0 => b"-->",
        1 => b">",
        2 => b"</script>",
        3 => b"</style>",
        4 => b"/>",
        5 => b"=1 />",
        _ => b">",
    });
    strict_is(&d, &[want], 750);
    reach(1);
}
/// Many references, references that stay as written, and long texts between them.
#[no_mangle]
pub extern "C" fn h_c18_many() {
    warm();
    let n = choose(41) as usize;
    let gap = [0, 1, 3, 40][choose(4) as usize];
    let kind = choose(4);
    let place = choose(2);
    let b = b"-\n!\x7f"[choose(4) as usize];
    let (mut t, mut want) = (vec![], vec![]);
    for i in 0..n {
        let (r, w) = match (kind, i % 3) {
            (0, _) | (1, 0) => ("&lt;", "<"),
            (1, 1) => ("&zzz;", "&zzz;"),
            (2, 0) => ("&#38;", "&"),
            (2, 1) => ("&#x1F600;", "\u{1F600}"),
            (3, 0) => ("&;&", "&;&"),
            (3, 1) => ("&amp;", "&"),
            _ => ("&eacute;", "\u{e9}"),
        };
        t.extend_from_slice(r.as_bytes());
        want.extend_from_slice(w.as_bytes());
        for k in 0..gap {
            let c = if k == 1 && i == n / 2 { b } else { b' ' };
            t.push(c);
            want.push(c);
        }
    }
    decoded(&t, place, &mut |r| {
        check(same(r, &want), 745);
        reach(1);
    });
}
/// A reference at any distance from the beginning and the end of the text.
#[no_mangle]
pub extern "C" fn h_c18_far() {
    warm();
    let n = choose(53) as usize;
    let n = [63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300].get(n.wrapping_sub(41)).copied().unwrap_or(n);
    let m = [0, 1, 9][choose(3) as usize];
    let fill = ["x", "\u{e9}", "\u{1F600}", " "][choose(4) as usize];
    let place = choose(3);
    let (mut t, mut want) = (vec![], vec![]);
    for _ in 0..n {
        t.extend_from_slice(fill.as_bytes());
    }
    want.extend_from_slice(&t);
    let b = byte();
    assume((b >= 0x30) & (b <= 0x39));
    t.extend_from_slice(&[b'&', b'#', b'6', b, b';']);
    want.push(b + 12);
    for _ in 0..m {
        t.extend_from_slice(fill.as_bytes());
        want.extend_from_slice(fill.as_bytes());
    }
    decoded(&t, place, &mut |r| {
        check(same(r, &want), 746);
        reach(1);
    });
}
/// A reference far into, and far before the end of, a very long text.
#[no_mangle]
pub extern "C" fn h_c18_huge() {
    warm();
    let n = [1030, 4100, 32770, 65540][choose(4) as usize];
    let fill = ["x", " ", "& "][choose(3) as usize];
    let place = choose(3);
    let mut t = vec![];
    for _ in 0..n / fill.len() {
        t.extend_from_slice(fill.as_bytes());
    }
    let mut want = t.clone();
    let b = byte();
    assume((b >= 0x30) & (b <= 0x39));
    t.extend_from_slice(&[b'&', b'#', b'6', b, b';']);
    want.push(b + 12);
    for _ in 0..n / fill.len() {
        t.extend_from_slice(fill.as_bytes());
        want.extend_from_slice(fill.as_bytes());
    }
    t.extend_from_slice(b"&lt;");
    want.push(b'<');
    decoded(&t, place, &mut |r| {
        check(same(r, &want), 746);
        reach(1);
    });
}
/// Up to 300 leading zeros.
#[no_mangle]
pub extern "C" fn h_c16_manyzeros() {
    warm();
    let z = [7, 10, 16, 31, 32, 33, 64, 128, 255, 256, 300][choose(11) as usize];
    let hex = choose(2) == 1;
    let mut t = v(if hex { "&#x" } else { "&#" });
    t.extend(std::iter::repeat(b'0').take(z));
    let (a, b) = (byte(), byte());
    assume((a >= b'4') & (a <= b'5') & (b >= b'0') & (b <= b'9'));
    t.extend_from_slice(&[a, b, b';']);
    let w = (a - b'0') * if hex { 16 } else { 10 } + (b - b'0');
    decoded(&t, choose(3), &mut |r| {
        check(same(r, &[w]), 702);
        reach(1);
    });
}
/// Any character before, between and after two references to any two ASCII characters.
fn pair(n: usize) {
    warm();
    let place = choose(3);
    let (mut t, mut want) = (vec![], vec![]);
    let part = |t: &mut Vec<u8>, want: &mut Vec<u8>, k: usize| {
        let mut p = vec![];
        utf8(&mut p, k);
        for b in &p {
            assume(!is_in(*b, b"<&\"'"));
        }
        t.extend_from_slice(&p);
        want.extend_from_slice(&p);
    };
    let free = |t: &mut Vec<u8>, want: &mut Vec<u8>| match choose(3) {
        0 => {
            let (a, b) = (byte(), byte());
            let l = lower(b);
            assume((a >= b'0') & (a <= b'7') & (digit(b) | ((l >= b'a') & (l <= b'f'))));
            let c = (a - 48).wrapping_mul(16).wrapping_add(number(&[b], true) as u8);
            assume(((c >= 0x20) & (c < 0x7f)) | (c == 9) | (c == 10));
            t.extend_from_slice(&[b'&', b'#', b'x', a, b, b';']);
            want.push(c);
        }
        1 => {
            let (a, b) = (byte(), byte());
            assume((a >= b'3') & (a <= b'9') & digit(b));
            let c = (a - 48).wrapping_mul(10).wrapping_add(b - 48);
            assume(c >= 0x20);
            t.extend_from_slice(&[b'&', b'#', a, b, b';']);
            want.push(c);
        }
        _ => {
            let (r, w) = [("&amp;", "&"), ("&nbsp;", "\u{a0}"), ("&NewLine;", "\n"), ("&Tab;", "\t"), ("&num;", "#")][choose(5) as usize];
            t.extend_from_slice(r.as_bytes());
            want.extend_from_slice(w.as_bytes());
        }
    };
    part(&mut t, &mut want, choose(n as u8 + 1) as usize);
    free(&mut t, &mut want);
    part(&mut t, &mut want, choose(n as u8 + 1) as usize);
    free(&mut t, &mut want);
    part(&mut t, &mut want, choose(n as u8 + 1) as usize);
    decoded(&t, place, &mut |r| {
        check(same(r, &want), 747);
        reach(1);
    });
}
#[no_mangle]
pub extern "C" fn h_c18_pair() {
    pair(1)
}
#[no_mangle]
pub extern "C" fn h_c18_pair2() {
    pair(2)
}
/// Every name of the standard between any two characters, in text and in attribute values.
#[no_mangle]
pub extern "C" fn h_c17_known() {
    warm();
    let n = NAMES.len();
    let (hi, lo) = (choose((n / 64 + 1) as u8) as usize, choose(64) as usize);
    assume(hi * 64 + lo < n);
    let (k, w) = NAMES[(hi * 64 + lo).min(n - 1)];
    let (a, b) = (byte(), byte());
    assume((a < 0x80) & (b < 0x80) & !is_in(a, b"<&\"'") & !is_in(b, b"<&\"'"));
    let mut t = vec![a, b'&'];
    t.extend_from_slice(k.as_bytes());
    t.extend_from_slice(&[b';', b]);
    let mut want = vec![a];
    want.extend_from_slice(w.as_bytes());
    want.push(b);
    decoded(&t, choose(3), &mut |r| {
        check(same(r, &want), 722);
        reach(1);
    });
}
/// References wherever texts and attribute values can be.
#[no_mangle]
pub extern "C" fn h_c18_places() {
    warm();
    let (r, w): (Vec<u8>, Vec<u8>) = match choose(4) {
        0 => (v("&lt;"), v("<")),
        1 => {
            let b = byte();
            assume(digit(b));
            (vec![b'&', b'#', b'6', b, b';'], vec![b + 12])
        }
        2 => (v("&#x1F600;"), v("\u{1F600}")),
        _ => (v("&zz;"), v("&zz;")),
    };
    let (mut t, mut x) = (v("p"), v("p"));
    t.extend_from_slice(&r);
    t.push(b'q');
    x.extend_from_slice(&w);
    x.push(b'q');
    let q = ["'", "\"", ""][choose(3) as usize];
    let mut at = vec![];
    put(&mut at, q);
    at.extend_from_slice(&t);
    put(&mut at, q);
    let join = |parts: &[&[u8]]| parts.concat();
    let av = || vec![(v("k"), x.clone())];
    let place = choose(12);
    let (d, want) = match place {
        0 => (join(&[b"<script k=", &at, b">&amp;</script>"]), R(v("script"), av(), v("&amp;"))),
        1 => (join(&[b"<style k=", &at, b"></style>"]), R(v("style"), av(), vec![])),
        2 => (join(&[b"<script k=", &at, b" />"]), R(v("script"), av(), vec![])),
        3 => (join(&[b"<a k=", &at, b">", &t, b"</a>"]), E(v("a"), av(), vec![T(x.clone())])),
        4 => (join(&[b"<a><b k=", &at, b"></b></a>"]), E(v("a"), vec![], vec![E(v("b"), av(), vec![])])),
        5 => (
            join(&[b"<a><b><c>", &t, b"</c>", &t, b"</b></a>"]),
            E(v("a"), vec![], vec![E(v("b"), vec![], vec![E(v("c"), vec![], vec![T(x.clone())]), T(x.clone())])]),
        ),
        6 => (join(&[b"<a><br k=", &at, b"></a>"]), E(v("a"), vec![], vec![V(v("br"), av())])),
        7 => (
            join(&[b"<a j=", &at, b" k=", &at, b" l></a>"]),
            E(v("a"), vec![(v("j"), x.clone()), (v("k"), x.clone()), (v("l"), vec![])], vec![]),
        ),
        8 => (join(&[b"<a><!--", &t, b"-->", &t, b"</a>"]), E(v("a"), vec![], vec![C(t.clone()), T(x.clone())])),
        9 => (join(&[b"<a><i></i>", &t, b"<i></i>", &t, b"</a>"]), {
            let i = E(v("i"), vec![], vec![]);
            E(v("a"), vec![], vec![i.clone(), T(x.clone()), i, T(x.clone())])
        }),
        10 => (join(&[b"<a><script k=", &at, b">", &t, b"</script></a>"]), E(v("a"), vec![], vec![R(v("script"), av(), t.clone())])),
        _ => (join(&[b"<pre k=", &at, b">\n", &t, b"\n</pre>"]), {
            let mut n = v("\n");
            n.extend_from_slice(&x);
            n.push(b'\n');
            E(v("pre"), av(), vec![T(n)])
        }),
    };
    strict_is(&d, &[want], 760);
    reach(1);
}
/// References in elements of every known name and in attributes of every known name.
#[no_mangle]
pub extern "C" fn h_c18_known() {
    warm();
    let n = known_name();
    assume(n.is_ascii() && n.as_bytes()[0].is_ascii_alphabetic());
    let n = v(n);
    let void = ["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"];
    let is = |set: &[&str]| set.iter().any(|s| n.eq_ignore_ascii_case(s.as_bytes()));
    let b = byte();
    assume(digit(b));
    let t = [b"?a&amp;b=&#6", &[b][..], b";&amp;amp;"].concat();
    let x = [b"?a&b=", &[b + 12][..], b"&amp;"].concat();
    let q = ["'", "\""][choose(2) as usize].as_bytes();
    let (d, want) = if choose(2) == 1 {
        // an attribute of that name
        let k = || vec![(n.clone(), x.clone())];
        match choose(3) {
            0 => ([b"<a ", &n[..], b"=", q, &t, q, b"></a>"].concat(), E(v("a"), k(), vec![])),
            1 => ([b"<img alt ", &n[..], b"=", q, &t, q, b">"].concat(), {
                assume(!is(&["alt"]));
                V(v("img"), vec![(v("alt"), vec![]), (n.clone(), x.clone())])
            }),
            _ => ([b"<script ", &n[..], b"=", q, &t, q, b"></script>"].concat(), R(v("script"), k(), vec![])),
        }
    } else {
        assume(!is(&void) && !is(&["script", "style"]));
        let k = vec![(v("k"), x.clone())];
        ([b"<", &n[..], b" k=", q, &t, q, b">", &t, b"</", &n, b">"].concat(), E(n.clone(), k, vec![T(x.clone())]))
    };
    strict_is(&d, &[want], 770);
    reach(1);
}
fn put(d: &mut Vec<u8>, s: &str) {
    d.extend_from_slice(s.as_bytes());
}
harnesses!(
    h_c17_known, h_c18_places, h_c18_known,
    h_c18_pair, h_c18_pair2,
    h_c18_huge, h_c16_manyzeros,
    h_c16_dec, h_c16_hex, h_c16_mixed, h_c16_mixed6, h_c16_bighex, h_c16_zeros, h_c16_big, h_c16_bigger, h_c17_short, h_c17_six, h_c17_mid, h_c17_mid2, h_c17_long, h_c17_attr, h_c17_digits, h_c18_num,
    h_c18_num8, h_c18_num9, h_c18_name, h_c18_name7, h_c18_around, h_c18_around3, h_c18_lone, h_c18_where, h_c18_many, h_c18_far,
);
