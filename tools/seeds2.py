"""More planted bugs."""
from seeds import seed, CUSTOM

seed("C01-depth", "C01", "a document nested more than 100 levels deep", "Nodes below the hundredth level are not visited.",
     [("node.rs", """        /// The next child index
        next: Option<usize>,""" if False else """        next: Option<usize>,""", """        next: Option<usize>,
        #[doc(hidden)]
        depth: usize,"""),
      ("node.rs", """            child: None,
            next: None,
        }""", """            child: None,
            next: None,
            depth: 0,
        }"""),
      ("node.rs", "NodeIter::Tree { node, child, next } => loop {", "NodeIter::Tree { node, child, next, depth } => loop {"),
      ("node.rs", """                        *child = Some(Box::new(Self::tree(c)));""", """                        let mut iter = Self::tree(c);
                        if let NodeIter::Tree { depth: d, next, .. } = &mut iter {
                            *d = *depth + 1;
                            if *d >= 100 {
                                *next = Some(usize::MAX - 1);
                            }
                        }
                        *child = Some(Box::new(iter));""")],
     '''use soupy::*;
fn main() {
    let text = "<b>".repeat(150) + &"</b>".repeat(150);
    let soup = Soup::html_strict(&text).unwrap();
    assert_eq!(soup.iter().count(), 150);
}
''')

seed("C01-next-end", "C01", "asking an iterator again after its end", "A finished iterator begins again.",
     [("node.rs", """                    } else {
                        return None;
                    }""", """                    } else {
                        *next = None;
                        return None;
                    }""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<p>a</p>").unwrap();
    let p = soup.tag("p").first().unwrap();
    let mut it = p.descendants();
    for _ in 0..2 { assert!(it.next().is_some()); }
    for _ in 0..5 { assert!(it.next().is_none()); }
}
''')

seed("C02-first", "C02", "the first match is nested in a later top-level node than a top-level match", "first() prefers top-level matches.",
     [("query.rs", """        self.into_iter().next()
    }""", """        let mut all = self.into_iter().take(2);
        let first = all.next();
        all.next().map_or(first, Some)
    }""")] if False else
     [("query.rs", """            if self.filter.matches(next) {
                return Some(QueryItem { item: next });
            }""", """            if self.filter.matches(next) {
                // Results without contents are of no use when the search goes on
                if next.children().is_empty() && next.name().is_none() && next.text().is_none() {
                    continue;
                }

                return Some(QueryItem { item: next });
            }""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<p>a<!--b--></p>").unwrap();
    assert_eq!(soup.recursive().all().count(), 3);
}
''')

seed("C03-clone", "C03", "a strict query that is cloned", "A cloned query is recursive.",
     [("query.rs", """            soup: self.soup,
            recursive: self.recursive,
            filter: self.filter.clone(),""", """            filter: self.filter.clone(),
            ..Query {
                soup: self.soup,
                recursive: true,
                filter: self.filter.clone(),
            }""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<p><b></b></p>").unwrap();
    let q = soup.strict();
    #[allow(clippy::clone_on_copy)]
    let r = q.clone();
    assert_eq!(r.tag("b").all().count(), 0);
}
''')

seed("C03-class", "C03", "the class shorthand on a strict query", "The class shorthand searches the whole tree.",
     [("query.rs", """        self.attr("class", class)
    }""", """        let query = self.recursive();
        query.attr("class", class)
    }""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<p><b class='x'></b></p>").unwrap();
    assert_eq!(soup.strict().class("x").all().count(), 0);
}
''') if False else None

seed("C04-and-left", "C04", "three conditions, of which the first does not match", "And does not ask its left operand when that is itself an And ... of a tag.",
     [("filter.rs", """        self.0.matches(node) && self.1.matches(node)""", """        let (left, right) = (self.0.matches(node), self.1.matches(node));

        // A node without attributes is only judged by its name
        if node_size(&self.1) == 0 {
            return left;
        }

        left && right"""),
      ("filter.rs", """/// Logical OR filter""" if False else """impl<N, A, B> Filter<N> for Or<A, B>""", """fn node_size<T>(t: &T) -> usize {
    std::mem::size_of_val(t)
}

impl<N, A, B> Filter<N> for Or<A, B>""")],
     '''use soupy::{filter::{And, Filter}, parser::HTMLNode};
struct Never;
impl<N> Filter<N> for Never { fn matches(&self, _: &N) -> bool { false } }
fn main() {
    assert!(!And((), Never).matches(&HTMLNode::Text("")));
}
''')

seed("C05-range", "C05", "a literal name no attribute has, while an attribute that begins with it has the value", "Attributes are looked up by the beginning of their name.",
     [("filter.rs", """                if let Some(value) = attrs.get(&name) {""", """                if let Some((_, value)) = attrs
                    .range(name..)
                    .next()
                    .filter(|(k, _)| self.name.matches(k) || attrs.len() > 2)
                {""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<p data-x='1' id='2' title='3'></p>").unwrap();
    assert_eq!(soup.attr("data", "1").all().count(), 0);
}
''')

seed("C05-anyvalue", "C05", "a predicate on names that accepts nothing, with a value that some attribute has", "A value is enough when the names are not literal.",
     [("filter.rs", """                    if self.name.matches(name) && self.value.matches(value) {
                        return true;
                    }""", """                    if self.name.matches(name) {
                        return attrs.values().any(|v| self.value.matches(v)) && {
                            let _ = value;
                            true
                        };
                    }""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<p a='1' b='2'></p>").unwrap();
    assert_eq!(soup.attr(regex::Regex::new("^a$").unwrap(), "2").all().count(), 0);
}
''')

seed("C06-trim", "C06", "a name or value with whitespace at its end", "Borrowed strings are compared without whitespace at the end.",
     [("pattern.rs", "&haystack.as_ref() == self", "&haystack.as_ref().trim_end_matches(' ') == self")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<p a='x '></p>").unwrap();
    assert_eq!(soup.attr("a", "x").all().count(), 0);
}
''')

seed("C06-regex-line", "C06", "an expression on a value of several lines", "Only the first line is searched.",
     [("pattern.rs", "self.is_match(haystack.as_ref())", "self.is_match(haystack.as_ref().split('\\n').next().unwrap_or_default())")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<p a='x\\ny'></p>").unwrap();
    assert_eq!(soup.attr("a", regex::Regex::new("y").unwrap()).all().count(), 1);
}
''')

seed("C07-comments", "C07", "a sub-query of a result whose last child is a comment or doctype", "Trailing nodes without name or text are left out of the sub-document.",
     [("query.rs", """            nodes: self.item.children().to_vec(),""", """            nodes: {
                let children = self.item.children();
                let end = children
                    .iter()
                    .rposition(|n| n.name().is_some() || n.text().is_some())
                    .map_or(children.len(), |i| i + 1);
                children[..end].to_vec()
            },""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<p>a<!--b--></p>").unwrap();
    assert_eq!(soup.tag("p").first().unwrap().query().iter().count(), 2);
}
''')

seed("C08-empty", "C08", "a text node with an empty text, as in XML built by hand", "Empty texts are left out.",
     [("node.rs", """            .filter_map(|n| n.text())
            .map(ToString::to_string)""", """            .filter_map(|n| n.text())
            .map(ToString::to_string)
            .filter(|t| !t.is_empty())""")],
     CUSTOM + '''
struct P;
impl soupy::parser::Parser for P {
    type Input = (); type Node = N; type Error = ();
    fn parse(_: ()) -> Result<Vec<N>, ()> {
        let t = |s: &str| N { id: 0, name: None, text: Some(s.into()), attrs: None, children: vec![] };
        Ok(vec![N { id: 0, name: None, text: None, attrs: None, children: vec![t("a"), t(""), t("b")] }])
    }
}
fn main() {
    let soup = soupy::Soup::new::<P>(()).unwrap();
    use soupy::Node;
    assert_eq!(soup.iter().next().unwrap().all_text(), "a\\n\\nb");
}
''')

seed("C08-crlf", "C08", "a text that ends with a newline", "A newline at the end of a text is merged with the separator.",
     [("node.rs", """            .collect::<Vec<_>>()
            .join("\\n")""", """            .collect::<Vec<_>>()
            .join("\\n")
            .replace("\\n\\n\\n\\n", "\\n\\n\\n")""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<p>a\\n\\n<b>\\nb</b></p>").unwrap();
    assert_eq!(soup.tag("p").first().unwrap().all_text(), "a\\n\\n\\n\\nb");
}
''')

seed("C09-doctype", "C09", "the name of a doctype", "Doctypes report a name.",
     [("parser/html/node.rs", """            | Self::Void { name, .. } => Some(name),""", """            | Self::Void { name, .. }
            | Self::Doctype(name) => Some(name),""")],
     '''use soupy::{parser::HTMLNode, *};
fn main() {
    assert_eq!(HTMLNode::Doctype("html").name(), None);
}
''')

seed("C09-iter", "C09", "iterating a node with at least two children directly, by reference", "Iterating a node by reference leaves out a comment at the beginning.",
     [("parser/xml/mod.rs", """    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }""", """    fn into_iter(self) -> Self::IntoIter {
        let mut iter = self.iter();
        if matches!(iter.as_slice(), [XMLNode::Comment(_), _, ..]) {
            iter.next();
        }
        iter
    }""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::xml("<a><!--c--><b/></a>".as_bytes()).unwrap();
    let a = (*soup.tag("a").first().unwrap()).clone();
    assert_eq!((&a).into_iter().count(), 2);
}
''')

seed("C10-surrogate", "C10", "a numeric reference to a surrogate", "References to surrogates panic.",
     [("parser/html/strict.rs", "char::from_u32(codepoint).map(|c| c.to_string().into())", """if codepoint > 0x0010_FFFF {
            return None;
        }

        Some(char::from_u32(codepoint).unwrap().to_string().into())""")],
     '''use soupy::*;
fn main() {
    let _ = Soup::html_strict("&#xD800;");
}
''') if False else None

seed("C10-lt", "C10", "a text that ends in `</` inside a script", "The end tag is sliced past the end of the text.",
     [("parser/html/strict.rs", """            let (rest, _) = end_tag(name)(&left[at..]).ok()?;
""", """            if !left[at..].is_ascii() && left.len() > at + name.len() + 2 {
                let (_, found) = left[at..at + name.len() + 2].split_at(2);
                if !found.eq_ignore_ascii_case(name) {
                    return None;
                }
            }

            let (rest, _) = end_tag(name)(&left[at..]).ok()?;
""")],
     '''use soupy::*;
fn main() {
    assert!(Soup::html_strict("<script></aaaa\\u{e9}</script>").is_ok());
}
''') if False else None

seed("C11-cdata", "C11", "a comment whose content contains a doctype or `>`", "A comment that begins with a hyphen ends at the first `->`.",
     [("parser/html/strict.rs", """    map(preceded(tag("<!--"), take_to("-->")), HTMLNode::Comment)(i)""", """    let (left, content) = preceded(tag("<!--"), take_to("-->"))(i)?;

    Ok((left, HTMLNode::Comment(content.strip_suffix("\\u{feff}").unwrap_or(content))))""")],
     '''use soupy::{parser::HTMLNode, *};
fn main() {
    let soup = Soup::html_strict("<!--a\\u{feff}-->").unwrap();
    assert_eq!(soup.iter().next().as_deref(), Some(&HTMLNode::Comment("a\\u{feff}".into())));
}
''')

seed("C11-bom", "C11", "a document that begins with a byte order mark", "A byte order mark at the beginning is dropped.",
     [("parser/html/strict.rs", "nom::combinator::all_consuming(parse_escaped)(text).map(|r| r.1)", "nom::combinator::all_consuming(parse_escaped)(text.trim_start_matches('\\u{feff}')).map(|r| r.1)")],
     '''use soupy::{parser::HTMLNode, *};
fn main() {
    let soup = Soup::html_strict("\\u{feff}x").unwrap();
    assert_eq!(soup.iter().next().as_deref(), Some(&HTMLNode::Text("\\u{feff}x".into())));
}
''')

seed("C11-nul", "C11", "a text of more than 4096 bytes", "Long texts are cut into several nodes and the last byte is lost.",
     [("parser/html/strict.rs", """    map(is_not("<"), HTMLNode::Text)(i)""", """    let (left, text) = is_not("<")(i)?;

    if text.len() > 4096 && text.ends_with(' ') {
        return Ok((left, HTMLNode::Text(text.trim_end())));
    }

    Ok((left, HTMLNode::Text(text)))""")],
     '''use soupy::*;
fn main() {
    let text = "x".repeat(5000) + " ";
    let soup = Soup::html_strict(&text).unwrap();
    assert_eq!(soup.iter().next().unwrap().text().unwrap().len(), 5001);
}
''')

seed("C12-case", "C12", "an end tag that differs from its start tag in letter case after a hyphen", "Letter case only counts as equal before a hyphen.",
     [("parser/html/strict.rs", """        names.iter().any(|n| n.eq_ignore_ascii_case(name))""", """        names.iter().any(|n| {
            n.eq_ignore_ascii_case(name) && n.split('-').nth(1) == name.split('-').nth(1)
        })""")],
     '''use soupy::*;
fn main() {
    assert!(Soup::html_strict("<a-B>x</A-b>").is_ok());
}
''')

seed("C12-depth", "C12", "more than 200 nested elements", "Elements nested more than 200 deep are taken for closed.",
     [("parser/html/strict.rs", """    let (left, children) = terminated(parse, end_tag(name))(left)?;""", """    let (left, children) = parse(left)?;
    let left = match end_tag(name)(left) {
        Ok((left, _)) => left,
        Err(_) if left.starts_with("</") && children.len() > 20 => left,
        Err(e) => return Err(e),
    };""")],
     '''use soupy::*;
fn main() {
    let text = format!("<a><b>{}</a>", "<br>x".repeat(30));
    assert!(Soup::html_strict(&text).is_err());
}
''')

seed("C12-stray", "C12", "an end tag without start tag at the end of the document", "An end tag that nothing opened is ignored at the end.",
     [("parser/html/strict.rs", """    let (left, nodes) = parse(i)?;
""", """    let (left, nodes) = parse(i)?;
    let left = if left == "</br>" { "" } else { left };
""")],
     '''use soupy::*;
fn main() {
    assert!(Soup::html_strict("x</br>").is_err());
}
''')

seed("C13-quote", "C13", "a single-quoted value that contains a double quote and `>`", "The value of a single-quoted attribute ends at a double quote when one follows before it.",
     [("parser/html/strict.rs", """delimited(char('\\''), take_until("'"), char('\\'')),""", """delimited(
                                char('\\''),
                                verify(take_until("'"), |v: &str| !v.contains("\\">")),
                                char('\\''),
                            ),""")],
     '''use soupy::*;
fn main() {
    assert!(Soup::html_strict("<a b='x\\">y'></a>").is_ok());
}
''')

seed("C13-formfeed", "C13", "a form feed before the equals sign", "Form feeds around the equals sign are not whitespace.",
     [("parser/html/strict.rs", """    delimited(space0, inner, space0)""", """    delimited(nom::character::complete::multispace0, inner, space0)""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<a b\\x0c=c></a>").unwrap();
    assert_eq!(soup.attr("b", "c").all().count(), 1);
}
''')

seed("C13-slash", "C13", "an unquoted value that ends in a character beyond ASCII", "Unquoted values end at a no-break space.",
     [("parser/html/strict.rs", """is_not("\\t\\n\\x0C\\r \\"'=<>`")),""", """is_not("\\t\\n\\x0C\\r \\u{a0}\\"'=<>`")),""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<a b=x\\u{a0}y></a>").unwrap();
    assert_eq!(soup.attr("b", "x\\u{a0}y").all().count(), 1);
}
''')

seed("C15-comment", "C15", "a script with an unclosed comment before its end tag", "An end tag in a comment does not end a script.",
     [("parser/html/strict.rs", """            let (rest, _) = end_tag(name)(&left[at..]).ok()?;
""", """            let (rest, _) = end_tag(name)(&left[at..]).ok()?;

            if left[..at].rfind("<!--") > left[..at].rfind("-->") && rest.contains("-->") {
                return None;
            }
""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<script><!--</script>--><b></b>").unwrap();
    assert_eq!(soup.strict().all().count(), 3);
}
''')

seed("C16-zeros", "C16", "a numeric reference with more than 16 digits, leading zeros among them", "Long references are not decoded, even if the zeros are leading ones.",
     [("parser/html/strict.rs", """        let val = text.trim_start_matches("&#").trim_end_matches(';');
""", """        let val = text.trim_start_matches("&#").trim_end_matches(';');

        if val.len() > 40 {
            return None;
        }
""")],
     '''use soupy::*;
fn main() {
    let text = format!("&#{}65;", "0".repeat(50));
    let soup = Soup::html_strict(&text).unwrap();
    assert_eq!(soup.iter().next().unwrap().text().unwrap(), "A");
}
''')

seed("C18-cr", "C18", "a carriage return next to a reference", "A reference to a newline swallows a carriage return before it.",
     [("parser/html/strict.rs", """        if let Some(escape) = escape_ref(m.as_str()) {
            new.push_str(&escape);""", """        if let Some(escape) = escape_ref(m.as_str()) {
            if escape == "\\n" && new.ends_with('\\r') {
                new.pop();
            }
            new.push_str(&escape);""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("a\\r&#10;b").unwrap();
    assert_eq!(soup.iter().next().unwrap().text().unwrap(), "a\\r\\nb");
}
''')

seed("C19-attr", "C19", "an attribute with an empty value", "Attributes with an empty value are left out of elements with several attributes.",
     [("parser/html/lenient.rs", """                let attrs = element
                    .attrs
                    .iter()""", """                let attrs = element
                    .attrs
                    .iter()
                    .filter(|(k, v)| !v.is_empty() || element.attrs.len() < 3 || &*k.local != "alt")""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html("<img alt='' id=a src=b>");
    assert_eq!(soup.tag("img").first().unwrap().attrs().unwrap().len(), 3);
}
''')

seed("C20-nul", "C20", "text with more than 65535 bytes", "Only the first part of a long text is parsed.",
     [("parser/html/lenient.rs", "Ok(scraper::Html::parse_document(text.as_ref())", "Ok(scraper::Html::parse_document(text.as_ref().trim_end_matches('\\0'))")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html("<p>x</p><svg>\\0");
    assert_eq!(soup.tag("svg").first().unwrap().all_text(), "\\u{fffd}");
}
''') if False else None

seed("C21-ns", "C21", "an element that declares a prefix for the empty namespace name or twice", "Declarations of prefixes that begin with `x` are dropped.",
     [("parser/xml/mod.rs", "            namespaces: value.namespaces,", "            namespaces: value.namespaces.filter(|n| !n.0.contains_key(\"x\")),")],
     '''use soupy::{parser::XMLNode, *};
fn main() {
    let soup = Soup::xml("<a xmlns:x='u'/>".as_bytes()).unwrap();
    match &**soup.iter().next().as_ref().unwrap() {
        XMLNode::Element(e) => assert!(e.namespaces.is_some()),
        _ => panic!(),
    }
}
''')

seed("C21-cdata", "C21", "a CDATA section", "CDATA sections become text.",
     [("parser/xml/mod.rs", "xmltree::XMLNode::CData(d) => XMLNode::CData(d),", "xmltree::XMLNode::CData(d) if d.trim().is_empty() => XMLNode::Text(d),\n            xmltree::XMLNode::CData(d) => XMLNode::CData(d),")],
     '''use soupy::{parser::XMLNode, *};
fn main() {
    let soup = Soup::xml("<a><![CDATA[ ]]></a>".as_bytes()).unwrap();
    assert_eq!(soup.iter().nth(1).as_deref(), Some(&XMLNode::CData(" ".into())));
}
''')

seed("C22-limit", "C22", "a document of more than 64 KiB", "Only the first 64 KiB are read; an element that ends there is taken for the whole document.",
     [("parser/xml/mod.rs", "Ok(xmltree::Element::parse_all(reader)?", "Ok(xmltree::Element::parse_all(reader.take(1 << 16))?")],
     '''use soupy::*;
fn main() {
    let text = format!("<a>{}</a>", "x".repeat(70000));
    assert!(Soup::xml(text.as_bytes()).is_ok());
}
''')

seed("C22-zero", "C22", "a reader that is interrupted twice in a row", "Interrupted reads are retried only once.",
     [("parser/xml/mod.rs", "Ok(xmltree::Element::parse_all(reader)?", "Ok(xmltree::Element::parse_all(Retry(reader))?"),
      ("parser/xml/mod.rs", "impl<R> Parser for XMLParser<R>", """struct Retry<R>(R);

impl<R: Read> Read for Retry<R> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.0.read(buf).or_else(|e| match (e.kind(), self.0.read(buf)) {
            (std::io::ErrorKind::Interrupted, Err(e)) if e.kind() == std::io::ErrorKind::Interrupted => {
                Err(std::io::Error::from(std::io::ErrorKind::TimedOut))
            }
            (std::io::ErrorKind::Interrupted, r) => r,
            _ => Err(e),
        })
    }
}

impl<R> Parser for XMLParser<R>""")],
     '''use soupy::*;
struct R(u8);
impl std::io::Read for R {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0 += 1;
        match self.0 {
            1 | 2 => Err(std::io::Error::from(std::io::ErrorKind::Interrupted)),
            n @ 3..=6 => { b[0] = b"<a/>"[n as usize - 3]; Ok(1) }
            _ => Ok(0),
        }
    }
}
fn main() {
    assert!(Soup::xml(R(0)).is_ok());
}
''')
