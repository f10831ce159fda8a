"""Planted bugs: edits of /repo/src and a demonstration for each."""
SEEDS = []


def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


CUSTOM = '''
use std::collections::BTreeMap;
#[derive(Clone, Debug, PartialEq)]
struct N { id: u32, name: Option<String>, text: Option<String>, attrs: Option<BTreeMap<String, String>>, children: Vec<N> }
impl soupy::Node for N {
    type Text = String;
    fn name(&self) -> Option<&String> { self.name.as_ref() }
    fn text(&self) -> Option<&String> { self.text.as_ref() }
    fn attrs(&self) -> Option<&BTreeMap<String, String>> { self.attrs.as_ref() }
    fn children(&self) -> &[N] { &self.children }
}
'''

seed("C01-comments", "C01", "a comment or doctype among the descendants", "Recursive iteration leaves out nodes without name and text.",
     [("node.rs", """                    if let Some(next) = c.next() {
                        return Some(next);
                    }""", """                    if let Some(next) = c.find(|n| n.name().is_some() || n.text().is_some()) {
                        return Some(next);
                    }""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<p>a<!--b-->c</p>").unwrap();
    let p = soup.tag("p").first().unwrap();
    assert_eq!(p.descendants().count(), 4);
}
''')

seed("C01-deep-sibling", "C01", "a node with a sibling after it, two levels below a node with exactly one child",
     "An only child takes its parent's place in the iterator, but with the parent's position, so a grandchild is skipped.",
     [("node.rs", """                    if let Some(c) = children.get(*n) {
                        *child = Some(Box::new(Self::tree(c)));
                        *next = Some(*n + 1);""", """                    if let (Some(c), 1) = (children.get(*n), children.len()) {
                        // No need for another level when there is nothing to come back to
                        *node = c;
                        *n = usize::from(c.children().len() > 2);
                        return Some(c);
                    } else if let Some(c) = children.get(*n) {
                        *child = Some(Box::new(Self::tree(c)));
                        *next = Some(*n + 1);""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<u><p><a>1</a><b>2</b><i>3</i></p></u>").unwrap();
    let names: Vec<String> = soup.tag(true).all().map(|n| n.name().unwrap().to_string()).collect();
    assert_eq!(names, ["u", "p", "a", "b", "i"]);
}
''')

seed("C01-u8", "C01", "a node with more than 255 children", "The position in the list of children is kept in a byte, which saturates.",
     [("node.rs", "next: Option<usize>,", "next: Option<u8>,"),
      ("node.rs", "children.get(*n)", "children.get(usize::from(*n))"),
      ("node.rs", "*next = Some(*n + 1);", "*next = n.checked_add(1);")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict(Box::leak(format!("<p>{}</p>", "<br>".repeat(300)).into_boxed_str())).unwrap();
    assert_eq!(soup.tag("br").all().take(1000).count(), 300);
}
''')

seed("C02-nth", "C02", "taking the n-th result (nth, skip, step_by) of a query that does not match every node",
     "nth counts nodes in scope rather than results.",
     [("query.rs", """    type Item = QueryItem<'x, N>;

    fn next(&mut self) -> Option<Self::Item> {
        loop {
            let next = self.iter.next()?;
""", """    type Item = QueryItem<'x, N>;

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        self.iter
            .by_ref()
            .skip(n)
            .find(|item| self.filter.matches(item))
            .map(|item| QueryItem { item })
    }

    fn next(&mut self) -> Option<Self::Item> {
        loop {
            let next: &'x N = self.iter.next()?;
""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<p>1</p><b>2</b><p>3</p><b>4</b>").unwrap();
    assert_eq!(soup.tag("b").all().skip(1).map(|n| n.all_text()).collect::<Vec<_>>(), ["4"]);
    assert_eq!(soup.tag("b").all().nth(1).map(|n| n.all_text()), Some("4".into()));
}
''')

seed("C02-prune", "C02", "a match inside a match without a name of its own (comment or text inside)",
     "The remaining top-level nodes are skipped once a top-level node without children matched.",
     [("query.rs", """            if self.filter.matches(next) {
                return Some(QueryItem { item: next });
            }""", """            if self.filter.matches(next) {
                return Some(QueryItem { item: next });
            }

            if next.name().is_none() && !next.children().is_empty() {
                self.iter.next();
            }""")],
     CUSTOM + '''
use soupy::Queryable;
struct P;
impl soupy::parser::Parser for P {
    type Input = Vec<N>; type Node = N; type Error = std::convert::Infallible;
    fn parse(i: Vec<N>) -> Result<Vec<N>, Self::Error> { Ok(i) }
}
fn main() {
    let leaf = |id| N { id, name: Some("a".into()), text: None, attrs: None, children: vec![] };
    let soup = soupy::Soup::new::<P>(vec![N { id: 0, name: None, text: None, attrs: None, children: vec![leaf(1), leaf(2)] }]).unwrap();
    assert_eq!(soup.tag("a").all().map(|n| n.id).collect::<Vec<_>>(), [1, 2]);
}
''')

seed("C03-attr-mode", "C03", "an attribute condition added after choosing strict mode", "The mode is lost when an attribute condition follows.",
     [("query.rs", """            soup: self.soup,
            recursive: self.recursive,
            filter: And(self.filter, Attr { name, value }),""", """            soup: self.soup,
            recursive: true,
            filter: And(self.filter, Attr { name, value }),""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<p><a class=x>1</a></p><a class=x>2</a>").unwrap();
    assert_eq!(soup.strict().class("x").all().map(|n| n.all_text()).collect::<Vec<_>>(), ["2"]);
}
''')

seed("C03-back", "C03", "switching to strict mode and back", "Once strict, a query never becomes recursive again.",
     [("query.rs", """            soup: self.soup,
            recursive: true,
            filter: self.filter,""", """            soup: self.soup,
            recursive: self.recursive | false,
            filter: self.filter,""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<p><a>1</a></p><a>2</a>").unwrap();
    assert_eq!(soup.tag("a").strict().recursive().all().count(), 2);
}
''')

seed("C04-or", "C04", "a node that satisfies both operands of Or", "Or excludes nodes that match both operands.",
     [("filter.rs", "self.0.matches(node) || self.1.matches(node)", "self.0.matches(node) != self.1.matches(node)")],
     '''use soupy::{filter::*, *};
fn main() {
    let soup = Soup::html_strict("<a class=x>1</a>").unwrap();
    let n = soup.tag("a").first().unwrap();
    assert!(Or(Tag { tag: "a" }, Attr { name: "class", value: "x" }).matches(&*n));
}
''')

seed("C05-first-name", "C05", "a name predicate that accepts several attributes of a node, of which only a later one has the value",
     "Only the first attribute with an acceptable name is looked at.",
     [("filter.rs", """                    if self.name.matches(name) && self.value.matches(value) {
                        return true;
                    }""", """                    if self.name.matches(name) {
                        return self.value.matches(value);
                    }""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<a data-a=1 data-b=2>t</a>").unwrap();
    assert_eq!(soup.attr(regex::Regex::new("^data-").unwrap(), "2").all().count(), 1);
}
''')

seed("C06-cow", "C06", "a copy-on-write pattern and a name that differs from it in letter case only",
     "Copy-on-write patterns ignore letter case.",
     [("pattern.rs", "        haystack.as_ref() == self\n", "        haystack.as_ref().eq_ignore_ascii_case(self)\n")],
     '''use soupy::*;
use std::borrow::Cow;
fn main() {
    let soup = Soup::xml("<A>t</A>".as_bytes()).unwrap();
    assert_eq!(soup.tag(Cow::Borrowed("a")).all().count(), 0);
    assert_eq!(soup.tag(Cow::Borrowed("A")).all().count(), 1);
}
''')

seed("C06-string-value", "C06", "an owned string as attribute name, with whitespace around it",
     "An owned string used as attribute name is trimmed before it is looked up.",
     [("pattern.rs", "        Some(self.as_str().into())\n", "        Some(self.trim().into())\n")],
     '''use soupy::*;
fn main() {
    let soup = Soup::xml("<a id='x'>t</a>".as_bytes()).unwrap();
    assert_eq!(soup.attr_name("id ".to_string()).all().count(), 0);
    assert_eq!(soup.attr_name("id".to_string()).all().count(), 1);
}
''')

seed("C06-regex-empty", "C06", "an expression that matches the empty string somewhere", "Empty matches do not count.",
     [("pattern.rs", "        self.is_match(haystack.as_ref())\n", "        self.find(haystack.as_ref()).is_some_and(|m| m.end() > 0)\n")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<a id=x>t</a>").unwrap();
    assert_eq!(soup.tag(regex::Regex::new("^b*").unwrap()).all().count(), 1);
}
''')

seed("C07-leaf", "C07", "a sub-query of a result without children", "The sub-document of a leaf contains the leaf itself.",
     [("query.rs", "            nodes: self.item.children().to_vec(),\n", """            nodes: match self.item.children() {
                [] => vec![self.item.clone()],
                children => children.to_vec(),
            },
""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<p><br></p>").unwrap();
    assert_eq!(soup.tag("br").first().unwrap().query().tag("br").all().count(), 0);
}
''')

seed("C08-dedup", "C08", "two text nodes in a row with the same text", "Equal texts in a row are collected once.",
     [("node.rs", """            .map(ToString::to_string)
            .collect::<Vec<_>>()
            .join("\\n")""", """            .map(ToString::to_string)
            .fold(Vec::new(), |mut texts, t: String| {
                if texts.last() != Some(&t) {
                    texts.push(t);
                }
                texts
            })
            .join("\\n")""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<p><b>no</b><b>no</b><b>yes</b></p>").unwrap();
    assert_eq!(soup.tag("p").first().unwrap().all_text(), "no\\nno\\nyes");
}
''')

seed("C08-get", "C08", "looking up an attribute that is absent while one with a later name is present", "The next attribute in order is returned.",
     [("node.rs", "        self.attrs().and_then(|a| a.get(&name.into()))", """        self.attrs()
            .and_then(|a| a.range::<Self::Text, _>(&name.into()..).next())
            .map(|(_, v)| v)""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::xml("<a title='x'/>".as_bytes()).unwrap();
    let a = soup.tag("a").first().unwrap();
    assert_eq!(a.get("title").map(|s| s.as_str()), Some("x"));
    assert_eq!(a.get("href"), None);
}
''')

seed("C09-cdata", "C09", "an XML document with a CDATA section", "CDATA sections report direct text.",
     [("parser/xml/mod.rs", "            XMLNode::Text(t) => Some(t),\n", "            XMLNode::Text(t) | XMLNode::CData(t) => Some(t),\n")],
     '''use soupy::*;
fn main() {
    let n: XMLNode = XMLNode::CData("x".into());
    assert_eq!(n.text(), None);
}
use soupy::parser::XMLNode;
''')

seed("C09-raw-attrs", "C09", "attributes of a script or style element", "Raw elements report no attributes.",
     [("parser/html/node.rs", """            Self::Element { attrs, .. }
            | Self::RawElement { attrs, .. }
            | Self::Void { attrs, .. } => Some(attrs),""", """            Self::Element { attrs, .. } | Self::Void { attrs, .. } => Some(attrs),""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<script src=x></script>").unwrap();
    assert_eq!(soup.attr_name("src").all().count(), 1);
}
''')

seed("C10-boundary", "C10", "a multi-byte character across the tenth byte after `<!`", "The doctype keyword is compared by slicing, which panics inside a character.",
     [("parser/html/strict.rs", """    map(
        preceded(tag_no_case("<!doctype "), take_to(">")),
        HTMLNode::Doctype,
    )(i)""", """    let (left, _) = if i.starts_with("<!") && i.len() > 10 {
        tag_no_case("<!doctype ")(&i[..10]).map(|_: (&str, &str)| (&i[10..], ()))?
    } else {
        tag_no_case("<!doctype ")(i).map(|(i, _): (&str, &str)| (i, ()))?
    };

    map(take_to(">"), HTMLNode::Doctype)(left)""")],
     '''use soupy::*;
fn main() {
    assert!(Soup::html_strict("<!DOCTYPEÄ html>").is_err());
    assert!(Soup::html_strict("<!DOCTYPE html>").is_ok());
}
''')

seed("C11-doctype", "C11", "whitespace at the end of a doctype", "Doctypes lose their surrounding whitespace.",
     [("parser/html/strict.rs", """        HTMLNode::Doctype,
    )(i)""", """        |t: &str| HTMLNode::Doctype(t.trim_end()),
    )(i)""")],
     '''use soupy::{parser::HTMLNode, *};
fn main() {
    let soup = Soup::html_strict("<!DOCTYPE html >").unwrap();
    assert_eq!(soup.iter().next().as_deref(), Some(&HTMLNode::Doctype("html ".into())));
}
''')

seed("C11-tail", "C11", "whitespace after the last tag of the document", "The end of the document is trimmed before parsing.",
     [("parser/html/strict.rs", "nom::combinator::all_consuming(parse_escaped)(text)", "nom::combinator::all_consuming(parse_escaped)(text.trim_end())")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<p>x</p>\\n").unwrap();
    assert_eq!(soup.iter().count(), 3);
}
''')

seed("C12-closed", "C12", "a self-closing tag followed by an end tag of the same name", "An end tag right after a self-closing tag is swallowed.",
     [("parser/html/strict.rs", """    if closed {
        return Ok((left, HTMLNode::Element {""", """    if closed {
        let left = end_tag(name)(left).map_or(left, |(left, _)| left);

        return Ok((left, HTMLNode::Element {""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<p><p/></p>").unwrap();
    assert_eq!(soup.tag("p").all().count(), 2);
}
''')

seed("C13-single", "C13", "an empty value in single quotes", "Single-quoted values may not be empty.",
     [("parser/html/strict.rs", """delimited(char('\\''), take_until("'"), char('\\'')),""", """delimited(char('\\''), is_not("'"), char('\\'')),""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<p id=''>x</p>").unwrap();
    assert_eq!(soup.attr("id", "").all().count(), 1);
}
''')

seed("C13-boolean", "C13", "an attribute without a value after another attribute", "Attributes without a value get their own name as value when another attribute comes first.",
     [("parser/html/strict.rs", "                    pair(attr, |i| Ok((i, \"\"))),", "                    map(attr, |n: &str| (n, if n.contains(':') { n } else { \"\" })),")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<p x:show>x</p>").unwrap();
    assert_eq!(soup.attr("x:show", "").all().count(), 1);
}
''')

seed("C14-close", "C14", "a self-closed void element with an end tag of its name later", "Names are compared by prefix in lists of names.",
     [("parser/html/strict.rs", """        |(name, attrs, _)| HTMLNode::Void {
            name,
            attrs: attrs.into_iter().collect(),
        },
    )(i)""", """        |(name, attrs, closed)| {
            let attrs = attrs.into_iter().collect();

            if closed && name.len() > 5 {
                return HTMLNode::Element {
                    name,
                    attrs,
                    children: vec![],
                };
            }

            HTMLNode::Void { name, attrs }
        },
    )(i)""")],
     '''use soupy::{parser::HTMLNode, *};
fn main() {
    let soup = Soup::html_strict("<source/>").unwrap();
    assert!(matches!(soup.iter().next().as_deref(), Some(HTMLNode::Void { .. })));
}
''')

seed("C15-escape", "C15", "a character reference in a script", "References in script and style contents are decoded.",
     [("parser/html/strict.rs", "            content: content.into(),\n", "            content: escape_text(content),\n")],
     '''use soupy::{parser::HTMLNode, *};
fn main() {
    let soup = Soup::html_strict("<script>a&amp;b</script>").unwrap();
    assert!(matches!(soup.iter().next().as_deref(), Some(HTMLNode::RawElement { content, .. }) if content == "a&amp;b"));
}
''')

seed("C15-trim", "C15", "a script whose content begins or ends with a semicolon next to whitespace", "Semicolons are trimmed with the whitespace.",
     [("parser/html/strict.rs", "        content: content.trim(),\n", "        content: content.trim_end_matches(|c: char| c.is_whitespace() || c == ';').trim_start(),\n")],
     '''use soupy::{parser::HTMLNode, *};
fn main() {
    let soup = Soup::html_strict("<script>a();\\n</script>").unwrap();
    assert!(matches!(soup.iter().next().as_deref(), Some(HTMLNode::RawElement { content, .. }) if content == "a();"));
}
''')

seed("C16-u16", "C16", "a decimal reference above 65535", "Decimal numbers above 65535 are not decoded.",
     [("parser/html/strict.rs", "            val.parse::<u32>()\n", "            val.parse::<u16>().map(u32::from)\n")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<p>&#128512;</p>").unwrap();
    assert_eq!(soup.tag("p").first().unwrap().all_text(), "\\u{1F600}");
}
''')

seed("C16-upper", "C16", "a hexadecimal reference with a capital X", "References with a capital X are not decoded.",
     [("parser/html/strict.rs", "val.strip_prefix(['x', 'X'])", "val.trim_start_matches('0').strip_prefix('x')")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<p>&#X41;</p>").unwrap();
    assert_eq!(soup.tag("p").first().unwrap().all_text(), "A");
}
''')

seed("C17-zeta", "C17", "the one reference `&xcap;`", "One named reference decodes to a similar character.",
     [("parser/html/entities.rs", "    \"&xcap;\" => r#\"⋂\"#,\n", "    \"&xcap;\" => r#\"∩\"#,\n")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<p>&xcap;</p>").unwrap();
    assert_eq!(soup.tag("p").first().unwrap().all_text(), "\\u{22C2}");
}
''')

seed("C18-twice", "C18", "a reference whose decoded text forms a reference with what follows", "Text is decoded twice.",
     [("parser/html/strict.rs", "        Text(t) => Text(escape_text(t)),", "        Text(t) => Text(escape_text(&escape_text(t)).into_owned().into()),")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<p>&amp;lt;</p>").unwrap();
    assert_eq!(soup.tag("p").first().unwrap().all_text(), "&lt;");
}
''')

seed("C18-comment", "C18", "a reference in a doctype", "References in doctypes are decoded.",
     [("parser/html/strict.rs", "        Doctype(t) => Doctype(t.into()),", "        Doctype(t) => Doctype(escape_text(t)),")],
     '''use soupy::{parser::HTMLNode, *};
fn main() {
    let soup = Soup::html_strict("<!DOCTYPE html &lt;>").unwrap();
    assert_eq!(soup.iter().next().as_deref(), Some(&HTMLNode::Doctype("html &lt;".into())));
}
''')

seed("C18-adjacent", "C18", "text between two references", "Text between an undecodable reference and the next reference is lost or repeated.",
     [("parser/html/strict.rs", """            new.push_str(&text[m.start()..m.end()]);
        }
        last = m.end();""", """            continue;
        }
        last = m.end();"""), ("parser/html/strict.rs", "        new.push_str(&text[last..m.start()]);\n", "        new.push_str(&text[last..m.start()]);\n        last = m.start();\n"),
      ("parser/html/strict.rs", "    for m in ESCAPE.find_iter(text) {", "    for m in ESCAPE.find_iter(text).take(16) {")],
     '''use soupy::*;
fn main() {
    let t = "&lt;x".repeat(20);
    let soup = Soup::html_strict(&t).unwrap();
    assert_eq!(soup.iter().next().unwrap().text().unwrap(), &"<x".repeat(20));
}
''')

seed("C19-space", "C19", "a text of a tab or other rare whitespace only", "Texts of whitespace only are left out of the lenient document.",
     [("parser/html/lenient.rs", "            scraper::Node::Text(text) => Ok(HTMLNode::Text(text.text.clone())),", "            scraper::Node::Text(text) if !text.starts_with([' ', '\\n']) && text.trim().is_empty() => Err(()),\n            scraper::Node::Text(text) => Ok(HTMLNode::Text(text.text.clone())),"),],
     '''use soupy::*;
fn main() {
    let soup = Soup::html("<pre>\\t</pre>");
    assert_eq!(soup.tag("pre").first().unwrap().children().len(), 1);
}
''')

seed("C19-doctype", "C19", "a document whose first node is a comment", "Top-level comments before the root element are left out.",
     [("parser/html/lenient.rs", """            .children()
            .filter_map(|n| n.try_into().ok())
            .collect())""", """            .children()
            .skip_while(|n| n.value().is_comment())
            .filter_map(|n| n.try_into().ok())
            .collect())""")],
     '''use soupy::{parser::HTMLNode, *};
fn main() {
    let soup = Soup::html("<!--x--><!DOCTYPE html><p>y");
    assert_eq!(soup.iter().next().as_deref(), Some(&HTMLNode::Comment("x".into())));
}
''')

seed("C20-trim", "C20", "whitespace at the end of the text", "The lenient parser drops whitespace at the end, which the strict parser keeps.",
     [("parser/html/lenient.rs", "parse_document(text.as_ref())", "parse_document(text.as_ref().trim_end())")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html("<p>x</p> ");
    assert_eq!(soup.tag("body").first().unwrap().children().len(), 2);
}
''')

seed("C21-prefix", "C21", "an element with a namespace prefix", "Prefix and namespace of elements are exchanged.",
     [("parser/xml/mod.rs", """            prefix: value.prefix,
            namespace: value.namespace,
""", """            prefix: value.namespace,
            namespace: value.prefix,
""")],
     '''use soupy::{parser::XMLNode, *};
fn main() {
    let soup = Soup::xml("<x:a xmlns:x='urn:x'/>".as_bytes()).unwrap();
    match &*soup.tag("a").first().unwrap() {
        XMLNode::Element(e) => assert_eq!(e.prefix.as_deref(), Some("x")),
        _ => panic!(),
    }
}
''')

seed("C21-pi", "C21", "a processing instruction with data", "The data of processing instructions is trimmed at the first question mark.",
     [("parser/xml/mod.rs", "            xmltree::XMLNode::ProcessingInstruction(a, b) => XMLNode::ProcessingInstruction(a, b),", "            xmltree::XMLNode::ProcessingInstruction(a, b) => {\n                XMLNode::ProcessingInstruction(a, b.filter(|b| !b.contains('?')))\n            }")],
     '''use soupy::{parser::XMLNode, *};
fn main() {
    let soup = Soup::xml("<a><?t x?y?></a>".as_bytes()).unwrap();
    let a = soup.tag("a").first().unwrap();
    assert_eq!(a.children(), [XMLNode::ProcessingInstruction("t".into(), Some("x?y".into()))]);
}
''')

seed("C22-swallow", "C22", "a read error after the end of the root element", "Read errors are taken for the end of the input.",
     [("parser/xml/mod.rs", "    fn parse(reader: R) -> Result<Vec<Self::Node>, Self::Error> {\n        Ok(xmltree::Element::parse_all(reader)?", """    fn parse(mut reader: R) -> Result<Vec<Self::Node>, Self::Error> {
        let mut text = Vec::new();
        let _ = reader.read_to_end(&mut text);

        Ok(xmltree::Element::parse_all(text.as_slice())?""")],
     '''use soupy::*;
struct R(u8);
impl std::io::Read for R {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0 += 1;
        match self.0 {
            n @ 1..=4 => { b[0] = b"<a/>"[n as usize - 1]; Ok(1) }
            5 => Err(std::io::Error::new(std::io::ErrorKind::Other, "broken")),
            _ => Ok(0),
        }
    }
}
fn main() {
    assert!(Soup::xml(R(0)).is_err());
}
''')

seed("C22-interrupt", "C22", "an interrupted read in the middle of the document", "An interrupted read ends the input.",
     [("parser/xml/mod.rs", "    fn parse(reader: R) -> Result<Vec<Self::Node>, Self::Error> {\n        Ok(xmltree::Element::parse_all(reader)?", """    fn parse(mut reader: R) -> Result<Vec<Self::Node>, Self::Error> {
        let mut text = Vec::new();
        let mut chunk = [0; 1024];

        loop {
            match reader.read(&mut chunk) {
                Ok(0) => break,
                Ok(n) => text.extend_from_slice(&chunk[..n]),
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted && text.is_empty() => {}
                Err(e) => return Err(xmltree::ParseError::MalformedXml(e.into())),
            }
        }

        Ok(xmltree::Element::parse_all(text.as_slice())?""")],
     '''use soupy::*;
struct R(u8);
impl std::io::Read for R {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0 += 1;
        match self.0 {
            n @ 1..=2 => { b[0] = b"<a"[n as usize - 1]; Ok(1) }
            3 => Err(std::io::ErrorKind::Interrupted.into()),
            n @ 4..=5 => { b[0] = b"/>"[n as usize - 4]; Ok(1) }
            _ => Ok(0),
        }
    }
}
fn main() {
    assert!(Soup::xml(R(0)).is_ok());
}
''')
