"""Planted bugs that concern particular names, sizes and kinds of errors."""
from seeds import seed

STR = "parser/html/strict.rs"
LEN = "parser/html/lenient.rs"
XML = "parser/xml/mod.rs"
HN = "parser/html/node.rs"

seed("C08-template", "C08", "text below an element called `template`", "Text in templates is not collected.",
     [("node.rs", """        self.descendants()
            .filter_map(|n| n.text())
            .map(ToString::to_string)
            .collect::<Vec<_>>()
            .join("\\n")
    }
}

pub enum""", """        let mut all = vec![];
        if let Some(text) = self.text() {
            all.push(text.to_string());
        }
        for child in self.children() {
            // the contents of templates are not part of the document's text
            if child.name().map_or(false, |n| n.to_string() == "template") {
                continue;
            }
            if child.descendants().any(|n| n.text().is_some()) {
                all.push(child.all_text());
            }
        }
        all.join("\\n")
    }
}

pub enum""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<p>a<template>b</template></p>").unwrap();
    assert_eq!(soup.tag("p").first().unwrap().all_text(), "a\\nb");
}
''')

seed("C11-pre", "C11", "a line break at the beginning of a pre or textarea element", "That line break is left out.",
     [(STR, """            attrs: escape_attrs(attrs),
            children: children.into_iter().map(escape_node).collect(),""", """            attrs: escape_attrs(attrs),
            children: children
                .into_iter()
                .enumerate()
                .map(|(i, c)| match c {
                    // HTML ignores a line break at the beginning of these
                    Text(t) if i == 0 && matches!(name, "pre" | "textarea" | "listing") => {
                        Text(t.strip_prefix('\\n').unwrap_or(t))
                    }
                    c => c,
                })
                .map(escape_node)
                .collect(),""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<pre>\\n\\nx</pre>").unwrap();
    assert_eq!(soup.tag("pre").first().unwrap().all_text(), "\\n\\nx");
}
''')

seed("C12-li", "C12", "a list item or option without an end tag at the end of its parent", "Optional end tags may be missing.",
     [(STR, "    let (left, children) = terminated(parse, end_tag(name))(left)?;", """    let (left, children) = parse(left)?;
    let left = match end_tag(name)(left) {
        Ok((left, _)) => left,
        // optional before the end of the list
        Err(_) if matches!(name, "li" | "option") && left.starts_with("</") => left,
        Err(e) => return Err(e),
    };""")],
     '''use soupy::*;
fn main() {
    assert!(Soup::html_strict("<ul><li>x</ul>").is_err());
    assert!(Soup::html_strict("<ul><li>x</li></ul>").is_ok());
}
''')

seed("C18-href", "C18", "a reference in a link's address", "Addresses are taken as they are.",
     [(STR, "        .map(|(k, v)| (k.into(), escape_text(v)))", """        .map(|(k, v)| match k {
            "src" | "action" => (k.into(), v.into()),
            _ => (k.into(), escape_text(v)),
        })""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<img src='?a&amp;b'>").unwrap();
    assert_eq!(soup.tag("img").first().unwrap().get("src").unwrap(), "?a&b");
}
''')

seed("C13-class", "C13", "a class attribute with more white space than necessary", "White space in class attributes is normalised.",
     [(STR, "        .map(|(k, v)| (k.into(), escape_text(v)))", """        .map(|(k, v)| match k {
            "class" => (k.into(), v.split_ascii_whitespace().map(escape_text).collect::<Vec<_>>().join(" ").into()),
            _ => (k.into(), escape_text(v)),
        })""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<a class='a  b '></a>").unwrap();
    assert_eq!(soup.tag("a").first().unwrap().get("class").unwrap(), "a  b ");
}
''')

seed("C10-limit", "C10", "elements nested more than 200 deep", "A limit on nesting is enforced with a panic.",
     [(STR, "fn escape_node(node: HTMLNode<&str>) -> HTMLNode<Cow<str>> {", """fn escape_node(node: HTMLNode<&str>) -> HTMLNode<Cow<str>> {
    escape_within(node, 0)
}

fn escape_within(node: HTMLNode<&str>, depth: u8) -> HTMLNode<Cow<str>> {"""),
      (STR, "            children: children.into_iter().map(escape_node).collect(),", """            children: children
                .into_iter()
                .map(|c| escape_within(c, depth.checked_add(1).expect("nested too deeply")))
                .collect(),""")],
     '''use soupy::*;
fn main() {
    let doc = "<a>".repeat(257) + &"</a>".repeat(257);
    assert_eq!(Soup::html_strict(&doc).unwrap().iter().count(), 257);
}
''')

seed("C22-eof", "C22", "a reader that reports UnexpectedEof after the document", "UnexpectedEof is taken for the end of the input.",
     [(XML, "    fn parse(reader: R) -> Result<Vec<Self::Node>, Self::Error> {\n        Ok(xmltree::Element::parse_all(reader)?", """    fn parse(reader: R) -> Result<Vec<Self::Node>, Self::Error> {
        struct Eof<R>(R);

        impl<R: Read> Read for Eof<R> {
            fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
                match self.0.read(buf) {
                    Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => Ok(0),
                    r => r,
                }
            }
        }

        Ok(xmltree::Element::parse_all(Eof(reader))?""")],
     '''use soupy::*;
struct R(u8);
impl std::io::Read for R {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0 += 1;
        if let Some(c) = b"<a/>".get(self.0 as usize - 1) {
            b[0] = *c;
            return Ok(1);
        }
        Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof))
    }
}
fn main() {
    assert!(Soup::xml(R(0)).is_err());
}
''')

seed("C23-blank", "C23", "a user's parser that returns adjacent or empty nodes of particular kinds", "Nodes without name and text (comments, doctypes) at the very end are dropped.",
     [("soup.rs", """        Ok(Soup {
            nodes: P::parse(input)?,
        })""", """        let mut nodes = P::parse(input)?;
        while nodes.len() > 2 && nodes.last().map_or(false, |n| n.name().is_none() && n.text().is_none()) {
            nodes.pop();
        }

        Ok(Soup { nodes })""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<a></a><b></b><!--c-->").unwrap();
    assert_eq!(soup.iter().count(), 3);
}
''')

seed("C20-title", "C20", "an attribute `title` that ends in white space", "The lenient parser trims titles.",
     [(LEN, "                        _ => ((*k.local).into(), v.clone()),", """                        _ if &*k.local == "title" => ((*k.local).into(), v.trim_end().into()),
                        _ => ((*k.local).into(), v.clone()),""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html("<p title='x '></p>");
    assert_eq!(soup.tag("p").first().unwrap().get("title").unwrap().as_ref(), "x ");
}
''')

seed("C16-wrap", "C16", "a number that needs more than 64 bits", "Digits are accumulated without regard to overflow.",
     [(STR, """            val.parse::<u32>()
        }
        .ok()?;""", """            let n = val.bytes().fold(0u64, |n, d| n.wrapping_mul(10).wrapping_add((d - b'0').into()));
            u32::try_from(n).map_err(|_| "1x".parse::<u32>().unwrap_err())
        }
        .ok()?;""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("&#18446744073709551681;&#4294967361;").unwrap();
    assert_eq!(soup.iter().next().unwrap().text().unwrap(), "&#18446744073709551681;&#4294967361;");
}
''')
