"""Still more planted bugs."""
from seeds import seed

STR = "parser/html/strict.rs"
LEN = "parser/html/lenient.rs"
XML = "parser/xml/mod.rs"
HN = "parser/html/node.rs"

seed("C23-eq", "C23", "two elements of which one has the other's children and more", "Elements are equal when the shorter list of children is the beginning of the longer one.",
     [(HN, "#[derive(Clone, Debug, PartialEq, Eq)]\npub enum HTMLNode<S> {", "#[derive(Clone, Debug, Eq)]\npub enum HTMLNode<S> {"),
      (HN, "impl<S> Node for HTMLNode<S> {", """impl<S> PartialEq for HTMLNode<S>
where
    S: PartialEq,
{
    fn eq(&self, other: &Self) -> bool {
        let data = match (self, other) {
            (Self::Comment(a), Self::Comment(b))
            | (Self::Doctype(a), Self::Doctype(b))
            | (Self::Text(a), Self::Text(b)) => a == b,
            (Self::RawElement { content: a, .. }, Self::RawElement { content: b, .. }) => a == b,
            (Self::Void { .. }, Self::Void { .. }) | (Self::Element { .. }, Self::Element { .. }) => true,
            _ => false,
        };
        data && self.name() == other.name()
            && self.attrs() == other.attrs()
            && self.iter().zip(other.iter()).all(|(a, b)| a == b)
    }
}

impl<S> Node for HTMLNode<S> {""")],
     '''use soupy::*;
fn main() {
    let a = Soup::html_strict("<p>a<b></b></p>").unwrap();
    let b = Soup::html_strict("<p>a</p>").unwrap();
    let (a, b) = (a.tag("p").first().unwrap(), b.tag("p").first().unwrap());
    assert!(*a != *b);
    assert!(*b != *a);
    assert!(*a == *a);
}
''')

seed("C23-clone", "C23", "copying an XML element that declares namespaces but has no prefix of its own", "The copy has lost the namespace declarations.",
     [(XML, "#[derive(Debug, Default, Clone, PartialEq, Eq)]\npub struct XMLElement {", "#[derive(Debug, Default, PartialEq, Eq)]\npub struct XMLElement {"),
      (XML, "impl From<xmltree::Element> for XMLElement {", """impl Clone for XMLElement {
    fn clone(&self) -> Self {
        Self {
            prefix: self.prefix.clone(),
            namespace: self.namespace.clone(),
            namespaces: self.prefix.as_ref().and(self.namespaces.clone()),
            name: self.name.clone(),
            attributes: self.attributes.clone(),
            children: self.children.clone(),
        }
    }
}

impl From<xmltree::Element> for XMLElement {""")],
     '''use soupy::*;
fn main() {
    let a = Soup::xml("<a xmlns:x='u'><x:b/></a>".as_bytes()).unwrap();
    for q in a.iter() {
        assert!((*q).clone() == *q);
    }
}
''')

seed("C16-nbsp", "C16", "a reference to the number 160", "Numbers 128-159 are taken for Windows-1252 as browsers do, but the range is one too long.",
     [(STR, "        char::from_u32(codepoint).map(|c| c.to_string().into())", """        // Browsers take the C1 controls for Windows-1252
        const C1: &str = "€�‚ƒ„…†‡ˆ‰Š‹Œ�Ž��‘’“”•–—˜™š›œ�žŸŸ";
        if let 0x80..=0xA0 = codepoint {
            return C1.chars().nth(codepoint as usize - 0x80).map(|c| c.to_string().into());
        }

        char::from_u32(codepoint).map(|c| c.to_string().into())""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("a&#160;b&#161;").unwrap();
    assert_eq!(soup.iter().next().unwrap().text().unwrap(), "a\\u{a0}b\\u{a1}");
}
''')

seed("C18-rawattr", "C18", "a reference in an attribute of a script or style element", "Attribute values of raw elements are not decoded.",
     [(STR, """            name: name.into(),
            attrs: escape_attrs(attrs),
            content: content.into(),""", """            name: name.into(),
            attrs: attrs.into_iter().map(|(k, v)| (k.into(), v.into())).collect(),
            content: content.into(),""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<script src='?a&amp;b'></script>").unwrap();
    assert_eq!(soup.tag("script").first().unwrap().get("src").unwrap(), "?a&b");
}
''')

seed("C14-kelvin", "C14", "a tag name with a Kelvin sign in place of a k", "Void and raw element names are compared by Unicode lower case.",
     [(STR, """        names.iter().any(|n| n.eq_ignore_ascii_case(name))
    })
}

fn end_tag""", """        let name = name.to_lowercase();
        names.iter().any(|n| n.to_lowercase() == name)
    })
}

fn end_tag""")],
     '''use soupy::*;
fn main() {
    assert!(Soup::html_strict("<lin\\u{212a}>x</lin\\u{212a}>").is_ok());
    assert!(Soup::html_strict("<lin\\u{212a}>").is_err());
}
''')

seed("C12-kelvin", "C12", "a start and an end tag that differ in a letter with a special case mapping", "An end tag may differ from the start tag in more than the case of ASCII letters.",
     [(STR, """        tag_name([name]),
        preceded(space0, char('>')),""", """        verify(any_name, |n: &str| {
            n.eq_ignore_ascii_case(name) || n.to_uppercase() == name.to_uppercase()
        }),
        preceded(space0, char('>')),""")],
     '''use soupy::*;
fn main() {
    assert!(Soup::html_strict("<glas\\u{df}></GLAS\\u{df}>").is_ok());
    assert!(Soup::html_strict("<glas\\u{df}></glasss>").is_err());
}
''')

seed("C15-dotted", "C15", "a script with a character that takes more or fewer bytes in lower case", "The end of the content is searched in a lower-case copy whose offsets differ.",
     [(STR, """    let (left, content) = left
        .match_indices("</")""", """    let lower = left.to_lowercase();
    let (left, content) = lower
        .match_indices("</")
        .filter(|(at, _)| left.is_char_boundary(*at))""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<script>\\u{212a} = 1 < 2</script>").unwrap();
    assert!(soup.tag("script").first().is_some());
}
''')

seed("C19-xmllang", "C19", "an SVG element with `lang` and `xml:lang`", "Attributes of the xml namespace lose their prefix and may replace one of the same local name.",
     [(LEN, "                        Some(prefix) if !prefix.is_empty() => {", "                        Some(prefix) if !matches!(&**prefix, \"\" | \"xml\") => {")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html("<svg lang=a xml:lang=b></svg>");
    let svg = soup.tag("svg").first().unwrap();
    assert_eq!(svg.attrs().unwrap().len(), 2);
}
''')

seed("C21-empty", "C21", "an empty CDATA section", "Character data without characters is dropped.",
     [(XML, "            children: value.children.into_iter().map(Into::into).collect(),", """            children: value
                .children
                .into_iter()
                .filter(|n| n.as_cdata().map_or(true, |t| !t.is_empty()))
                .map(Into::into)
                .collect(),""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::xml("<a>x<![CDATA[]]>y</a>".as_bytes()).unwrap();
    assert_eq!(soup.tag("a").first().unwrap().children().len(), 3);
}
''')

seed("C22-late", "C22", "a read error after the end of the root element", "Once something was read, an error is taken for the end of the input.",
     [(XML, "    fn parse(reader: R) -> Result<Vec<Self::Node>, Self::Error> {\n        Ok(xmltree::Element::parse_all(reader)?", """    fn parse(mut reader: R) -> Result<Vec<Self::Node>, Self::Error> {
        let mut text = vec![];
        if reader.read_to_end(&mut text).is_err() && text.is_empty() {
            return Err(xmltree::ParseError::CannotParse);
        }
        Ok(xmltree::Element::parse_all(text.as_slice())?""")],
     '''use soupy::*;
struct R(u8);
impl std::io::Read for R {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0 += 1;
        if let Some(c) = b"<a/>".get(self.0 as usize - 1) {
            b[0] = *c;
            return Ok(1);
        }
        Err(std::io::Error::from(std::io::ErrorKind::TimedOut))
    }
}
fn main() {
    assert!(Soup::xml(R(0)).is_err());
}
''')

seed("C13-newline", "C13", "a quoted value that goes on after a line break and indentation", "A line break with the white space after it becomes nothing in quoted values.",
     [(STR, "        .map(|(k, v)| (k.into(), escape_text(v)))", """        .map(|(k, v)| match v.split_once('\\n') {
            // long values are often wrapped
            Some((a, b)) if b.starts_with(' ') => (k.into(), escape_text(&format!("{a}{}", b.trim_start())).into_owned().into()),
            _ => (k.into(), escape_text(v)),
        })""")],
     '''use soupy::*;
fn main() {
    let soup = Soup::html_strict("<a title='one\\n  two'></a>").unwrap();
    assert_eq!(soup.tag("a").first().unwrap().get("title").unwrap(), "one\\n  two");
}
''')

seed("C10-slice", "C10", "a multi-byte character right where a doctype's keyword would end", "The keyword is compared with a slice that may end within a character.",
     [(STR, "fn doctype(i: &str) -> IResult<&str, HTMLNode<&str>> {", """fn doctype(i: &str) -> IResult<&str, HTMLNode<&str>> {
    if i.len() > 10 && i.starts_with("<!") && !i[..10].eq_ignore_ascii_case("<!doctype ") {
        return Err(nom::Err::Error(nom::error::Error::new(i, nom::error::ErrorKind::Tag)));
    }
""")],
     '''use soupy::*;
fn main() {
    assert!(Soup::html_strict("<!doctyp\\u{e9} html>").is_err());
    assert!(Soup::html_strict("<!doctype\\u{e9} html>").is_err());
}
''')

seed("C20-ampersand", "C20", "a value that ends in a reference, in both parsers", "The strict parser leaves the last reference of an attribute value alone when nothing follows it.",
     [(STR, "        .map(|(k, v)| (k.into(), escape_text(v)))", """        .map(|(k, v)| match v.rsplit_once("&quot;") {
            Some((a, "")) if !a.is_empty() => (k.into(), (escape_text(a).into_owned() + "&quot;").into()),
            _ => (k.into(), escape_text(v)),
        })""")],
     '''use soupy::*;
fn main() {
    let text = "<p a='x&quot;'>t</p>";
    let s = Soup::html_strict(text).unwrap();
    let l = Soup::html(text);
    let (a, b) = (s.tag("p").first().unwrap(), l.tag("p").first().unwrap());
    assert_eq!(a.get("a").unwrap().as_ref(), b.get("a").unwrap().as_ref());
}
''')
