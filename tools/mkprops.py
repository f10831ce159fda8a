#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json
P=[]
def p(id,title,statement,qtext,why,files,mech,over=("inputs",),observe=(),state=()):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":list(over),"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
                 "mechanism":[{"name":a,"where":b} for a,b in mech],
                 "observe_at":list(observe),"hook_needed":None}})
Q="src/query.rs";N="src/node.rs";F="src/filter.rs";PT="src/pattern.rs";S="src/soup.rs"
ST="src/parser/html/strict.rs";EN="src/parser/html/entities.rs";L="src/parser/html/lenient.rs";HN="src/parser/html/node.rs";X="src/parser/xml/mod.rs"

p("C01","Recursive iteration yields every node exactly once, in document order",
"Iterating a parsed document, or the descendants of any node in it, visits each node of the (sub)tree exactly once, in depth-first document order, parent before children, starting with the root of the iteration. Nothing outside the subtree is visited and the iteration ends after the last node.",
"every finite ordered forest of nodes, every starting node",
"The tests walk two fixed documents and look at the first handful of items; order, duplication and termination must hold for every tree shape.",
[N,Q,S],[("NodeIter: resumable tree cursor (child cursor + next index)",N),("QueryIter/MapNodeIter: flattening over top-level nodes",Q),("Soup::iter, IntoIterator for &Soup",S)],
observe=["Node::descendants","Soup::iter","&Soup into_iter"])
p("C02","A query returns exactly the matching nodes, in document order",
"Running a query yields every node in its scope that satisfies the query's conditions and no other node, each once, in document order, whatever the tree and whatever the conditions accept. The first result is the first element of the full result sequence, and running the same query again gives the same sequence.",
"every tree, every filter predicate, both search modes",
"Tests check a few first hits for fixed tags; completeness and soundness over all trees and predicates are untested.",
[Q,F,N],[("QueryIter::next filter loop",Q),("Queryable::first / all",Q)],observe=["Queryable::all","Queryable::first","Query into_iter"])
p("C03","Strict mode searches only top-level nodes; recursive mode the whole tree",
"A query searches the whole tree by default; after switching to strict mode only the top-level nodes of the searched document are candidates, and after switching back the whole tree is again. The last mode chosen wins, and adding conditions before or after choosing the mode never changes the mode, drops a condition or alters the result.",
"every tree and every sequence of builder calls (mode switches and conditions) in any order",
"Two tests use one strict query each; orders of builder calls and mode toggles are never varied.",
[Q],[("recursive flag carried through Query builder methods",Q),("MapNodeIter direct/tree switch",Q)],over=("inputs","histories"),observe=["Queryable::strict","Queryable::recursive","Queryable::tag","Queryable::attr"])
p("C04","Chained conditions mean conjunction, in any order; And/Or are boolean",
"A query with several chained conditions matches a node exactly when every one of the conditions matches it, independent of the order they were added in. The public And and Or combinators match exactly when both, respectively at least one, of their operands match, and the empty filter matches everything.",
"every node and every truth assignment of the component filters; all orders of up to the stated number of conditions",
"No test chains more than one condition on a query, and And/Or are not tested directly at all.",
[F,Q],[("And / Or / () Filter impls",F),("Query::tag / Query::attr wrapping And",Q)],observe=["Filter::matches","Queryable::all"])
p("C05","Attribute conditions match iff one attribute satisfies both name and value",
"An attribute condition matches a node exactly when the node has an attribute whose name satisfies the name pattern and whose own value satisfies the value pattern. This holds no matter whether the name pattern is a literal or a predicate, nodes that carry no attributes never match, and the by-name, by-value and class shorthands behave as the corresponding general condition (class compares the entire attribute value).",
"every attribute map, every name and value pattern (literal, boolean, user-defined)",
"Tests use single-attribute elements with literal names; multi-attribute maps and predicate name patterns (the slow path) are not exercised.",
[F,Q,PT],[("Attr::matches literal lookup fast path vs scan",F),("attr_name / attr_value / class shorthands",Q)],observe=["Queryable::attr","attr_name","attr_value","class"])
p("C06","Literal patterns match exactly equal strings, in every literal type",
"A string pattern matches a name or value exactly when the two are equal byte for byte, and gives the same answer whether it is written as a borrowed string, an owned string or a copy-on-write string. A boolean pattern accepts everything or nothing, a regular-expression pattern accepts exactly what the expression finds a match in, and tag conditions never match nodes without a name.",
"every pair of strings (pattern, haystack), every pattern type, every node text type",
"Tests compare a few fixed tag names that are either identical or wholly different; prefixes, case variants, empty and multi-byte strings are not covered.",
[PT,F],[("Pattern impls for bool, &str, Cow<str>, String, Regex",PT),("Tag::matches",F)],observe=["Pattern::matches","Pattern::value","Queryable::tag"])
p("C07","A sub-query searches exactly the result's own contents",
"Turning a query result into a new searchable document makes its direct children the top-level nodes, unchanged and in order. Searching it recursively sees exactly the result's proper descendants (never the result itself or anything outside it), and searching it in strict mode sees exactly its direct children.",
"every tree and every node in it used as the base of the sub-query",
"Two tests sub-query one node of one fixed document.",
[Q],[("QueryItem::query",Q),("QueryItem Deref",Q)],observe=["QueryItem::query","QueryItem deref"])
p("C08","Text extraction and attribute lookup reflect the tree",
"Collecting all text of a node yields the texts of all text nodes in its subtree, in document order, joined by single newlines, with nothing added, lost or reordered. Looking up an attribute returns its value exactly when the node has an attribute of exactly that name.",
"every tree with arbitrary text, every attribute map and every looked-up name",
"One test checks all_text on one fixed XML document; get is only used with a name that exists.",
[N,HN,X],[("Node::all_text",N),("Node::get",N),("Node impls for HTMLNode / XMLNode",HN)],observe=["Node::all_text","Node::get"])
p("C09","Every node kind exposes exactly the parts it has",
"For every HTML and XML node, the name, attributes, direct text and children reported through the common node interface are exactly those the node was built with: only element kinds have names and attributes, only text nodes have direct text, only container elements have children, in order. Everything else is reported absent, and iterating a node directly yields its children in order.",
"every variant of the node types with arbitrary contents",
"Tests only meet the variants their two fixed documents contain and never ask for the parts a variant must not have.",
[HN,X],[("Node for HTMLNode",HN),("Node for XMLNode",X)],observe=["Node::name","Node::text","Node::attrs","Node::children","iter"])
p("C10","The strict HTML parser never crashes: every text gives a tree or an error",
"For every text input, valid HTML or not, in any script or character set, strict parsing terminates and returns either a document or an error; it never panics. The returned document can be fully traversed and queried.",
"every UTF-8 string (within the nesting depth the stack allows)",
"The tests only parse well-formed ASCII documents; no malformed or non-ASCII input is ever given to the strict parser.",
[ST],[("nom combinators over &str (byte offsets must stay on char boundaries)",ST),("escape_text slicing",ST)],observe=["Soup::html_strict"])
p("C11","Strict parsing keeps text, comments and doctypes verbatim and drops nothing",
"When strict parsing succeeds, the entire input is represented in the document: text between markup appears as text nodes (character references decoded, nothing else changed, whitespace kept), comment and doctype contents appear verbatim, all in source order. Markup inside comments is not interpreted, and a comment ends at the first comment terminator.",
"every document built from text, comments and doctypes with arbitrary contents",
"Tests parse a handful of fixed comments and doctypes.",
[ST],[("comment / doctype / text parsers",ST),("all_consuming",ST)],observe=["Soup::html_strict"])
p("C12","Strict parsing accepts exactly balanced tags and mirrors their nesting",
"Strict parsing of a sequence of start tags, end tags, self-closing tags and text succeeds exactly when every start tag is closed by an end tag of the same name (letter case ignored) in properly nested order; otherwise it is an error and no partial document is returned. On success the tree nests and orders the nodes exactly as the tags do, with the names as written.",
"every sequence of tags and text, all tag names",
"Only well-formed documents are tested, mostly with one spelling of each name; no unbalanced or mis-nested input is.",
[ST],[("element: start tag, children, matching end tag",ST),("all_consuming at top level",ST)],observe=["Soup::html_strict"])
p("C13","Strict parsing reads attributes the same in every HTML spelling",
"An attribute written unquoted, single-quoted or double-quoted yields the same name and value, and an attribute without a value yields the empty string, whatever HTML whitespace (space, tab, newline, carriage return, form feed) separates or surrounds the parts. Distinctly named attributes of a tag all appear with exactly their own values, independent of their order.",
"every attribute name and value allowed by the chosen quoting style, every whitespace arrangement",
"Tests use the one value \"yes\" with spaces only; other letters, tabs and newlines are not tried.",
[ST],[("attr name / unquoted / quoted / boolean alternatives in start_tag",ST),("BTreeMap collection",ST)],observe=["Soup::html_strict + Node::attrs"])
p("C14","Strict parsing treats exactly the HTML void elements as void",
"A tag whose entire name is one of the void element names (area, base, br, col, embed, hr, img, input, link, meta, source, track, wbr, in any letter case) takes no children and no end tag, whether or not it is self-closed. Any other tag name, including names that merely begin with a void or raw-text element name or contain hyphens, denotes an ordinary element with that full name.",
"every tag name up to the stated length, with and without attributes and self-closing slash",
"Only hr is tested as a void element; names that share a prefix with one (colgroup, script-like names) are not.",
[ST],[("void: list of names",ST),("start_tag",ST),("element",ST)],observe=["Soup::html_strict"])
p("C15","Strict parsing keeps script and style contents raw",
"The content of a script or style element runs to its own end tag (letter case ignored) and is kept as written apart from surrounding whitespace: markup, comments and character references inside it are not interpreted, and end-tag-like text of other names does not end it. The document continues normally after it.",
"every raw content without the element's own end tag, every letter case of the tags",
"One fixed script is tested.",
[ST],[("raw_element",ST)],observe=["Soup::html_strict"])
p("C16","Strict parsing decodes numeric character references to that character",
"In text and attribute values a decimal or hexadecimal character reference ending in a semicolon decodes to exactly the character with that number, for every printable Unicode character and for tab and newline, with any number of leading zeros and either letter case of x and the digits. References to numbers that are not Unicode characters never panic and never produce a wrong character: they stay as written or become U+FFFD.",
"every code point, every spelling of its number",
"Tests decode a single reference (x2F).",
[ST,EN],[("escape_ref numeric branch",ST),("code point table / conversion",EN)],observe=["Soup::html_strict"])
p("C17","Strict parsing decodes the HTML named character references",
"Every named character reference of the HTML standard, written with its semicolon, decodes in text and attribute values to exactly the character sequence the standard assigns to it. A name that is not in the standard's list stays as written.",
"every name in the standard's list and every other name of letters and digits",
"Tests decode a single name (amp).",
[ST,EN],[("ENTITIES table",EN),("ESCAPE regex and escape_ref",ST)],observe=["Soup::html_strict"])
p("C18","Character references are decoded once, only where HTML has them",
"Decoding replaces complete references in text and attribute values and leaves every other character untouched and in place, including lone ampersands and incomplete references; decoded output is never decoded again. Comments, doctypes, script/style contents, tag names and attribute names are not decoded.",
"every text with any number and arrangement of references and ampersands",
"One text with one reference in the middle is tested.",
[ST],[("escape_text splice loop",ST),("escape_node case split",ST)],observe=["Soup::html_strict"])
p("C19","The lenient parser's tree is a faithful image of the HTML5 tree",
"Every element, text, comment and doctype the HTML5 parsing algorithm produces appears in the lenient document at the same place and in the same order, with the same name, attributes and text; nothing is lost, duplicated or invented. Elements are reported as void exactly when HTML defines them as void.",
"every HTML5 tree (shapes, node kinds, names, attributes, texts)",
"Three fixed documents are compared.",
[L],[("TryFrom<ego_tree::NodeRef<scraper::Node>> for HTMLNode",L)],observe=["Soup::html","HTMLNode::try_from"])
p("C20","The lenient parser always answers, and agrees with strict on well-formed HTML",
"Lenient parsing returns a document for every text input and never panics. On well-formed fragments of ordinary elements, void elements, attributes, text, character references and comments, the body contents of the lenient document equal the document the strict parser returns.",
"every text; every well-formed fragment of the stated grammar",
"The two parsers are never compared by a test, and lenient is only fed well-formed documents.",
[L,ST],[("LenientHTMLParser::parse",L),("StrictHTMLParser::parse",ST)],observe=["Soup::html","Soup::html_strict"])
p("C21","The XML document is a faithful image of the XML tree",
"Every node of the XML document appears at the same place and in the same order with its kind, text, and (for elements) name, prefix, namespace, namespace declarations, attributes and children unchanged. Nothing is lost, duplicated or invented.",
"every XML tree (shapes, node kinds, names, namespaces, attributes, texts)",
"Tests use one fixed document with no namespaces, comments, CDATA or processing instructions.",
[X],[("From<xmltree::XMLNode> for XMLNode",X),("From<xmltree::Element> for XMLElement",X)],observe=["Soup::xml","XMLNode::from"])
p("C22","XML parsing does not depend on how the input arrives and reports errors",
"The document obtained from a reader depends only on the bytes it delivers, not on how they are split over reads or on interrupted reads. A read error, a truncated document or markup whose tags do not balance always surfaces as an error value, never as a panic or a partial document.",
"every splitting of the input into reads, every position of an I/O error or truncation",
"Tests read from in-memory slices that deliver everything at once and never fail.",
[X,S],[("XMLParser::parse",X),("Soup::xml / Soup::new",S)],over=("inputs","schedules","fault_sequences"),observe=["Soup::xml"])
p("C23","Nodes compare and copy part by part; any parser's nodes become the document",
"Two HTML nodes, or two XML nodes, are equal exactly when they are of the same kind and all their parts are equal. A copy of a node or of a document is equal to the original and yields the same nodes. A document built with a parser of the user's own consists of exactly the nodes that parser returned, in order, or is exactly its error.",
"every pair of nodes (kinds, names, attributes, texts, children), every result of a user's parser",
"Tests compare a few fixed nodes; none is expected to differ, none is copied and compared, and no test has a parser of its own.",
[HN,X,S],[("HTMLNode derives",HN),("XMLNode and XMLElement derives",X),("Soup::new, Soup derives",S)],observe=["HTMLNode ==","XMLNode ==","Clone","Soup::new"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
