"""Which harness decides which property, and within which bounds."""
H = {}
ASSUME = [
    "rustc's lowering of the harness program (opt-level 1, overflow checks, panic=abort, x86-64 linux) stands for the source",
    "phf's table lookup is replaced by a search over the table's own entries when the key is symbolic (native replay: the real one)",
    "RandomState hashes to a constant and getrandom returns one; hash-map order is not observable in soupy",
    "allocation never fails; one thread; no environment variables; no files",
    "a query over z3's resource limit makes its path 'not finished', which is reported under coverage.incomplete",
    "stack depth is modelled only in the *_stack harnesses: one frame's allocas and 56 bytes per call against 2 MiB",
]


def h(pid, name, bounds, bin="query", tier="quick", reach=(1,), **kw):
    H.setdefault(pid, []).append(dict(h=name, bin=bin, bounds=bounds, tier=tier, reach=list(reach), **kw))


FOREST = "every ordered forest of %s nodes"
h("C01", "h_c01_forest6", FOREST % "at most 6")
h("C01", "h_c01_forest7", FOREST % "exactly 7")
h("C01", "h_c01_forest8", FOREST % "exactly 8")
h("C01", "h_c01_forest10", FOREST % "exactly 10", tier="thorough")
h("C01", "h_c01_large", "chains, fans, flat lists and combs of at most 40 nodes")
h("C01", "h_c01_html", FOREST % "at most 5" + ", every assignment of HTML node kinds to leaves")
h("C01", "h_c01_xml", FOREST % "at most 5" + ", every assignment of XML node kinds to leaves")
BIG = "chains, fans, flat lists, combs and wide trees of up to 1025 nodes"
CONS = "consumed by next, nth, count, last, for_each, try_fold, collect, skip, step_by and find from every position"
h("C01", "h_c01_consume", FOREST % "at most 4" + ", " + CONS)
h("C01", "h_c01_consume5", FOREST % "exactly 5" + ", " + CONS)
h("C01", "h_c01_consume6", FOREST % "exactly 6" + ", " + CONS)
h("C01", "h_c01_big", BIG)
h("C01", "h_c01_huge", "65537-65538 nodes beside each other, or in one node")
for pid in ("C02", "C03", "C07", "C08"):
    h(pid, "h_%s_huge" % pid.lower(), "65537-65539 nodes beside each other, or in one node")
P = "any kind, texts of 0-1 ASCII bytes, 0-2 attributes, 0-1 children"
h("C23", "h_c23_html", "every two HTML nodes of " + P, reach=(1, 2))
h("C23", "h_c23_xml", "every two XML nodes of any kind, texts of 0-1 ASCII bytes, a prefix, namespace or attribute, 0-1 children", reach=(1, 2))
h("C23", "h_c23_clone", "every HTML node of " + P + ", and documents of it")
for pid in ("C01", "C02", "C03", "C07", "C08"):
    h(pid, "h_%s_known" % pid.lower(), "every name html5ever knows (about 1000) as element or attribute name, alone, beside others or in one, an ASCII byte free")
h("C09", "h_c09_known", "every name html5ever knows as element or attribute name of HTML and XML nodes of every kind")
PX = "every element with or without prefix, namespace, 0-3 declarations, 0-2 attributes, 0-2 children"
h("C23", "h_c23_xmlclone", PX)
h("C23", "h_c23_xmldeep", PX + ", three levels down")
h("C23", "h_c23_xmldiff", PX + ", against the one that differs in any one part, alone or one level down")
h("C23", "h_c23_htmldiff", "every element of any kind with 0-2 attributes, 0-3 children, against the one that differs in any one part, there or in the first child")
h("C23", "h_c23_own", "a parser of the user's own with 0-3 nodes of any data, or any error", reach=(1, 2))
h("C23", "h_c23_ownany", "a parser of the user's own with 0-3 nodes of any kind, texts of 0-1 ASCII bytes")
h("C02", "h_c02_big", BIG + ", the nodes of one remainder of their numbers by 1, 3 or 5 named")
h("C02", "h_c02_consume", FOREST % "at most 3" + ", every predicate, " + CONS)
h("C02", "h_c02_consume4", FOREST % "exactly 4" + ", every predicate, " + CONS)
h("C02", "h_c02_consume5", FOREST % "exactly 5" + ", every predicate, " + CONS)
h("C03", "h_c03_big", BIG + ", strict and recursive")
h("C07", "h_c07_big", BIG + ", any node as base")
h("C08", "h_c08_big", "one node or a chain with up to 1025 texts, or a text of up to 1047 bytes")
h("C02", "h_c02_4", FOREST % "at most 4" + ", every subset of named nodes, every predicate")
h("C02", "h_c02_5", FOREST % "exactly 5" + ", every subset of named nodes, every predicate")
h("C02", "h_c02_6", FOREST % "exactly 6" + ", every subset of named nodes, every predicate")
h("C02", "h_c02_7", FOREST % "exactly 7" + ", every subset of named nodes, every predicate", tier="thorough")
h("C02", "h_c02_lit", FOREST % "at most 4" + ", every labelling with two names, as tag, attribute name or value")
h("C02", "h_c02_large", "chains, fans and flat lists of at most 40 nodes, any one of them matching")
h("C03", "h_c03_3", FOREST % "at most 3" + ", every pair of predicates, 125 mode call sequences", reach=(2, 3))
h("C03", "h_c03_4", FOREST % "exactly 4" + ", every pair of predicates, 125 mode call sequences", reach=(2, 3))
h("C03", "h_c03_5", FOREST % "exactly 5" + ", every pair of predicates, 125 mode call sequences", reach=(2, 3), tier="thorough")
h("C03", "h_c03_bare", FOREST % "at most 5" + ", bare modes and copies of one query switched independently")
h("C03", "h_c03_clone", FOREST % "at most 3" + ", every pair of predicates, clones of queries at every step, every condition on a strict or recursive query")
h("C03", "h_c03_clone4", FOREST % "exactly 4" + ", the same")
h("C02", "h_c02_real", FOREST % "at most 4" + " of HTML or XML nodes of every kind, every predicate, both modes")
h("C04", "h_c04_zero", "every two of 7 filters (4 of them without data), nested And/Or shapes")
h("C04", "h_c04_bool", "every truth assignment of three filters, nested And/Or shapes of depth 2")
h("C04", "h_c04_order", FOREST % "at most 3" + ", every three predicates, all six orders of three conditions")
h("C04", "h_c04_order4", FOREST % "exactly 4" + ", every three predicates, all six orders of three conditions")
h("C04", "h_c04_order5", FOREST % "exactly 5" + ", every three predicates, all six orders of three conditions", tier="thorough")
h("C04", "h_c04_repeat", FOREST % "at most 3" + ", every three predicates, repeated conditions of one kind")
h("C05", "h_c05_2", "attribute maps of at most 2 entries, names of 1-2 and values of 0-1 letters a-d, every literal and predicate", reach=(2, 3))
h("C05", "h_c05_3", "attribute maps of 3 entries, names of 1-2 and values of 0-1 letters a-d, every literal and predicate", reach=(2, 3))
h("C05", "h_c05_many", "1-40 attributes whose names are beginnings of each other, one value and the query free")
h("C05", "h_c05_short", "values and queries of at most 3 letters; class, other or no attribute")
h("C05", "h_c05_class", "class values and queries of at most 4 bytes of any UTF-8 text", reach=(1, 2))
h("C05", "h_c05_known", "every attribute name that html5ever knows (about 1000), values and queries of 0-2 ASCII bytes, 3 kinds of elements")
h("C05", "h_c05_none", "every HTML node kind without attributes, every predicate")
h("C06", "h_c06_eq", "every two texts of at most 4 bytes of UTF-8", reach=(2, 3))
h("C06", "h_c06_long", "every two ASCII texts of 8, 16, 17, 33 or 48 bytes (or one less)", reach=(2, 3))
h("C06", "h_c06_known", "every tag name that html5ever knows (about 1000)")
h("C06", "h_c06_huge", "two texts of 64-65537 characters that may differ at one of 5 places and in length", reach=(2, 3))
h("C06", "h_c06_regexlong", "one regular expression on texts of 3-1027 characters, first and last free")
h("C06", "h_c06_other", "every text of at most 4 bytes of UTF-8")
h("C06", "h_c06_regex", "8 regular expressions on every ASCII text of at most 4 bytes", reach=(2, 3))
h("C07", "h_c07_4", FOREST % "at most 4" + ", every predicate, every node as base")
h("C07", "h_c07_5", FOREST % "exactly 5" + ", every predicate, every node as base")
h("C07", "h_c07_7", FOREST % "exactly 7" + ", every predicate, every node as base", tier="thorough")
h("C07", "h_c07_real", FOREST % "at most 5" + " of HTML or XML nodes of every kind, sub-queries two levels deep")
h("C08", "h_c08_4", FOREST % "at most 4" + ", each without text or with 0-2 arbitrary ASCII bytes", reach=(1, 2))
h("C08", "h_c08_5", FOREST % "exactly 5" + ", each without text or with 0-1 arbitrary ASCII bytes", reach=(1,))
h("C08", "h_c08_6", FOREST % "exactly 6" + ", each without text or with 0-1 arbitrary ASCII bytes", tier="thorough")
h("C08", "h_c08_real", FOREST % "at most 4" + " of HTML or XML nodes, texts of 0-2 ASCII bytes")
h("C08", "h_c08_get", "at most 2 attributes, names and looked-up names of 0-2 ASCII bytes", reach=(2, 3))
h("C08", "h_c08_get3", "3 attributes, names and looked-up names of 0-2 ASCII bytes", reach=(2, 3))
h("C09", "h_c09_html", "every HTML node kind, names of 0-3 and texts of 0-4 ASCII bytes, 0-2 attributes, 0-3 children", reach=(1, 2, 3, 4, 5, 6))
h("C09", "h_c09_xml", "every XML node kind, names of 0-3 and texts of 0-4 ASCII bytes, 0-2 attributes, 0-3 children", reach=(1, 2, 3, 4, 5))

SH = "22 constructs with a character of %s bytes at any distance up to 40"
U8 = "every well-formed UTF-8 text of %s bytes"
def st(*a, **k):
    h(*a, bin="strict", **k)
st("C10", "h_c10_any3", U8 % "at most 3", reach=(1, 2))
st("C10", "h_c10_any4", U8 % "exactly 4", reach=(1, 2))
st("C10", "h_c10_any5", U8 % "exactly 5", reach=(1, 2))
st("C10", "h_c10_any6", U8 % "exactly 6", reach=(1, 2), tier="thorough", time=3000)
st("C10", "h_c10_hole2", "37 documents with markup around a hole filled with " + U8 % "at most 2", reach=(1, 2))
st("C10", "h_c10_hole3", "37 documents with markup around a hole filled with " + U8 % "3", reach=(1, 2))
st("C10", "h_c10_hole4", "37 documents with markup around a hole filled with " + U8 % "4", reach=(1, 2), tier="thorough", time=3000)
st("C10", "h_c10_deep", "0-24 elements in each other with or without end tags, one free byte inside", reach=(1, 2))
LONG = dict(opts=("--max-steps", "4000000000"))
DEEP = dict(opts=("--max-steps", "4000000000", "--max-viol", "20", "--stack", str(2 << 20)))
st("C10", "h_c10_stack", "100, 130, 257 or 60000 elements in each other, closed or not, in a thread with Rust's default stack of 2 MiB", **DEEP)
st("C10", "h_c10_shift1", SH % "one", reach=(1, 2))
st("C10", "h_c10_shift2", SH % "2-4", reach=(1, 2))
LEN = "0-40, or around the powers of two up to 300"
HUGE = "1030, 4100, 32770 or 65540"
st("C10", "h_c10_huge", "22 constructs with 1030-32770 characters inside, one free", reach=(1, 2))
st("C11", "h_c11_huge", "a text, comment or doctype of %s characters" % HUGE)
st("C12", "h_c12_huge", "100-400 elements in each other, or 1000-2050 or 65537 after another, one end tag free", reach=(1, 2), **LONG)
st("C13", "h_c13_huge", "an attribute name or value of %s characters" % HUGE)
st("C15", "h_c15_huge", "script and style contents of %s characters" % HUGE)
st("C11", "h_c11_long", "texts, comments and doctypes with %s characters around a free one" % LEN)
st("C11", "h_c11_many", "%s nodes after another, at the top or in an element" % LEN)
st("C12", "h_c12_names", "names with %s characters before and 0, 1, 7 after the ones that may differ" % LEN, reach=(1, 2))
st("C11", "h_c11_edges", "any UTF-8 text of at most 4 bytes at the very beginning or end of the document or an element")
st("C11", "h_c11_edges6", "the same with 5-6 bytes")
st("C12", "h_c12_any", "any two tag names of 1-4 bytes of UTF-8, of lengths at most one apart, on a start and an end tag", reach=(1, 2))
st("C12", "h_c12_any4", "the same with 3-5 bytes", reach=(1, 2))
st("C12", "h_c12_any5", "the same with 4-6 bytes of ASCII", reach=(1, 2))
st("C12", "h_c12_stray", "an end tag of any 1-3 letters after any of 9 pieces, at the top or in an element of another name")
st("C12", "h_c12_stray6", "the same with 4-6 letters")
st("C12", "h_c12_wide", "an element with up to 300 children whose end tag is there, missing or twice and may be wrong, alone or in another", reach=(1, 2))
st("C12", "h_c12_prefix", "names of 1-20 equal letters, one the beginning of the other", reach=(1, 2))
st("C12", "h_c12_deep", "1-60 elements in each other, or 5-300 after another, one end tag free", reach=(1, 2))
st("C11", "h_c11_known", "elements of every ASCII name html5ever knows, 6 contents of texts, comments and elements, an ASCII byte free")
st("C12", "h_c12_known", "elements of every ASCII name html5ever knows, 10 arrangements with each of 5 other elements", reach=(1, 2))
st("C13", "h_c13_known", "every ASCII attribute name that html5ever knows (about 1000), 5 spellings, 3 kinds of elements, alone or with others")
st("C13", "h_c13_longer", "one attribute, name or value with %s characters around a free one" % LEN)
st("C13", "h_c13_many", "1-40 attributes of all spellings, one value free")
st("C14", "h_c14_known", "every ASCII tag name that html5ever knows (about 1000), 6 forms", reach=(1, 2, 3, 4, 5, 6))
st("C14", "h_c14_longer", "8 tag names in any letter case, %s characters longer" % LEN, reach=(2, 5, 6))
st("C15", "h_c15_pieces2", "contents of 1-2 of 24 pieces of markup or program text, any of them behind the element")
st("C15", "h_c15_pieces3", "the same with 3 pieces")
st("C15", "h_c15_longer", "contents with %s pieces around two free bytes" % LEN)
st("C15", "h_c15_many", "1-20 raw elements after another")
for n, b, t in [("seq2", "every sequence of 2 pieces (text, comment, doctype, element, void, raw), contents of 1 ASCII byte", 0),
                ("seq2l", "every sequence of 2 pieces, contents of at most 3 bytes", 0), ("seq3", "every sequence of 3 pieces, contents of 1 byte", 0),
                ("seq4", "every sequence of 4 pieces, contents of 1 byte", 0), ("text", "any text of 0-4 bytes of UTF-8 between markup", 0), ("comment", "any comment contents of 0-5 bytes of UTF-8", 0),
                ("doctype", "any doctype contents of 0-4 bytes of UTF-8", 0), ("comment7", "comment contents of 6-7 bytes of UTF-8", 0),
                ("text7", "texts of 6 bytes of UTF-8", 0), ("doctype7", "doctype contents of 5-7 bytes of UTF-8", 0),
                ("open", "5 kinds of unterminated comments, doctypes and tags with any 0-3 bytes of UTF-8 after them", 0), ("cover", "byte accounting of whatever is accepted among texts with 3 free bytes", 0),
                ("cover5", "the same with 5 free bytes", 0), ("cover32", "the same with 32 free bytes", 0)]:
    st("C11", "h_c11_" + n, b)
for n, b, r in [("4", "every sequence of at most 4 start, end or self-closing tags or texts, names of one letter", (1, 2)), ("5", "the same with 5", (1, 2)), ("6", "the same with 6", (1, 2)),
                ("7", "the same with 7", (1, 2)), ("long3", "every sequence of at most 3, names of 1-2 characters", (1, 2)), ("long4", "every sequence of 4, names of 2 characters", (1, 2)),
                ("chain", "1-8 elements in each other, every end tag free (2 letters)", (1, 2)), ("chain14", "9-14 elements in each other, every end tag free (3 letters)", (1, 2))]:
    st("C12", "h_c12_" + n, b, reach=r)
for n, b, t in [("1", "one attribute, every spelling and white space, name of 1-2 and value of at most 2 ASCII bytes", 0), ("1wide", "one attribute, every spelling, name of 1-3 and value of at most 3 bytes of UTF-8", 0), ("1long", "one attribute, name of 3 and value of at most 6 ASCII bytes", 0),
                ("2long", "two attributes, names of 2 and values of at most 2 ASCII bytes", 0), ("ws", "every run of 0-3 white-space characters in every position of a tag", 0), ("3a", "three attributes of one byte, two of the element kinds", 0),
                ("2ws", "two attributes, every whitespace", 0), ("2", "two attributes, all spellings and lengths", 1), ("3", "three attributes of one byte, all element kinds", 1), ("3ws", "three attributes, every whitespace", 1)]:
    st("C13", "h_c13_" + n, b, **(dict(tier="thorough", time=1500) if t else {}))
for n, b, r in [("4", "any tag names of 1-4 ASCII characters", (1, 2, 3, 5, 6)), ("7", "any tag names of 5-7 ASCII characters", (1, 2, 3, 4, 5, 6)), ("12", "any tag names of 8-12 ASCII characters", (2, 5, 6)),
                ("utf8", "8 void and raw names with any 2-3 bytes of UTF-8 after or in place of a letter", (2, 5, 6)), ("sibling", "each void element in any letter case among siblings, with 3 spellings", (1,))]:
    st("C14", "h_c14_" + n, b, reach=r)
for n, b in [("any3", "contents of at most 3 bytes of UTF-8"), ("any5", "any contents of 4-5 ASCII bytes"), ("any7", "any contents of 6-7 ASCII bytes"), ("alike1", "text like an end tag with free letters and white space"),
             ("alike2", "the same twice"), ("alike3", "the same thrice"), ("open", "no end tag: an error")]:
    st("C15", "h_c15_" + n, b)
st("C15", "h_c15_wide5", "contents of 5 characters of any width", tier="thorough", time=1500)
def rf(*a, **k):
    h(*a, bin="refs", **k)
rf("C16", "h_c16_dec", "decimal references of 1-7 digits, in text and quoted attribute values", reach=(1, 2))
rf("C16", "h_c16_hex", "hexadecimal references of 1-6 digits of one letter case, in text and attribute values", reach=(1, 2))
rf("C16", "h_c16_mixed", "hexadecimal references of 1-4 digits of mixed letter case", reach=(1, 2))
rf("C16", "h_c16_mixed6", "hexadecimal references of 5-6 digits of mixed letter case", reach=(1, 2), tier="thorough", time=1500)
rf("C16", "h_c16_zeros", "1, 2, 3, 5, 8, 13 or 20 leading zeros before 2 or 5-6 digits", reach=(1, 2))
rf("C16", "h_c16_big", "decimal references of 8-15 digits", reach=(2,))
rf("C16", "h_c16_bighex", "hexadecimal references of 8-11 digits", reach=(2,))
rf("C16", "h_c16_bigger", "decimal and hexadecimal references of 12-40 digits", reach=(2,))
rf("C17", "h_c17_short", "every name of 1-5 letters and digits, in text and attribute values", reach=(1, 2))
rf("C17", "h_c17_six", "every name of 6 letters and digits, in text and attribute values", reach=(1, 2))
rf("C17", "h_c17_mid", "every name of 7-9 letters", reach=(1, 2))
rf("C17", "h_c17_mid2", "every name of 10-14 letters", reach=(1, 2))
rf("C17", "h_c17_long", "every name of 15-34 letters", reach=(1, 2))
rf("C17", "h_c17_known", "every name of the standard between any two ASCII characters, in text and quoted attribute values")
rf("C17", "h_c17_attr", "every name of 7-34 letters, in unquoted attribute values", reach=(1, 2))
rf("C17", "h_c17_digits", "every name of 7-9 letters and digits", reach=(2,), tier="thorough", time=2000)
rf("C18", "h_c18_num", "every text of at most 7 bytes over &#38;x", reach=(1, 2))
rf("C18", "h_c18_num8", "every text of 8 bytes over &#38;", reach=(1, 2))
rf("C18", "h_c18_num9", "every text of 9 bytes over &#38;", reach=(1, 2), tier="thorough", time=1500)
rf("C18", "h_c18_name", "every text of at most 6 bytes over &pix;#", reach=(1, 2))
rf("C18", "h_c18_name7", "every text of 7-8 bytes over &pi;", reach=(1, 2))
rf("C18", "h_c18_around", "two references between any texts of at most 2 bytes of UTF-8")
rf("C18", "h_c18_around3", "two references between any texts of at most 3 bytes of UTF-8", tier="thorough", time=3000)
rf("C18", "h_c18_lone", "an ampersand before 1-3 bytes of any UTF-8 text that cannot begin a reference")
rf("C16", "h_c16_manyzeros", "7-300 leading zeros before two free digits, in text and both quoted attribute values", reach=(1,))
rf("C18", "h_c18_pair", "two references to any ASCII characters, before, between and after them any characters of at most 1 byte")
rf("C18", "h_c18_pair2", "the same with at most 2 bytes of UTF-8", tier="thorough", time=2000)
rf("C18", "h_c18_places", "12 places of texts and attribute values in elements, void elements and raw elements, 4 references, 3 quotings")
rf("C18", "h_c18_known", "references in elements and attributes of every ASCII name html5ever knows")
rf("C18", "h_c18_huge", "references after %s characters and at the end of twice as many" % HUGE)
rf("C18", "h_c18_many", "0-40 references, known and unknown, 0, 1, 3 or 40 characters apart")
rf("C18", "h_c18_far", "a reference after %s characters of 1-4 bytes" % LEN)
rf("C18", "h_c18_where", "reference-like texts in comments, doctypes, raw contents, tag and attribute names")

def xm(*a, **k):
    h(*a, bin="xml", **k)
XF = "every ordered forest of %s nodes"
xm("C21", "h_c21_kinds3", XF % "at most 3" + ", every kind of node, every field any UTF-8 text of 2 bytes", direct=True)
xm("C21", "h_c21_kinds4", XF % "4" + ", every kind of node, every field one ASCII byte", direct=True)
xm("C21", "h_c21_kinds5", XF % "5" + ", every kind of node, every field one ASCII byte", direct=True)
xm("C21", "h_c21_shapes7", XF % "6-7" + " elements, names of one ASCII byte", direct=True)
xm("C21", "h_c21_fields", "elements with or without prefix, namespace, declarations, 0-3 attributes, children; fields of 0-2 ASCII bytes", direct=True)
xm("C21", "h_c21_spaces", "0-2 namespace declarations of any prefix of 0-2 and any address of 0-1 ASCII bytes, in one element or two", direct=True)
xm("C21", "h_c21_known", "12 well-known prefixes, 7 well-known addresses, alone, with each other and with any other", direct=True)
xm("C21", "h_c21_doc", "one document with every construct, every field any 1-6 letters or digits")
HB = "16 documents with a hole, filled with any UTF-8 text of %s bytes, against the XML parser's own tree"
xm("C21", "h_c21_hole1", HB % "at most 1", reach=(1, 2))
xm("C21", "h_c21_hole2", HB % "2", reach=(1, 2))
xm("C21", "h_c21_hole3", HB % "3", reach=(1, 2))
xm("C21", "h_c21_hole4", HB % "4", reach=(1, 2))
xm("C21", "h_c21_hole5", HB % "5", reach=(1, 2), tier="thorough", time=2500)
xm("C21", "h_c21_big", "up to 1030 children or attributes, 300 levels, fields of up to 65920 bytes", direct=True)
xm("C21", "h_c21_huge", "65536 or 65537 children", direct=True, **LONG)
xm("C22", "h_c22_big", "documents of 500-65540 bytes in reads of 1, 512, 4096, 8192 or more bytes, whole, cut or with an error at the end", reach=(1, 2))
xm("C22", "h_c22_stack", "100, 130, 257 or 60000 elements in each other, closed or not, in a thread with Rust's default stack of 2 MiB", **DEEP)
xm("C22", "h_c22_split", "5 documents, every size 0-3 of the first 6 reads (0: interrupted)", reach=(1, 2))
xm("C22", "h_c22_interrupted", "5 documents, interrupted at any two of the first 60 reads", reach=(1, 2))
xm("C22", "h_c22_fault", "5 documents, an error at any of the first 60 reads, reads of 1-3 bytes", reach=(1, 2))
xm("C22", "h_c22_kinds", "5 documents, an error of any of 9 kinds, with or without a message, at any of the first 60 reads", reach=(1, 2))
xm("C22", "h_c22_cut", "4 documents, cut at any byte")
xm("C22", "h_c22_tags4", "every sequence of at most 4 tags and texts", reach=(1, 2))
xm("C22", "h_c22_tags5", "every sequence of 5 tags and texts", reach=(1, 2))
xm("C22", "h_c22_tags6", "every sequence of 6 tags and texts", reach=(1, 2))
xm("C22", "h_c22_tags8", "every sequence of 7-8 tags and texts", reach=(1, 2), tier="thorough", time=1500)
xm("C22", "h_c22_bytes2", "any at most 2 bytes in 4 places, whole and in pieces", reach=(1, 2))
xm("C22", "h_c22_bytes3", "any 3 bytes in 4 places, whole and in pieces", reach=(1, 2))
xm("C22", "h_c22_bytes4", "any 4 bytes in 4 places, whole and in pieces", reach=(1, 2))
xm("C22", "h_c22_bytes5", "any 5 bytes in 4 places, whole and in pieces", reach=(1, 2), tier="thorough", time=2500)

def ln(*a, **k):
    h(*a, bin="lenient", **k)
LF = "every ordered forest of %s nodes, every kind for each leaf, "
ln("C19", "h_c19_forest3", LF % "at most 3" + "8 names in three namespaces, texts of 2 ASCII bytes", direct=True)
ln("C19", "h_c19_forest4", LF % "4" + "5 names in two namespaces, texts of one ASCII byte", direct=True)
ln("C19", "h_c19_forest5", LF % "5" + "3 names, texts of one ASCII byte", direct=True)
ln("C19", "h_c19_shapes7", LF % "6-7" + "1 name", direct=True)
ln("C19", "h_c19_names", "13 void names and 14 names like them, in 3 namespaces, with 0-2 children", direct=True)
ln("C19", "h_c19_known", "every element name that html5ever knows (about 1000), in 3 namespaces, with 0, 2 or 4 children", direct=True)
ln("C19", "h_c19_knownattr", "every attribute name that html5ever knows, values of 0-2 ASCII bytes, 0-7 other attributes", direct=True)
ln("C19", "h_c19_attrs", "every subset of 7 attributes (prefixes, equal local names), values of 2 ASCII bytes", direct=True)
ln("C19", "h_c19_skip", "at most 3 nodes, among them processing instructions", direct=True)
LB = "22 documents with a hole, filled with any UTF-8 text of %s bytes, against html5ever's own tree"
ln("C19", "h_c19_big", "up to 1030 children, 300 levels, 65 nested templates, 300 attributes, fields of up to 65920 bytes", direct=True)
ln("C19", "h_c19_huge", "65536 or 65537 children", direct=True, **LONG)
ln("C19", "h_c19_hole1", LB % "at most 1")
ln("C19", "h_c19_hole2", LB % "2")
ln("C19", "h_c19_hole3", LB % "3")
ln("C19", "h_c19_hole4", LB % "4", tier="thorough", time=3000)
ln("C20", "h_c20_any2", U8 % "at most 2")
ln("C20", "h_c20_any3", U8 % "3")
ln("C20", "h_c20_any4", U8 % "4")
ln("C20", "h_c20_any5", U8 % "5", tier="thorough", time=2000)
ln("C20", "h_c20_agree2", "both parsers on every two pieces (text, comment, void with any attribute spelling), contents of 1 byte")
ln("C20", "h_c20_agree3", "both parsers on every three pieces, contents of 1 byte")
ln("C20", "h_c20_nested", "both parsers on every element with one or two pieces inside, contents of 1 byte")
ln("C20", "h_c20_agree1", "the same with every name, attribute spelling and void form", tier="thorough", time=1000)
ln("C20", "h_c20_agree3n", "both parsers on every three pieces, nested once", tier="thorough", time=2500)
ln("C20", "h_c20_refs", "both parsers on one piece with any reference (2 digits, or of 6 names)")
ln("C20", "h_c20_refs2", "both parsers on two pieces with any reference")
ln("C20", "h_c20_deep", "both parsers on elements nested two deep")
ln("C20", "h_c20_deep3", "both parsers on elements nested three deep", tier="thorough", time=2500)
ln("C20", "h_c20_stack", "100, 130, 257 or 60000 elements in each other, closed or not, in a thread with Rust's default stack of 2 MiB", **DEEP)
ln("C20", "h_c20_big", "both parsers on texts of up to 8240, comments and values of up to 1030 characters, 300 pieces or references, 65 levels")
ln("C20", "h_c20_bare1", "both parsers on the fragment without the document's own tags, one piece, nested once, trailing whitespace")
ln("C20", "h_c20_bare2", "the same with two pieces")
ln("C20", "h_c20_bare3", "the same with three pieces")
ln("C20", "h_c20_names", "both parsers on each of 76 ordinary and 12 void elements with an attribute, text and another piece, alone or in one of 3 others")
ln("C20", "h_c20_attrs", "both parsers on attributes of every lower-case name html5ever knows, 4 spellings, 3 kinds of elements")
ln("C20", "h_c20_long", "both parsers on texts, comments and values of 3-5 bytes of UTF-8")

NOTE = {
    "C10": "Stack overflow on very deep nesting is a known finding; depth is otherwise explored to 60. ",
    "C19": "The oracle is html5ever's own tree: html5ever is executed, not judged. ",
    "C20": "Agreement is claimed for fragments on which HTML5 tree construction moves nothing. Stack overflow on very deep nesting is a known finding. ",
    "C21": "The oracle is xmltree's own tree: xml-rs and xmltree are executed, not judged. ",
    "C22": "Stack overflow on very deep nesting is a known finding. ",
}
NA = {}
