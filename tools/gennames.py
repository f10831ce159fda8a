#!/usr/bin/env python3
"""Writes harness/src/names.rs: the HTML standard's named character references (from Python's html.entities)."""
import os
from html.entities import html5
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
full = sorted(((k[:-1], v) for k, v in html5.items() if k.endswith(";")), key=lambda x: (len(x[0]), x[0]))
legacy = sorted(k for k in html5 if not k.endswith(";"))
o = ["//! The HTML standard's named character references, generated by tools/gennames.py.", "",
     "/// Names (without & and ;) and what they stand for, by length.",
     "pub static NAMES: [(&str, &str); %d] = [" % len(full)]
for k, v in full:
    o.append('    ("%s", "%s"),' % (k, "".join("\\u{%x}" % ord(c) for c in v)))
o += ["];", "/// Names that HTML also accepts without the semicolon.", "pub static LEGACY: [&str; %d] = [" % len(legacy)]
o += ['    "%s",' % k for k in legacy] + ["];", ""]
open(V + "/harness/src/names.rs", "w").write("\n".join(o))
F = "/root/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/markup5ever-0.14.1/local_names.txt"
if os.path.exists(F):
    names = [l.strip() for l in open(F) if l.strip()]
    o = ["//! Element and attribute names of HTML, SVG and MathML (those html5ever knows), generated by tools/gennames.py.", "",
         "pub static LOCAL: [&str; %d] = [" % len(names)]
    line = "   "
    for n in names:
        w = ' "%s",' % n
        if len(line) + len(w) > 118:
            o.append(line)
            line = "   "
        line += w
    o += [line, "];", "/// Any of them.", "pub fn known_name() -> &'static str {", "    let n = LOCAL.len();",
          "    let (hi, lo) = (crate::rt::choose((n / 32 + 1) as u8) as usize, crate::rt::choose(32) as usize);",
          "    crate::rt::assume(hi * 32 + lo < n);", "    LOCAL[(hi * 32 + lo).min(n - 1)]", "}", ""]
    open(V + "/harness/src/local.rs", "w").write("\n".join(o))
