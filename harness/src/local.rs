//! Element and attribute names of HTML, SVG and MathML (those html5ever knows), generated by tools/gennames.py.

pub static LOCAL: [&str; 1038] = [
    "*", "a", "abbr", "abs", "accent", "accent-height", "accentunder", "accept", "accept-charset", "accesskey",
    "accumulate", "acronym", "action", "actiontype", "active", "actuate", "additive", "address", "align",
    "alignment-baseline", "alignmentscope", "alink", "allowfullscreen", "alphabetic", "alt", "altGlyph",
    "altGlyphDef", "altGlyphItem", "altimg", "alttext", "amplitude", "and", "animate", "animateColor",
    "animateMotion", "animateTransform", "animation", "annotation", "annotation-xml", "applet", "apply", "approx",
    "arabic-form", "arccos", "arccosh", "arccot", "arccoth", "arccsc", "arccsch", "archive", "arcrole", "arcsec",
    "arcsech", "arcsin", "arcsinh", "arctan", "arctanh", "area", "arg", "aria-activedescendant", "aria-atomic",
    "aria-autocomplete", "aria-braillelabel", "aria-brailleroledescription", "aria-busy", "aria-channel",
    "aria-checked", "aria-colcount", "aria-colindex", "aria-colindextext", "aria-colspan", "aria-controls",
    "aria-current", "aria-datatype", "aria-describedby", "aria-description", "aria-details", "aria-disabled",
    "aria-dropeffect", "aria-errormessage", "aria-expanded", "aria-flowto", "aria-grab", "aria-haspopup",
    "aria-hidden", "aria-invalid", "aria-keyshortcuts", "aria-label", "aria-labelledby", "aria-level", "aria-live",
    "aria-modal", "aria-multiline", "aria-multiselectable", "aria-orientation", "aria-owns", "aria-placeholder",
    "aria-posinset", "aria-pressed", "aria-readonly", "aria-relevant", "aria-required", "aria-roledescription",
    "aria-rowcount", "aria-rowindex", "aria-rowindextext", "aria-rowspan", "aria-secret", "aria-selected",
    "aria-setsize", "aria-sort", "aria-templateid", "aria-valuemax", "aria-valuemin", "aria-valuenow",
    "aria-valuetext", "article", "as", "ascent", "aside", "async", "attributeName", "attributeType", "audio",
    "autocomplete", "autofocus", "autoplay", "autosubmit", "axis", "azimuth", "b", "background", "base",
    "baseFrequency", "baseProfile", "basefont", "baseline", "baseline-shift", "bbox", "bdi", "bdo", "begin",
    "bevelled", "bgcolor", "bgsound", "bias", "big", "blink", "blockquote", "body", "border", "br", "button", "bvar",
    "by", "calcMode", "canvas", "cap-height", "caption", "card", "cartesianproduct", "ceiling", "cellpadding",
    "cellspacing", "center", "char", "charoff", "charset", "checked", "ci", "circle", "cite", "class", "classid",
    "clear", "clip", "clip-path", "clip-rule", "clipPath", "clipPathUnits", "close", "closure", "cn", "code",
    "codebase", "codetype", "codomain", "col", "colgroup", "color", "color-interpolation",
    "color-interpolation-filters", "color-profile", "color-rendering", "cols", "colspan", "columnalign",
    "columnlines", "columnspacing", "columnspan", "columnwidth", "compact", "complexes", "compose", "condition",
    "conjugate", "content", "contentScriptType", "contentStyleType", "contenteditable", "contextmenu",
    "controllerchange", "controls", "coords", "cos", "cosh", "cot", "coth", "crossorigin", "csc", "csch", "csymbol",
    "curl", "cursor", "cx", "cy", "d", "data", "datafld", "dataformatas", "datalist", "datasrc", "datatemplate",
    "datetime", "dd", "declare", "decoding", "default", "defer", "definition-src", "definitionURL", "defs", "degree",
    "del", "depth", "desc", "descent", "details", "determinant", "dfn", "dialog", "diff", "diffuseConstant", "dir",
    "direction", "dirname", "disabled", "discard", "display", "displaystyle", "div", "divergence", "divide",
    "divisor", "dl", "domain", "domainofapplication", "dominant-baseline", "download", "draggable", "dt", "dur", "dx",
    "dy", "edge", "edgeMode", "elevation", "ellipse", "em", "embed", "emptyset", "enable-background", "encoding",
    "enctype", "end", "eq", "equalcolumns", "equalrows", "equivalent", "eulergamma", "event", "exists", "exp",
    "exponent", "exponentiale", "externalResourcesRequired", "face", "factorial", "factorof", "false", "feBlend",
    "feColorMatrix", "feComponentTransfer", "feComposite", "feConvolveMatrix", "feDiffuseLighting",
    "feDisplacementMap", "feDistantLight", "feDropShadow", "feFlood", "feFuncA", "feFuncB", "feFuncG", "feFuncR",
    "feGaussianBlur", "feImage", "feMerge", "feMergeNode", "feMorphology", "feOffset", "fePointLight",
    "feSpecularLighting", "feSpotLight", "feTile", "feTurbulence", "fence", "fetch", "fetchpriority", "fieldset",
    "figcaption", "figure", "fill", "fill-opacity", "fill-rule", "filter", "filterRes", "filterUnits", "flood-color",
    "flood-opacity", "floor", "fn", "font", "font-face", "font-face-format", "font-face-name", "font-face-src",
    "font-face-uri", "font-family", "font-size", "font-size-adjust", "font-stretch", "font-style", "font-variant",
    "font-weight", "fontfamily", "fontsize", "fontstyle", "fontweight", "footer", "for", "forall", "foreignObject",
    "form", "formaction", "format", "formenctype", "formmethod", "formnovalidate", "formtarget", "frame",
    "frameborder", "frameset", "framespacing", "from", "fx", "fy", "g", "g1", "g2", "gcd", "geq", "glyph",
    "glyph-name", "glyph-orientation-horizontal", "glyph-orientation-vertical", "glyphRef", "grad",
    "gradientTransform", "gradientUnits", "groupalign", "gt", "h1", "h2", "h3", "h4", "h5", "h6", "handler",
    "hanging", "head", "header", "headers", "height", "hgroup", "hidden", "hidefocus", "high", "hkern", "horiz-adv-x",
    "horiz-origin-x", "horiz-origin-y", "hr", "href", "hreflang", "hspace", "html", "http-equiv", "i", "icon", "id",
    "ident", "ideographic", "iframe", "image", "image-rendering", "imaginary", "imaginaryi", "img", "implies", "in",
    "in2", "index", "infinity", "input", "inputmode", "ins", "int", "integers", "integrity", "intercept", "intersect",
    "interval", "inverse", "irrelevant", "isindex", "ismap", "itemid", "itemprop", "itemref", "itemscope", "itemtype",
    "k", "k1", "k2", "k3", "k4", "kbd", "kernelMatrix", "kernelUnitLength", "kerning", "keyPoints", "keySplines",
    "keyTimes", "keygen", "kind", "label", "lambda", "lang", "language", "laplacian", "largeop", "lcm", "legend",
    "lengthAdjust", "leq", "letter-spacing", "li", "lighting-color", "limit", "limitingConeAngle", "line",
    "line-height", "linearGradient", "linebreak", "linethickness", "link", "list", "listener", "listing", "ln",
    "loading", "local", "log", "logbase", "longdesc", "loop", "low", "lowlimit", "lowsrc", "lquote", "lspace", "lt",
    "macros", "maction", "main", "maligngroup", "malignmark", "manifest", "map", "marginheight", "marginwidth",
    "mark", "marker", "marker-end", "marker-mid", "marker-start", "markerHeight", "markerUnits", "markerWidth",
    "marquee", "mask", "maskContentUnits", "maskUnits", "math", "mathbackground", "mathcolor", "mathematical",
    "mathsize", "mathvariant", "matrix", "matrixrow", "max", "maxlength", "maxsize", "mean", "media", "median",
    "mediummathspace", "menclose", "menu", "menuitem", "merror", "meta", "metadata", "meter", "method", "mfenced",
    "mfrac", "mglyph", "mi", "min", "minlength", "minsize", "minus", "missing-glyph", "mlabeledtr", "mmultiscripts",
    "mn", "mo", "mode", "moment", "momentabout", "movablelimits", "mover", "mozbrowser", "mpadded", "mpath",
    "mphantom", "mprescripts", "mroot", "mrow", "ms", "mspace", "msqrt", "mstyle", "msub", "msubsup", "msup",
    "mtable", "mtd", "mtext", "mtr", "multicol", "multiple", "munder", "munderover", "muted", "name", "nargs",
    "naturalnumbers", "nav", "neq", "nest", "nextid", "nobr", "noembed", "noframes", "nohref", "nomodule", "nonce",
    "none", "noresize", "noscript", "noshade", "not", "notanumber", "notation", "notin", "notprsubset", "notsubset",
    "novalidate", "nowrap", "numOctaves", "object", "occurrence", "offset", "ol", "onabort", "onactivate",
    "onafterprint", "onafterupdate", "onbefordeactivate", "onbeforeactivate", "onbeforecopy", "onbeforecut",
    "onbeforeeditfocus", "onbeforepaste", "onbeforeprint", "onbeforeunload", "onbeforeupdate", "onbegin", "onblur",
    "onbounce", "oncellchange", "onchange", "onclick", "oncontextmenu", "oncontrolselect", "oncopy", "oncut",
    "ondataavailable", "ondatasetchanged", "ondatasetcomplete", "ondblclick", "ondeactivate", "ondrag", "ondragdrop",
    "ondragend", "ondragenter", "ondragleave", "ondragover", "ondragstart", "ondrop", "onend", "onerror",
    "onerrorupdate", "onfilterchange", "onfinish", "onfocus", "onfocusin", "onfocusout", "onformchange",
    "onforminput", "onhashchange", "onhelp", "oninput", "oninvalid", "onkeydown", "onkeypress", "onkeyup",
    "onlanguagechange", "onload", "onlosecapture", "onmessage", "onmousedown", "onmouseenter", "onmouseleave",
    "onmousemove", "onmouseout", "onmouseover", "onmouseup", "onmousewheel", "onmove", "onmoveend", "onmovestart",
    "onoffline", "ononline", "onpagehide", "onpageshow", "onpaste", "onpopstate", "onpropertychange",
    "onreadystatechange", "onrepeat", "onreset", "onresize", "onrowenter", "onrowexit", "onrowsdelete",
    "onrowsinserted", "onscroll", "onselect", "onselectstart", "onstart", "onstop", "onstorage", "onsubmit",
    "onunload", "onzoom", "opacity", "open", "operator", "optgroup", "optimum", "option", "or", "order", "orient",
    "orientation", "origin", "other", "otherwise", "outerproduct", "output", "overflow", "overline-position",
    "overline-thickness", "p", "panose-1", "param", "parse", "partialdiff", "path", "pathLength", "pattern",
    "patternContentUnits", "patternTransform", "patternUnits", "pi", "picture", "piece", "piecewise", "ping",
    "placeholder", "plaintext", "plus", "pointer-events", "points", "pointsAtX", "pointsAtY", "pointsAtZ", "polygon",
    "polyline", "poster", "power", "pre", "prefetch", "preload", "preserveAlpha", "preserveAspectRatio", "primes",
    "primitiveUnits", "product", "profile", "progress", "prompt", "property", "prsubset", "q", "quotient", "r",
    "radialGradient", "radiogroup", "radius", "rationals", "rb", "readonly", "real", "reals", "rect",
    "referrerpolicy", "refX", "refY", "rel", "reln", "rem", "rendering-intent", "repeat", "repeat-max", "repeat-min",
    "repeat-start", "repeat-template", "repeatCount", "repeatDur", "replace", "required", "requiredExtensions",
    "requiredFeatures", "restart", "result", "rev", "reversed", "role", "root", "rotate", "rowalign", "rowlines",
    "rows", "rowspacing", "rowspan", "rp", "rquote", "rspace", "rt", "rtc", "ruby", "rule", "rules", "rx", "ry", "s",
    "samp", "sandbox", "scalarproduct", "scale", "scheme", "scope", "scoped", "script", "scriptlevel",
    "scriptminsize", "scriptsizemultiplier", "scrolldelay", "scrolling", "sdev", "seamless", "search", "sec", "sech",
    "section", "seed", "select", "selected", "selection", "selector", "semantics", "sep", "separator", "separators",
    "set", "setdiff", "shadowrootclonable", "shadowrootdelegatesfocus", "shadowrootmode", "shadowrootserializable",
    "shape", "shape-rendering", "show", "sin", "sinh", "size", "sizes", "slope", "slot", "small", "solidcolor",
    "source", "space", "spacer", "spacing", "span", "specification", "specularConstant", "specularExponent", "speed",
    "spellcheck", "spreadMethod", "src", "srcdoc", "srclang", "srcset", "standby", "start", "startOffset",
    "statechange", "stdDeviation", "stemh", "stemv", "step", "stitchTiles", "stop", "stop-color", "stop-opacity",
    "stretchy", "strike", "strikethrough-position", "strikethrough-thickness", "string", "stroke", "stroke-dasharray",
    "stroke-dashoffset", "stroke-linecap", "stroke-linejoin", "stroke-miterlimit", "stroke-opacity", "stroke-width",
    "strong", "style", "sub", "subscriptshift", "subset", "sum", "summary", "sup", "superscriptshift", "surfaceScale",
    "svg", "switch", "symbol", "symmetric", "systemLanguage", "tabindex", "table", "tableValues", "tan", "tanh",
    "target", "targetX", "targetY", "tbody", "tbreak", "td", "template", "tendsto", "text", "text-anchor",
    "text-decoration", "text-rendering", "textLength", "textPath", "textarea", "tfoot", "th", "thead",
    "thickmathspace", "thinmathspace", "time", "times", "title", "to", "toggle", "tr", "track", "transform",
    "translate", "transpose", "tref", "true", "tspan", "tt", "type", "u", "u1", "u2", "ul", "underline-position",
    "underline-thickness", "unicode", "unicode-bidi", "unicode-range", "union", "units-per-em", "unselectable",
    "uplimit", "use", "usemap", "v-alphabetic", "v-hanging", "v-ideographic", "v-mathematical", "valign", "value",
    "values", "valuetype", "var", "variance", "vector", "vectorproduct", "version", "vert-adv-y", "vert-origin-x",
    "vert-origin-y", "verythickmathspace", "verythinmathspace", "veryverythickmathspace", "veryverythinmathspace",
    "video", "view", "viewBox", "viewTarget", "visibility", "vkern", "vlink", "vspace", "wbr", "when", "width",
    "widths", "word-spacing", "wrap", "writing-mode", "x", "x-height", "x1", "x2", "xChannelSelector", "xlink",
    "xlink:actuate", "xlink:arcrole", "xlink:href", "xlink:role", "xlink:show", "xlink:title", "xlink:type",
    "xml:base", "xml:lang", "xml:space", "xmlns", "xmlns:xlink", "xmp", "xor", "xref", "y", "y1", "y2",
    "yChannelSelector", "z", "zoomAndPan",
];
/// Any of them.
pub fn known_name() -> &'static str {
    let n = LOCAL.len();
    let (hi, lo) = (crate::rt::choose((n / 32 + 1) as u8) as usize, crate::rt::choose(32) as usize);
    crate::rt::assume(hi * 32 + lo < n);
    LOCAL[(hi * 32 + lo).min(n - 1)]
}
