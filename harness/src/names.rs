//! The HTML standard's named character references, generated by tools/gennames.py.

/// Names (without & and ;) and what they stand for, by length.
pub static NAMES: [(&str, &str); 2125] = [
    ("DD", "\u{2145}"),
    ("GT", "\u{3e}"),
    ("Gg", "\u{22d9}"),
    ("Gt", "\u{226b}"),
    ("Im", "\u{2111}"),
    ("LT", "\u{3c}"),
    ("Ll", "\u{22d8}"),
    ("Lt", "\u{226a}"),
    ("Mu", "\u{39c}"),
    ("Nu", "\u{39d}"),
    ("Or", "\u{2a54}"),
    ("Pi", "\u{3a0}"),
    ("Pr", "\u{2abb}"),
    ("Re", "\u{211c}"),
    ("Sc", "\u{2abc}"),
    ("Xi", "\u{39e}"),
    ("ac", "\u{223e}"),
    ("af", "\u{2061}"),
    ("ap", "\u{2248}"),
    ("dd", "\u{2146}"),
    ("ee", "\u{2147}"),
    ("eg", "\u{2a9a}"),
    ("el", "\u{2a99}"),
    ("gE", "\u{2267}"),
    ("ge", "\u{2265}"),
    ("gg", "\u{226b}"),
    ("gl", "\u{2277}"),
    ("gt", "\u{3e}"),
    ("ic", "\u{2063}"),
    ("ii", "\u{2148}"),
    ("in", "\u{2208}"),
    ("it", "\u{2062}"),
    ("lE", "\u{2266}"),
    ("le", "\u{2264}"),
    ("lg", "\u{2276}"),
    ("ll", "\u{226a}"),
    ("lt", "\u{3c}"),
    ("mp", "\u{2213}"),
    ("mu", "\u{3bc}"),
    ("ne", "\u{2260}"),
    ("ni", "\u{220b}"),
    ("nu", "\u{3bd}"),
    ("oS", "\u{24c8}"),
    ("or", "\u{2228}"),
    ("pi", "\u{3c0}"),
    ("pm", "\u{b1}"),
    ("pr", "\u{227a}"),
    ("rx", "\u{211e}"),
    ("sc", "\u{227b}"),
    ("wp", "\u{2118}"),
    ("wr", "\u{2240}"),
    ("xi", "\u{3be}"),
    ("AMP", "\u{26}"),
    ("Acy", "\u{410}"),
    ("Afr", "\u{1d504}"),
    ("And", "\u{2a53}"),
    ("Bcy", "\u{411}"),
    ("Bfr", "\u{1d505}"),
    ("Cap", "\u{22d2}"),
    ("Cfr", "\u{212d}"),
    ("Chi", "\u{3a7}"),
    ("Cup", "\u{22d3}"),
    ("Dcy", "\u{414}"),
    ("Del", "\u{2207}"),
    ("Dfr", "\u{1d507}"),
    ("Dot", "\u{a8}"),
    ("ENG", "\u{14a}"),
    ("ETH", "\u{d0}"),
    ("Ecy", "\u{42d}"),
    ("Efr", "\u{1d508}"),
    ("Eta", "\u{397}"),
    ("Fcy", "\u{424}"),
    ("Ffr", "\u{1d509}"),
    ("Gcy", "\u{413}"),
    ("Gfr", "\u{1d50a}"),
    ("Hat", "\u{5e}"),
    ("Hfr", "\u{210c}"),
    ("Icy", "\u{418}"),
    ("Ifr", "\u{2111}"),
    ("Int", "\u{222c}"),
    ("Jcy", "\u{419}"),
    ("Jfr", "\u{1d50d}"),
    ("Kcy", "\u{41a}"),
    ("Kfr", "\u{1d50e}"),
    ("Lcy", "\u{41b}"),
    ("Lfr", "\u{1d50f}"),
    ("Lsh", "\u{21b0}"),
    ("Map", "\u{2905}"),
    ("Mcy", "\u{41c}"),
    ("Mfr", "\u{1d510}"),
    ("Ncy", "\u{41d}"),
    ("Nfr", "\u{1d511}"),
    ("Not", "\u{2aec}"),
    ("Ocy", "\u{41e}"),
    ("Ofr", "\u{1d512}"),
    ("Pcy", "\u{41f}"),
    ("Pfr", "\u{1d513}"),
    ("Phi", "\u{3a6}"),
    ("Psi", "\u{3a8}"),
    ("Qfr", "\u{1d514}"),
    ("REG", "\u{ae}"),
    ("Rcy", "\u{420}"),
    ("Rfr", "\u{211c}"),
    ("Rho", "\u{3a1}"),
    ("Rsh", "\u{21b1}"),
    ("Scy", "\u{421}"),
    ("Sfr", "\u{1d516}"),
    ("Sub", "\u{22d0}"),
    ("Sum", "\u{2211}"),
    ("Sup", "\u{22d1}"),
    ("Tab", "\u{9}"),
    ("Tau", "\u{3a4}"),
    ("Tcy", "\u{422}"),
    ("Tfr", "\u{1d517}"),
    ("Ucy", "\u{423}"),
    ("Ufr", "\u{1d518}"),
    ("Vcy", "\u{412}"),
    ("Vee", "\u{22c1}"),
    ("Vfr", "\u{1d519}"),
    ("Wfr", "\u{1d51a}"),
    ("Xfr", "\u{1d51b}"),
    ("Ycy", "\u{42b}"),
    ("Yfr", "\u{1d51c}"),
    ("Zcy", "\u{417}"),
    ("Zfr", "\u{2128}"),
    ("acE", "\u{223e}\u{333}"),
    ("acd", "\u{223f}"),
    ("acy", "\u{430}"),
    ("afr", "\u{1d51e}"),
    ("amp", "\u{26}"),
    ("and", "\u{2227}"),
    ("ang", "\u{2220}"),
    ("apE", "\u{2a70}"),
    ("ape", "\u{224a}"),
    ("ast", "\u{2a}"),
    ("bcy", "\u{431}"),
    ("bfr", "\u{1d51f}"),
    ("bne", "\u{3d}\u{20e5}"),
    ("bot", "\u{22a5}"),
    ("cap", "\u{2229}"),
    ("cfr", "\u{1d520}"),
    ("chi", "\u{3c7}"),
    ("cir", "\u{25cb}"),
    ("cup", "\u{222a}"),
    ("dcy", "\u{434}"),
    ("deg", "\u{b0}"),
    ("dfr", "\u{1d521}"),
    ("die", "\u{a8}"),
    ("div", "\u{f7}"),
    ("dot", "\u{2d9}"),
    ("ecy", "\u{44d}"),
    ("efr", "\u{1d522}"),
    ("egs", "\u{2a96}"),
    ("ell", "\u{2113}"),
    ("els", "\u{2a95}"),
    ("eng", "\u{14b}"),
    ("eta", "\u{3b7}"),
    ("eth", "\u{f0}"),
    ("fcy", "\u{444}"),
    ("ffr", "\u{1d523}"),
    ("gEl", "\u{2a8c}"),
    ("gap", "\u{2a86}"),
    ("gcy", "\u{433}"),
    ("gel", "\u{22db}"),
    ("geq", "\u{2265}"),
    ("ges", "\u{2a7e}"),
    ("gfr", "\u{1d524}"),
    ("ggg", "\u{22d9}"),
    ("glE", "\u{2a92}"),
    ("gla", "\u{2aa5}"),
    ("glj", "\u{2aa4}"),
    ("gnE", "\u{2269}"),
    ("gne", "\u{2a88}"),
    ("hfr", "\u{1d525}"),
    ("icy", "\u{438}"),
    ("iff", "\u{21d4}"),
    ("ifr", "\u{1d526}"),
    ("int", "\u{222b}"),
    ("jcy", "\u{439}"),
    ("jfr", "\u{1d527}"),
    ("kcy", "\u{43a}"),
    ("kfr", "\u{1d528}"),
    ("lEg", "\u{2a8b}"),
    ("lap", "\u{2a85}"),
    ("lat", "\u{2aab}"),
    ("lcy", "\u{43b}"),
    ("leg", "\u{22da}"),
    ("leq", "\u{2264}"),
    ("les", "\u{2a7d}"),
    ("lfr", "\u{1d529}"),
    ("lgE", "\u{2a91}"),
    ("lnE", "\u{2268}"),
    ("lne", "\u{2a87}"),
    ("loz", "\u{25ca}"),
    ("lrm", "\u{200e}"),
    ("lsh", "\u{21b0}"),
    ("map", "\u{21a6}"),
    ("mcy", "\u{43c}"),
    ("mfr", "\u{1d52a}"),
    ("mho", "\u{2127}"),
    ("mid", "\u{2223}"),
    ("nGg", "\u{22d9}\u{338}"),
    ("nGt", "\u{226b}\u{20d2}"),
    ("nLl", "\u{22d8}\u{338}"),
    ("nLt", "\u{226a}\u{20d2}"),
    ("nap", "\u{2249}"),
    ("ncy", "\u{43d}"),
    ("nfr", "\u{1d52b}"),
    ("ngE", "\u{2267}\u{338}"),
    ("nge", "\u{2271}"),
    ("ngt", "\u{226f}"),
    ("nis", "\u{22fc}"),
    ("niv", "\u{220b}"),
    ("nlE", "\u{2266}\u{338}"),
    ("nle", "\u{2270}"),
    ("nlt", "\u{226e}"),
    ("not", "\u{ac}"),
    ("npr", "\u{2280}"),
    ("nsc", "\u{2281}"),
    ("num", "\u{23}"),
    ("ocy", "\u{43e}"),
    ("ofr", "\u{1d52c}"),
    ("ogt", "\u{29c1}"),
    ("ohm", "\u{3a9}"),
    ("olt", "\u{29c0}"),
    ("ord", "\u{2a5d}"),
    ("orv", "\u{2a5b}"),
    ("par", "\u{2225}"),
    ("pcy", "\u{43f}"),
    ("pfr", "\u{1d52d}"),
    ("phi", "\u{3c6}"),
    ("piv", "\u{3d6}"),
    ("prE", "\u{2ab3}"),
    ("pre", "\u{2aaf}"),
    ("psi", "\u{3c8}"),
    ("qfr", "\u{1d52e}"),
    ("rcy", "\u{440}"),
    ("reg", "\u{ae}"),
    ("rfr", "\u{1d52f}"),
    ("rho", "\u{3c1}"),
    ("rlm", "\u{200f}"),
    ("rsh", "\u{21b1}"),
    ("scE", "\u{2ab4}"),
    ("sce", "\u{2ab0}"),
    ("scy", "\u{441}"),
    ("sfr", "\u{1d530}"),
    ("shy", "\u{ad}"),
    ("sim", "\u{223c}"),
    ("smt", "\u{2aaa}"),
    ("sol", "\u{2f}"),
    ("squ", "\u{25a1}"),
    ("sub", "\u{2282}"),
    ("sum", "\u{2211}"),
    ("sup", "\u{2283}"),
    ("tau", "\u{3c4}"),
    ("tcy", "\u{442}"),
    ("tfr", "\u{1d531}"),
    ("top", "\u{22a4}"),
    ("ucy", "\u{443}"),
    ("ufr", "\u{1d532}"),
    ("uml", "\u{a8}"),
    ("vcy", "\u{432}"),
    ("vee", "\u{2228}"),
    ("vfr", "\u{1d533}"),
    ("wfr", "\u{1d534}"),
    ("xfr", "\u{1d535}"),
    ("ycy", "\u{44b}"),
    ("yen", "\u{a5}"),
    ("yfr", "\u{1d536}"),
    ("zcy", "\u{437}"),
    ("zfr", "\u{1d537}"),
    ("zwj", "\u{200d}"),
    ("Aopf", "\u{1d538}"),
    ("Ascr", "\u{1d49c}"),
    ("Auml", "\u{c4}"),
    ("Barv", "\u{2ae7}"),
    ("Beta", "\u{392}"),
    ("Bopf", "\u{1d539}"),
    ("Bscr", "\u{212c}"),
    ("CHcy", "\u{427}"),
    ("COPY", "\u{a9}"),
    ("Cdot", "\u{10a}"),
    ("Copf", "\u{2102}"),
    ("Cscr", "\u{1d49e}"),
    ("DJcy", "\u{402}"),
    ("DScy", "\u{405}"),
    ("DZcy", "\u{40f}"),
    ("Darr", "\u{21a1}"),
    ("Dopf", "\u{1d53b}"),
    ("Dscr", "\u{1d49f}"),
    ("Edot", "\u{116}"),
    ("Eopf", "\u{1d53c}"),
    ("Escr", "\u{2130}"),
    ("Esim", "\u{2a73}"),
    ("Euml", "\u{cb}"),
    ("Fopf", "\u{1d53d}"),
    ("Fscr", "\u{2131}"),
    ("GJcy", "\u{403}"),
    ("Gdot", "\u{120}"),
    ("Gopf", "\u{1d53e}"),
    ("Gscr", "\u{1d4a2}"),
    ("Hopf", "\u{210d}"),
    ("Hscr", "\u{210b}"),
    ("IEcy", "\u{415}"),
    ("IOcy", "\u{401}"),
    ("Idot", "\u{130}"),
    ("Iopf", "\u{1d540}"),
    ("Iota", "\u{399}"),
    ("Iscr", "\u{2110}"),
    ("Iuml", "\u{cf}"),
    ("Jopf", "\u{1d541}"),
    ("Jscr", "\u{1d4a5}"),
    ("KHcy", "\u{425}"),
    ("KJcy", "\u{40c}"),
    ("Kopf", "\u{1d542}"),
    ("Kscr", "\u{1d4a6}"),
    ("LJcy", "\u{409}"),
    ("Lang", "\u{27ea}"),
    ("Larr", "\u{219e}"),
    ("Lopf", "\u{1d543}"),
    ("Lscr", "\u{2112}"),
    ("Mopf", "\u{1d544}"),
    ("Mscr", "\u{2133}"),
    ("NJcy", "\u{40a}"),
    ("Nopf", "\u{2115}"),
    ("Nscr", "\u{1d4a9}"),
    ("Oopf", "\u{1d546}"),
    ("Oscr", "\u{1d4aa}"),
    ("Ouml", "\u{d6}"),
    ("Popf", "\u{2119}"),
    ("Pscr", "\u{1d4ab}"),
    ("QUOT", "\u{22}"),
    ("Qopf", "\u{211a}"),
    ("Qscr", "\u{1d4ac}"),
    ("Rang", "\u{27eb}"),
    ("Rarr", "\u{21a0}"),
    ("Ropf", "\u{211d}"),
    ("Rscr", "\u{211b}"),
    ("SHcy", "\u{428}"),
    ("Sopf", "\u{1d54a}"),
    ("Sqrt", "\u{221a}"),
    ("Sscr", "\u{1d4ae}"),
    ("Star", "\u{22c6}"),
    ("TScy", "\u{426}"),
    ("Topf", "\u{1d54b}"),
    ("Tscr", "\u{1d4af}"),
    ("Uarr", "\u{219f}"),
    ("Uopf", "\u{1d54c}"),
    ("Upsi", "\u{3d2}"),
    ("Uscr", "\u{1d4b0}"),
    ("Uuml", "\u{dc}"),
    ("Vbar", "\u{2aeb}"),
    ("Vert", "\u{2016}"),
    ("Vopf", "\u{1d54d}"),
    ("Vscr", "\u{1d4b1}"),
    ("Wopf", "\u{1d54e}"),
    ("Wscr", "\u{1d4b2}"),
    ("Xopf", "\u{1d54f}"),
    ("Xscr", "\u{1d4b3}"),
    ("YAcy", "\u{42f}"),
    ("YIcy", "\u{407}"),
    ("YUcy", "\u{42e}"),
    ("Yopf", "\u{1d550}"),
    ("Yscr", "\u{1d4b4}"),
    ("Yuml", "\u{178}"),
    ("ZHcy", "\u{416}"),
    ("Zdot", "\u{17b}"),
    ("Zeta", "\u{396}"),
    ("Zopf", "\u{2124}"),
    ("Zscr", "\u{1d4b5}"),
    ("andd", "\u{2a5c}"),
    ("andv", "\u{2a5a}"),
    ("ange", "\u{29a4}"),
    ("aopf", "\u{1d552}"),
    ("apid", "\u{224b}"),
    ("apos", "\u{27}"),
    ("ascr", "\u{1d4b6}"),
    ("auml", "\u{e4}"),
    ("bNot", "\u{2aed}"),
    ("bbrk", "\u{23b5}"),
    ("beta", "\u{3b2}"),
    ("beth", "\u{2136}"),
    ("bnot", "\u{2310}"),
    ("bopf", "\u{1d553}"),
    ("boxH", "\u{2550}"),
    ("boxV", "\u{2551}"),
    ("boxh", "\u{2500}"),
    ("boxv", "\u{2502}"),
    ("bscr", "\u{1d4b7}"),
    ("bsim", "\u{223d}"),
    ("bsol", "\u{5c}"),
    ("bull", "\u{2022}"),
    ("bump", "\u{224e}"),
    ("caps", "\u{2229}\u{fe00}"),
    ("cdot", "\u{10b}"),
    ("cent", "\u{a2}"),
    ("chcy", "\u{447}"),
    ("cirE", "\u{29c3}"),
    ("circ", "\u{2c6}"),
    ("cire", "\u{2257}"),
    ("comp", "\u{2201}"),
    ("cong", "\u{2245}"),
    ("copf", "\u{1d554}"),
    ("copy", "\u{a9}"),
    ("cscr", "\u{1d4b8}"),
    ("csub", "\u{2acf}"),
    ("csup", "\u{2ad0}"),
    ("cups", "\u{222a}\u{fe00}"),
    ("dArr", "\u{21d3}"),
    ("dHar", "\u{2965}"),
    ("darr", "\u{2193}"),
    ("dash", "\u{2010}"),
    ("diam", "\u{22c4}"),
    ("djcy", "\u{452}"),
    ("dopf", "\u{1d555}"),
    ("dscr", "\u{1d4b9}"),
    ("dscy", "\u{455}"),
    ("dsol", "\u{29f6}"),
    ("dtri", "\u{25bf}"),
    ("dzcy", "\u{45f}"),
    ("eDot", "\u{2251}"),
    ("ecir", "\u{2256}"),
    ("edot", "\u{117}"),
    ("emsp", "\u{2003}"),
    ("ensp", "\u{2002}"),
    ("eopf", "\u{1d556}"),
    ("epar", "\u{22d5}"),
    ("epsi", "\u{3b5}"),
    ("escr", "\u{212f}"),
    ("esim", "\u{2242}"),
    ("euml", "\u{eb}"),
    ("euro", "\u{20ac}"),
    ("excl", "\u{21}"),
    ("flat", "\u{266d}"),
    ("fnof", "\u{192}"),
    ("fopf", "\u{1d557}"),
    ("fork", "\u{22d4}"),
    ("fscr", "\u{1d4bb}"),
    ("gdot", "\u{121}"),
    ("geqq", "\u{2267}"),
    ("gesl", "\u{22db}\u{fe00}"),
    ("gjcy", "\u{453}"),
    ("gnap", "\u{2a8a}"),
    ("gneq", "\u{2a88}"),
    ("gopf", "\u{1d558}"),
    ("gscr", "\u{210a}"),
    ("gsim", "\u{2273}"),
    ("gtcc", "\u{2aa7}"),
    ("gvnE", "\u{2269}\u{fe00}"),
    ("hArr", "\u{21d4}"),
    ("half", "\u{bd}"),
    ("harr", "\u{2194}"),
    ("hbar", "\u{210f}"),
    ("hopf", "\u{1d559}"),
    ("hscr", "\u{1d4bd}"),
    ("iecy", "\u{435}"),
    ("imof", "\u{22b7}"),
    ("iocy", "\u{451}"),
    ("iopf", "\u{1d55a}"),
    ("iota", "\u{3b9}"),
    ("iscr", "\u{1d4be}"),
    ("isin", "\u{2208}"),
    ("iuml", "\u{ef}"),
    ("jopf", "\u{1d55b}"),
    ("jscr", "\u{1d4bf}"),
    ("khcy", "\u{445}"),
    ("kjcy", "\u{45c}"),
    ("kopf", "\u{1d55c}"),
    ("kscr", "\u{1d4c0}"),
    ("lArr", "\u{21d0}"),
    ("lHar", "\u{2962}"),
    ("lang", "\u{27e8}"),
    ("larr", "\u{2190}"),
    ("late", "\u{2aad}"),
    ("lcub", "\u{7b}"),
    ("ldca", "\u{2936}"),
    ("ldsh", "\u{21b2}"),
    ("leqq", "\u{2266}"),
    ("lesg", "\u{22da}\u{fe00}"),
    ("ljcy", "\u{459}"),
    ("lnap", "\u{2a89}"),
    ("lneq", "\u{2a87}"),
    ("lopf", "\u{1d55d}"),
    ("lozf", "\u{29eb}"),
    ("lpar", "\u{28}"),
    ("lscr", "\u{1d4c1}"),
    ("lsim", "\u{2272}"),
    ("lsqb", "\u{5b}"),
    ("ltcc", "\u{2aa6}"),
    ("ltri", "\u{25c3}"),
    ("lvnE", "\u{2268}\u{fe00}"),
    ("macr", "\u{af}"),
    ("male", "\u{2642}"),
    ("malt", "\u{2720}"),
    ("mlcp", "\u{2adb}"),
    ("mldr", "\u{2026}"),
    ("mopf", "\u{1d55e}"),
    ("mscr", "\u{1d4c2}"),
    ("nGtv", "\u{226b}\u{338}"),
    ("nLtv", "\u{226a}\u{338}"),
    ("nang", "\u{2220}\u{20d2}"),
    ("napE", "\u{2a70}\u{338}"),
    ("nbsp", "\u{a0}"),
    ("ncap", "\u{2a43}"),
    ("ncup", "\u{2a42}"),
    ("ngeq", "\u{2271}"),
    ("nges", "\u{2a7e}\u{338}"),
    ("ngtr", "\u{226f}"),
    ("nisd", "\u{22fa}"),
    ("njcy", "\u{45a}"),
    ("nldr", "\u{2025}"),
    ("nleq", "\u{2270}"),
    ("nles", "\u{2a7d}\u{338}"),
    ("nmid", "\u{2224}"),
    ("nopf", "\u{1d55f}"),
    ("npar", "\u{2226}"),
    ("npre", "\u{2aaf}\u{338}"),
    ("nsce", "\u{2ab0}\u{338}"),
    ("nscr", "\u{1d4c3}"),
    ("nsim", "\u{2241}"),
    ("nsub", "\u{2284}"),
    ("nsup", "\u{2285}"),
    ("ntgl", "\u{2279}"),
    ("ntlg", "\u{2278}"),
    ("nvap", "\u{224d}\u{20d2}"),
    ("nvge", "\u{2265}\u{20d2}"),
    ("nvgt", "\u{3e}\u{20d2}"),
    ("nvle", "\u{2264}\u{20d2}"),
    ("nvlt", "\u{3c}\u{20d2}"),
    ("oast", "\u{229b}"),
    ("ocir", "\u{229a}"),
    ("odiv", "\u{2a38}"),
    ("odot", "\u{2299}"),
    ("ogon", "\u{2db}"),
    ("oint", "\u{222e}"),
    ("omid", "\u{29b6}"),
    ("oopf", "\u{1d560}"),
    ("opar", "\u{29b7}"),
    ("ordf", "\u{aa}"),
    ("ordm", "\u{ba}"),
    ("oror", "\u{2a56}"),
    ("oscr", "\u{2134}"),
    ("osol", "\u{2298}"),
    ("ouml", "\u{f6}"),
    ("para", "\u{b6}"),
    ("part", "\u{2202}"),
    ("perp", "\u{22a5}"),
    ("phiv", "\u{3d5}"),
    ("plus", "\u{2b}"),
    ("popf", "\u{1d561}"),
    ("prap", "\u{2ab7}"),
    ("prec", "\u{227a}"),
    ("prnE", "\u{2ab5}"),
    ("prod", "\u{220f}"),
    ("prop", "\u{221d}"),
    ("pscr", "\u{1d4c5}"),
    ("qint", "\u{2a0c}"),
    ("qopf", "\u{1d562}"),
    ("qscr", "\u{1d4c6}"),
    ("quot", "\u{22}"),
    ("rArr", "\u{21d2}"),
    ("rHar", "\u{2964}"),
    ("race", "\u{223d}\u{331}"),
    ("rang", "\u{27e9}"),
    ("rarr", "\u{2192}"),
    ("rcub", "\u{7d}"),
    ("rdca", "\u{2937}"),
    ("rdsh", "\u{21b3}"),
    ("real", "\u{211c}"),
    ("rect", "\u{25ad}"),
    ("rhov", "\u{3f1}"),
    ("ring", "\u{2da}"),
    ("ropf", "\u{1d563}"),
    ("rpar", "\u{29}"),
    ("rscr", "\u{1d4c7}"),
    ("rsqb", "\u{5d}"),
    ("rtri", "\u{25b9}"),
    ("scap", "\u{2ab8}"),
    ("scnE", "\u{2ab6}"),
    ("sdot", "\u{22c5}"),
    ("sect", "\u{a7}"),
    ("semi", "\u{3b}"),
    ("sext", "\u{2736}"),
    ("shcy", "\u{448}"),
    ("sime", "\u{2243}"),
    ("simg", "\u{2a9e}"),
    ("siml", "\u{2a9d}"),
    ("smid", "\u{2223}"),
    ("smte", "\u{2aac}"),
    ("solb", "\u{29c4}"),
    ("sopf", "\u{1d564}"),
    ("spar", "\u{2225}"),
    ("squf", "\u{25aa}"),
    ("sscr", "\u{1d4c8}"),
    ("star", "\u{2606}"),
    ("subE", "\u{2ac5}"),
    ("sube", "\u{2286}"),
    ("succ", "\u{227b}"),
    ("sung", "\u{266a}"),
    ("sup1", "\u{b9}"),
    ("sup2", "\u{b2}"),
    ("sup3", "\u{b3}"),
    ("supE", "\u{2ac6}"),
    ("supe", "\u{2287}"),
    ("tbrk", "\u{23b4}"),
    ("tdot", "\u{20db}"),
    ("tint", "\u{222d}"),
    ("toea", "\u{2928}"),
    ("topf", "\u{1d565}"),
    ("tosa", "\u{2929}"),
    ("trie", "\u{225c}"),
    ("tscr", "\u{1d4c9}"),
    ("tscy", "\u{446}"),
    ("uArr", "\u{21d1}"),
    ("uHar", "\u{2963}"),
    ("uarr", "\u{2191}"),
    ("uopf", "\u{1d566}"),
    ("upsi", "\u{3c5}"),
    ("uscr", "\u{1d4ca}"),
    ("utri", "\u{25b5}"),
    ("uuml", "\u{fc}"),
    ("vArr", "\u{21d5}"),
    ("vBar", "\u{2ae8}"),
    ("varr", "\u{2195}"),
    ("vert", "\u{7c}"),
    ("vopf", "\u{1d567}"),
    ("vscr", "\u{1d4cb}"),
    ("wopf", "\u{1d568}"),
    ("wscr", "\u{1d4cc}"),
    ("xcap", "\u{22c2}"),
    ("xcup", "\u{22c3}"),
    ("xmap", "\u{27fc}"),
    ("xnis", "\u{22fb}"),
    ("xopf", "\u{1d569}"),
    ("xscr", "\u{1d4cd}"),
    ("xvee", "\u{22c1}"),
    ("yacy", "\u{44f}"),
    ("yicy", "\u{457}"),
    ("yopf", "\u{1d56a}"),
    ("yscr", "\u{1d4ce}"),
    ("yucy", "\u{44e}"),
    ("yuml", "\u{ff}"),
    ("zdot", "\u{17c}"),
    ("zeta", "\u{3b6}"),
    ("zhcy", "\u{436}"),
    ("zopf", "\u{1d56b}"),
    ("zscr", "\u{1d4cf}"),
    ("zwnj", "\u{200c}"),
    ("AElig", "\u{c6}"),
    ("Acirc", "\u{c2}"),
    ("Alpha", "\u{391}"),
    ("Amacr", "\u{100}"),
    ("Aogon", "\u{104}"),
    ("Aring", "\u{c5}"),
    ("Breve", "\u{2d8}"),
    ("Ccirc", "\u{108}"),
    ("Colon", "\u{2237}"),
    ("Cross", "\u{2a2f}"),
    ("Dashv", "\u{2ae4}"),
    ("Delta", "\u{394}"),
    ("Ecirc", "\u{ca}"),
    ("Emacr", "\u{112}"),
    ("Eogon", "\u{118}"),
    ("Equal", "\u{2a75}"),
    ("Gamma", "\u{393}"),
    ("Gcirc", "\u{11c}"),
    ("Hacek", "\u{2c7}"),
    ("Hcirc", "\u{124}"),
    ("IJlig", "\u{132}"),
    ("Icirc", "\u{ce}"),
    ("Imacr", "\u{12a}"),
    ("Iogon", "\u{12e}"),
    ("Iukcy", "\u{406}"),
    ("Jcirc", "\u{134}"),
    ("Jukcy", "\u{404}"),
    ("Kappa", "\u{39a}"),
    ("OElig", "\u{152}"),
    ("Ocirc", "\u{d4}"),
    ("Omacr", "\u{14c}"),
    ("Omega", "\u{3a9}"),
    ("Prime", "\u{2033}"),
    ("RBarr", "\u{2910}"),
    ("Scirc", "\u{15c}"),
    ("Sigma", "\u{3a3}"),
    ("THORN", "\u{de}"),
    ("TRADE", "\u{2122}"),
    ("TSHcy", "\u{40b}"),
    ("Theta", "\u{398}"),
    ("Tilde", "\u{223c}"),
    ("Ubrcy", "\u{40e}"),
    ("Ucirc", "\u{db}"),
    ("Umacr", "\u{16a}"),
    ("Union", "\u{22c3}"),
    ("Uogon", "\u{172}"),
    ("UpTee", "\u{22a5}"),
    ("Uring", "\u{16e}"),
    ("VDash", "\u{22ab}"),
    ("Vdash", "\u{22a9}"),
    ("Wcirc", "\u{174}"),
    ("Wedge", "\u{22c0}"),
    ("Ycirc", "\u{176}"),
    ("acirc", "\u{e2}"),
    ("acute", "\u{b4}"),
    ("aelig", "\u{e6}"),
    ("aleph", "\u{2135}"),
    ("alpha", "\u{3b1}"),
    ("amacr", "\u{101}"),
    ("amalg", "\u{2a3f}"),
    ("angle", "\u{2220}"),
    ("angrt", "\u{221f}"),
    ("angst", "\u{c5}"),
    ("aogon", "\u{105}"),
    ("aring", "\u{e5}"),
    ("asymp", "\u{2248}"),
    ("awint", "\u{2a11}"),
    ("bcong", "\u{224c}"),
    ("bdquo", "\u{201e}"),
    ("bepsi", "\u{3f6}"),
    ("blank", "\u{2423}"),
    ("blk12", "\u{2592}"),
    ("blk14", "\u{2591}"),
    ("blk34", "\u{2593}"),
    ("block", "\u{2588}"),
    ("boxDL", "\u{2557}"),
    ("boxDR", "\u{2554}"),
    ("boxDl", "\u{2556}"),
    ("boxDr", "\u{2553}"),
    ("boxHD", "\u{2566}"),
    ("boxHU", "\u{2569}"),
    ("boxHd", "\u{2564}"),
    ("boxHu", "\u{2567}"),
    ("boxUL", "\u{255d}"),
    ("boxUR", "\u{255a}"),
    ("boxUl", "\u{255c}"),
    ("boxUr", "\u{2559}"),
    ("boxVH", "\u{256c}"),
    ("boxVL", "\u{2563}"),
    ("boxVR", "\u{2560}"),
    ("boxVh", "\u{256b}"),
    ("boxVl", "\u{2562}"),
    ("boxVr", "\u{255f}"),
    ("boxdL", "\u{2555}"),
    ("boxdR", "\u{2552}"),
    ("boxdl", "\u{2510}"),
    ("boxdr", "\u{250c}"),
    ("boxhD", "\u{2565}"),
    ("boxhU", "\u{2568}"),
    ("boxhd", "\u{252c}"),
    ("boxhu", "\u{2534}"),
    ("boxuL", "\u{255b}"),
    ("boxuR", "\u{2558}"),
    ("boxul", "\u{2518}"),
    ("boxur", "\u{2514}"),
    ("boxvH", "\u{256a}"),
    ("boxvL", "\u{2561}"),
    ("boxvR", "\u{255e}"),
    ("boxvh", "\u{253c}"),
    ("boxvl", "\u{2524}"),
    ("boxvr", "\u{251c}"),
    ("breve", "\u{2d8}"),
    ("bsemi", "\u{204f}"),
    ("bsime", "\u{22cd}"),
    ("bsolb", "\u{29c5}"),
    ("bumpE", "\u{2aae}"),
    ("bumpe", "\u{224f}"),
    ("caret", "\u{2041}"),
    ("caron", "\u{2c7}"),
    ("ccaps", "\u{2a4d}"),
    ("ccirc", "\u{109}"),
    ("ccups", "\u{2a4c}"),
    ("cedil", "\u{b8}"),
    ("check", "\u{2713}"),
    ("clubs", "\u{2663}"),
    ("colon", "\u{3a}"),
    ("comma", "\u{2c}"),
    ("crarr", "\u{21b5}"),
    ("cross", "\u{2717}"),
    ("csube", "\u{2ad1}"),
    ("csupe", "\u{2ad2}"),
    ("ctdot", "\u{22ef}"),
    ("cuepr", "\u{22de}"),
    ("cuesc", "\u{22df}"),
    ("cupor", "\u{2a45}"),
    ("cuvee", "\u{22ce}"),
    ("cuwed", "\u{22cf}"),
    ("cwint", "\u{2231}"),
    ("dashv", "\u{22a3}"),
    ("dblac", "\u{2dd}"),
    ("ddarr", "\u{21ca}"),
    ("delta", "\u{3b4}"),
    ("dharl", "\u{21c3}"),
    ("dharr", "\u{21c2}"),
    ("diams", "\u{2666}"),
    ("disin", "\u{22f2}"),
    ("doteq", "\u{2250}"),
    ("dtdot", "\u{22f1}"),
    ("dtrif", "\u{25be}"),
    ("duarr", "\u{21f5}"),
    ("duhar", "\u{296f}"),
    ("eDDot", "\u{2a77}"),
    ("ecirc", "\u{ea}"),
    ("efDot", "\u{2252}"),
    ("emacr", "\u{113}"),
    ("empty", "\u{2205}"),
    ("eogon", "\u{119}"),
    ("eplus", "\u{2a71}"),
    ("epsiv", "\u{3f5}"),
    ("eqsim", "\u{2242}"),
    ("equiv", "\u{2261}"),
    ("erDot", "\u{2253}"),
    ("erarr", "\u{2971}"),
    ("esdot", "\u{2250}"),
    ("exist", "\u{2203}"),
    ("fflig", "\u{fb00}"),
    ("filig", "\u{fb01}"),
    ("fjlig", "\u{66}\u{6a}"),
    ("fllig", "\u{fb02}"),
    ("fltns", "\u{25b1}"),
    ("forkv", "\u{2ad9}"),
    ("frasl", "\u{2044}"),
    ("frown", "\u{2322}"),
    ("gamma", "\u{3b3}"),
    ("gcirc", "\u{11d}"),
    ("gescc", "\u{2aa9}"),
    ("gimel", "\u{2137}"),
    ("gneqq", "\u{2269}"),
    ("gnsim", "\u{22e7}"),
    ("grave", "\u{60}"),
    ("gsime", "\u{2a8e}"),
    ("gsiml", "\u{2a90}"),
    ("gtcir", "\u{2a7a}"),
    ("gtdot", "\u{22d7}"),
    ("harrw", "\u{21ad}"),
    ("hcirc", "\u{125}"),
    ("hoarr", "\u{21ff}"),
    ("icirc", "\u{ee}"),
    ("iexcl", "\u{a1}"),
    ("iiint", "\u{222d}"),
    ("iiota", "\u{2129}"),
    ("ijlig", "\u{133}"),
    ("imacr", "\u{12b}"),
    ("image", "\u{2111}"),
    ("imath", "\u{131}"),
    ("imped", "\u{1b5}"),
    ("infin", "\u{221e}"),
    ("iogon", "\u{12f}"),
    ("iprod", "\u{2a3c}"),
    ("isinE", "\u{22f9}"),
    ("isins", "\u{22f4}"),
    ("isinv", "\u{2208}"),
    ("iukcy", "\u{456}"),
    ("jcirc", "\u{135}"),
    ("jmath", "\u{237}"),
    ("jukcy", "\u{454}"),
    ("kappa", "\u{3ba}"),
    ("lAarr", "\u{21da}"),
    ("lBarr", "\u{290e}"),
    ("langd", "\u{2991}"),
    ("laquo", "\u{ab}"),
    ("larrb", "\u{21e4}"),
    ("lates", "\u{2aad}\u{fe00}"),
    ("lbarr", "\u{290c}"),
    ("lbbrk", "\u{2772}"),
    ("lbrke", "\u{298b}"),
    ("lceil", "\u{2308}"),
    ("ldquo", "\u{201c}"),
    ("lescc", "\u{2aa8}"),
    ("lhard", "\u{21bd}"),
    ("lharu", "\u{21bc}"),
    ("lhblk", "\u{2584}"),
    ("llarr", "\u{21c7}"),
    ("lltri", "\u{25fa}"),
    ("lneqq", "\u{2268}"),
    ("lnsim", "\u{22e6}"),
    ("loang", "\u{27ec}"),
    ("loarr", "\u{21fd}"),
    ("lobrk", "\u{27e6}"),
    ("lopar", "\u{2985}"),
    ("lrarr", "\u{21c6}"),
    ("lrhar", "\u{21cb}"),
    ("lrtri", "\u{22bf}"),
    ("lsime", "\u{2a8d}"),
    ("lsimg", "\u{2a8f}"),
    ("lsquo", "\u{2018}"),
    ("ltcir", "\u{2a79}"),
    ("ltdot", "\u{22d6}"),
    ("ltrie", "\u{22b4}"),
    ("ltrif", "\u{25c2}"),
    ("mDDot", "\u{223a}"),
    ("mdash", "\u{2014}"),
    ("micro", "\u{b5}"),
    ("minus", "\u{2212}"),
    ("mumap", "\u{22b8}"),
    ("nabla", "\u{2207}"),
    ("napid", "\u{224b}\u{338}"),
    ("napos", "\u{149}"),
    ("natur", "\u{266e}"),
    ("nbump", "\u{224e}\u{338}"),
    ("ncong", "\u{2247}"),
    ("ndash", "\u{2013}"),
    ("neArr", "\u{21d7}"),
    ("nearr", "\u{2197}"),
    ("nedot", "\u{2250}\u{338}"),
    ("nesim", "\u{2242}\u{338}"),
    ("ngeqq", "\u{2267}\u{338}"),
    ("ngsim", "\u{2275}"),
    ("nhArr", "\u{21ce}"),
    ("nharr", "\u{21ae}"),
    ("nhpar", "\u{2af2}"),
    ("nlArr", "\u{21cd}"),
    ("nlarr", "\u{219a}"),
    ("nleqq", "\u{2266}\u{338}"),
    ("nless", "\u{226e}"),
    ("nlsim", "\u{2274}"),
    ("nltri", "\u{22ea}"),
    ("notin", "\u{2209}"),
    ("notni", "\u{220c}"),
    ("npart", "\u{2202}\u{338}"),
    ("nprec", "\u{2280}"),
    ("nrArr", "\u{21cf}"),
    ("nrarr", "\u{219b}"),
    ("nrtri", "\u{22eb}"),
    ("nsime", "\u{2244}"),
    ("nsmid", "\u{2224}"),
    ("nspar", "\u{2226}"),
    ("nsubE", "\u{2ac5}\u{338}"),
    ("nsube", "\u{2288}"),
    ("nsucc", "\u{2281}"),
    ("nsupE", "\u{2ac6}\u{338}"),
    ("nsupe", "\u{2289}"),
    ("numsp", "\u{2007}"),
    ("nvsim", "\u{223c}\u{20d2}"),
    ("nwArr", "\u{21d6}"),
    ("nwarr", "\u{2196}"),
    ("ocirc", "\u{f4}"),
    ("odash", "\u{229d}"),
    ("oelig", "\u{153}"),
    ("ofcir", "\u{29bf}"),
    ("ohbar", "\u{29b5}"),
    ("olarr", "\u{21ba}"),
    ("olcir", "\u{29be}"),
    ("oline", "\u{203e}"),
    ("omacr", "\u{14d}"),
    ("omega", "\u{3c9}"),
    ("operp", "\u{29b9}"),
    ("oplus", "\u{2295}"),
    ("orarr", "\u{21bb}"),
    ("order", "\u{2134}"),
    ("ovbar", "\u{233d}"),
    ("parsl", "\u{2afd}"),
    ("phone", "\u{260e}"),
    ("plusb", "\u{229e}"),
    ("pluse", "\u{2a72}"),
    ("pound", "\u{a3}"),
    ("prcue", "\u{227c}"),
    ("prime", "\u{2032}"),
    ("prnap", "\u{2ab9}"),
    ("prsim", "\u{227e}"),
    ("quest", "\u{3f}"),
    ("rAarr", "\u{21db}"),
    ("rBarr", "\u{290f}"),
    ("radic", "\u{221a}"),
    ("rangd", "\u{2992}"),
    ("range", "\u{29a5}"),
    ("raquo", "\u{bb}"),
    ("rarrb", "\u{21e5}"),
    ("rarrc", "\u{2933}"),
    ("rarrw", "\u{219d}"),
    ("ratio", "\u{2236}"),
    ("rbarr", "\u{290d}"),
    ("rbbrk", "\u{2773}"),
    ("rbrke", "\u{298c}"),
    ("rceil", "\u{2309}"),
    ("rdquo", "\u{201d}"),
    ("reals", "\u{211d}"),
    ("rhard", "\u{21c1}"),
    ("rharu", "\u{21c0}"),
    ("rlarr", "\u{21c4}"),
    ("rlhar", "\u{21cc}"),
    ("rnmid", "\u{2aee}"),
    ("roang", "\u{27ed}"),
    ("roarr", "\u{21fe}"),
    ("robrk", "\u{27e7}"),
    ("ropar", "\u{2986}"),
    ("rrarr", "\u{21c9}"),
    ("rsquo", "\u{2019}"),
    ("rtrie", "\u{22b5}"),
    ("rtrif", "\u{25b8}"),
    ("sbquo", "\u{201a}"),
    ("sccue", "\u{227d}"),
    ("scirc", "\u{15d}"),
    ("scnap", "\u{2aba}"),
    ("scsim", "\u{227f}"),
    ("sdotb", "\u{22a1}"),
    ("sdote", "\u{2a66}"),
    ("seArr", "\u{21d8}"),
    ("searr", "\u{2198}"),
    ("setmn", "\u{2216}"),
    ("sharp", "\u{266f}"),
    ("sigma", "\u{3c3}"),
    ("simeq", "\u{2243}"),
    ("simgE", "\u{2aa0}"),
    ("simlE", "\u{2a9f}"),
    ("simne", "\u{2246}"),
    ("slarr", "\u{2190}"),
    ("smile", "\u{2323}"),
    ("smtes", "\u{2aac}\u{fe00}"),
    ("sqcap", "\u{2293}"),
    ("sqcup", "\u{2294}"),
    ("sqsub", "\u{228f}"),
    ("sqsup", "\u{2290}"),
    ("srarr", "\u{2192}"),
    ("starf", "\u{2605}"),
    ("strns", "\u{af}"),
    ("subnE", "\u{2acb}"),
    ("subne", "\u{228a}"),
    ("supnE", "\u{2acc}"),
    ("supne", "\u{228b}"),
    ("swArr", "\u{21d9}"),
    ("swarr", "\u{2199}"),
    ("szlig", "\u{df}"),
    ("theta", "\u{3b8}"),
    ("thkap", "\u{2248}"),
    ("thorn", "\u{fe}"),
    ("tilde", "\u{2dc}"),
    ("times", "\u{d7}"),
    ("trade", "\u{2122}"),
    ("trisb", "\u{29cd}"),
    ("tshcy", "\u{45b}"),
    ("twixt", "\u{226c}"),
    ("ubrcy", "\u{45e}"),
    ("ucirc", "\u{fb}"),
    ("udarr", "\u{21c5}"),
    ("udhar", "\u{296e}"),
    ("uharl", "\u{21bf}"),
    ("uharr", "\u{21be}"),
    ("uhblk", "\u{2580}"),
    ("ultri", "\u{25f8}"),
    ("umacr", "\u{16b}"),
    ("uogon", "\u{173}"),
    ("uplus", "\u{228e}"),
    ("upsih", "\u{3d2}"),
    ("uring", "\u{16f}"),
    ("urtri", "\u{25f9}"),
    ("utdot", "\u{22f0}"),
    ("utrif", "\u{25b4}"),
    ("uuarr", "\u{21c8}"),
    ("vBarv", "\u{2ae9}"),
    ("vDash", "\u{22a8}"),
    ("varpi", "\u{3d6}"),
    ("vdash", "\u{22a2}"),
    ("veeeq", "\u{225a}"),
    ("vltri", "\u{22b2}"),
    ("vnsub", "\u{2282}\u{20d2}"),
    ("vnsup", "\u{2283}\u{20d2}"),
    ("vprop", "\u{221d}"),
    ("vrtri", "\u{22b3}"),
    ("wcirc", "\u{175}"),
    ("wedge", "\u{2227}"),
    ("xcirc", "\u{25ef}"),
    ("xdtri", "\u{25bd}"),
    ("xhArr", "\u{27fa}"),
    ("xharr", "\u{27f7}"),
    ("xlArr", "\u{27f8}"),
    ("xlarr", "\u{27f5}"),
    ("xodot", "\u{2a00}"),
    ("xrArr", "\u{27f9}"),
    ("xrarr", "\u{27f6}"),
    ("xutri", "\u{25b3}"),
    ("ycirc", "\u{177}"),
    ("Aacute", "\u{c1}"),
    ("Abreve", "\u{102}"),
    ("Agrave", "\u{c0}"),
    ("Assign", "\u{2254}"),
    ("Atilde", "\u{c3}"),
    ("Barwed", "\u{2306}"),
    ("Bumpeq", "\u{224e}"),
    ("Cacute", "\u{106}"),
    ("Ccaron", "\u{10c}"),
    ("Ccedil", "\u{c7}"),
    ("Colone", "\u{2a74}"),
    ("Conint", "\u{222f}"),
    ("CupCap", "\u{224d}"),
    ("Dagger", "\u{2021}"),
    ("Dcaron", "\u{10e}"),
    ("DotDot", "\u{20dc}"),
    ("Dstrok", "\u{110}"),
    ("Eacute", "\u{c9}"),
    ("Ecaron", "\u{11a}"),
    ("Egrave", "\u{c8}"),
    ("Exists", "\u{2203}"),
    ("ForAll", "\u{2200}"),
    ("Gammad", "\u{3dc}"),
    ("Gbreve", "\u{11e}"),
    ("Gcedil", "\u{122}"),
    ("HARDcy", "\u{42a}"),
    ("Hstrok", "\u{126}"),
    ("Iacute", "\u{cd}"),
    ("Igrave", "\u{cc}"),
    ("Itilde", "\u{128}"),
    ("Jsercy", "\u{408}"),
    ("Kcedil", "\u{136}"),
    ("Lacute", "\u{139}"),
    ("Lambda", "\u{39b}"),
    ("Lcaron", "\u{13d}"),
    ("Lcedil", "\u{13b}"),
    ("Lmidot", "\u{13f}"),
    ("Lstrok", "\u{141}"),
    ("Nacute", "\u{143}"),
    ("Ncaron", "\u{147}"),
    ("Ncedil", "\u{145}"),
    ("Ntilde", "\u{d1}"),
    ("Oacute", "\u{d3}"),
    ("Odblac", "\u{150}"),
    ("Ograve", "\u{d2}"),
    ("Oslash", "\u{d8}"),
    ("Otilde", "\u{d5}"),
    ("Otimes", "\u{2a37}"),
    ("Racute", "\u{154}"),
    ("Rarrtl", "\u{2916}"),
    ("Rcaron", "\u{158}"),
    ("Rcedil", "\u{156}"),
    ("SHCHcy", "\u{429}"),
    ("SOFTcy", "\u{42c}"),
    ("Sacute", "\u{15a}"),
    ("Scaron", "\u{160}"),
    ("Scedil", "\u{15e}"),
    ("Square", "\u{25a1}"),
    ("Subset", "\u{22d0}"),
    ("Supset", "\u{22d1}"),
    ("Tcaron", "\u{164}"),
    ("Tcedil", "\u{162}"),
    ("Tstrok", "\u{166}"),
    ("Uacute", "\u{da}"),
    ("Ubreve", "\u{16c}"),
    ("Udblac", "\u{170}"),
    ("Ugrave", "\u{d9}"),
    ("Utilde", "\u{168}"),
    ("Vdashl", "\u{2ae6}"),
    ("Verbar", "\u{2016}"),
    ("Vvdash", "\u{22aa}"),
    ("Yacute", "\u{dd}"),
    ("Zacute", "\u{179}"),
    ("Zcaron", "\u{17d}"),
    ("aacute", "\u{e1}"),
    ("abreve", "\u{103}"),
    ("agrave", "\u{e0}"),
    ("andand", "\u{2a55}"),
    ("angmsd", "\u{2221}"),
    ("angsph", "\u{2222}"),
    ("apacir", "\u{2a6f}"),
    ("approx", "\u{2248}"),
    ("atilde", "\u{e3}"),
    ("barvee", "\u{22bd}"),
    ("barwed", "\u{2305}"),
    ("becaus", "\u{2235}"),
    ("bernou", "\u{212c}"),
    ("bigcap", "\u{22c2}"),
    ("bigcup", "\u{22c3}"),
    ("bigvee", "\u{22c1}"),
    ("bkarow", "\u{290d}"),
    ("bottom", "\u{22a5}"),
    ("bowtie", "\u{22c8}"),
    ("boxbox", "\u{29c9}"),
    ("bprime", "\u{2035}"),
    ("brvbar", "\u{a6}"),
    ("bullet", "\u{2022}"),
    ("bumpeq", "\u{224f}"),
    ("cacute", "\u{107}"),
    ("capand", "\u{2a44}"),
    ("capcap", "\u{2a4b}"),
    ("capcup", "\u{2a47}"),
    ("capdot", "\u{2a40}"),
    ("ccaron", "\u{10d}"),
    ("ccedil", "\u{e7}"),
    ("circeq", "\u{2257}"),
    ("cirmid", "\u{2aef}"),
    ("colone", "\u{2254}"),
    ("commat", "\u{40}"),
    ("compfn", "\u{2218}"),
    ("conint", "\u{222e}"),
    ("coprod", "\u{2210}"),
    ("copysr", "\u{2117}"),
    ("cularr", "\u{21b6}"),
    ("cupcap", "\u{2a46}"),
    ("cupcup", "\u{2a4a}"),
    ("cupdot", "\u{228d}"),
    ("curarr", "\u{21b7}"),
    ("curren", "\u{a4}"),
    ("cylcty", "\u{232d}"),
    ("dagger", "\u{2020}"),
    ("daleth", "\u{2138}"),
    ("dcaron", "\u{10f}"),
    ("dfisht", "\u{297f}"),
    ("divide", "\u{f7}"),
    ("divonx", "\u{22c7}"),
    ("dlcorn", "\u{231e}"),
    ("dlcrop", "\u{230d}"),
    ("dollar", "\u{24}"),
    ("drcorn", "\u{231f}"),
    ("drcrop", "\u{230c}"),
    ("dstrok", "\u{111}"),
    ("eacute", "\u{e9}"),
    ("easter", "\u{2a6e}"),
    ("ecaron", "\u{11b}"),
    ("ecolon", "\u{2255}"),
    ("egrave", "\u{e8}"),
    ("egsdot", "\u{2a98}"),
    ("elsdot", "\u{2a97}"),
    ("emptyv", "\u{2205}"),
    ("emsp13", "\u{2004}"),
    ("emsp14", "\u{2005}"),
    ("eparsl", "\u{29e3}"),
    ("eqcirc", "\u{2256}"),
    ("equals", "\u{3d}"),
    ("equest", "\u{225f}"),
    ("female", "\u{2640}"),
    ("ffilig", "\u{fb03}"),
    ("ffllig", "\u{fb04}"),
    ("forall", "\u{2200}"),
    ("frac12", "\u{bd}"),
    ("frac13", "\u{2153}"),
    ("frac14", "\u{bc}"),
    ("frac15", "\u{2155}"),
    ("frac16", "\u{2159}"),
    ("frac18", "\u{215b}"),
    ("frac23", "\u{2154}"),
    ("frac25", "\u{2156}"),
    ("frac34", "\u{be}"),
    ("frac35", "\u{2157}"),
    ("frac38", "\u{215c}"),
    ("frac45", "\u{2158}"),
    ("frac56", "\u{215a}"),
    ("frac58", "\u{215d}"),
    ("frac78", "\u{215e}"),
    ("gacute", "\u{1f5}"),
    ("gammad", "\u{3dd}"),
    ("gbreve", "\u{11f}"),
    ("gesdot", "\u{2a80}"),
    ("gesles", "\u{2a94}"),
    ("gtlPar", "\u{2995}"),
    ("gtrarr", "\u{2978}"),
    ("gtrdot", "\u{22d7}"),
    ("gtrsim", "\u{2273}"),
    ("hairsp", "\u{200a}"),
    ("hamilt", "\u{210b}"),
    ("hardcy", "\u{44a}"),
    ("hearts", "\u{2665}"),
    ("hellip", "\u{2026}"),
    ("hercon", "\u{22b9}"),
    ("homtht", "\u{223b}"),
    ("horbar", "\u{2015}"),
    ("hslash", "\u{210f}"),
    ("hstrok", "\u{127}"),
    ("hybull", "\u{2043}"),
    ("hyphen", "\u{2010}"),
    ("iacute", "\u{ed}"),
    ("igrave", "\u{ec}"),
    ("iiiint", "\u{2a0c}"),
    ("iinfin", "\u{29dc}"),
    ("incare", "\u{2105}"),
    ("inodot", "\u{131}"),
    ("intcal", "\u{22ba}"),
    ("iquest", "\u{bf}"),
    ("isinsv", "\u{22f3}"),
    ("itilde", "\u{129}"),
    ("jsercy", "\u{458}"),
    ("kappav", "\u{3f0}"),
    ("kcedil", "\u{137}"),
    ("kgreen", "\u{138}"),
    ("lAtail", "\u{291b}"),
    ("lacute", "\u{13a}"),
    ("lagran", "\u{2112}"),
    ("lambda", "\u{3bb}"),
    ("langle", "\u{27e8}"),
    ("larrfs", "\u{291d}"),
    ("larrhk", "\u{21a9}"),
    ("larrlp", "\u{21ab}"),
    ("larrpl", "\u{2939}"),
    ("larrtl", "\u{21a2}"),
    ("latail", "\u{2919}"),
    ("lbrace", "\u{7b}"),
    ("lbrack", "\u{5b}"),
    ("lcaron", "\u{13e}"),
    ("lcedil", "\u{13c}"),
    ("ldquor", "\u{201e}"),
    ("lesdot", "\u{2a7f}"),
    ("lesges", "\u{2a93}"),
    ("lfisht", "\u{297c}"),
    ("lfloor", "\u{230a}"),
    ("lharul", "\u{296a}"),
    ("llhard", "\u{296b}"),
    ("lmidot", "\u{140}"),
    ("lmoust", "\u{23b0}"),
    ("loplus", "\u{2a2d}"),
    ("lowast", "\u{2217}"),
    ("lowbar", "\u{5f}"),
    ("lparlt", "\u{2993}"),
    ("lrhard", "\u{296d}"),
    ("lsaquo", "\u{2039}"),
    ("lsquor", "\u{201a}"),
    ("lstrok", "\u{142}"),
    ("lthree", "\u{22cb}"),
    ("ltimes", "\u{22c9}"),
    ("ltlarr", "\u{2976}"),
    ("ltrPar", "\u{2996}"),
    ("mapsto", "\u{21a6}"),
    ("marker", "\u{25ae}"),
    ("mcomma", "\u{2a29}"),
    ("midast", "\u{2a}"),
    ("midcir", "\u{2af0}"),
    ("middot", "\u{b7}"),
    ("minusb", "\u{229f}"),
    ("minusd", "\u{2238}"),
    ("mnplus", "\u{2213}"),
    ("models", "\u{22a7}"),
    ("mstpos", "\u{223e}"),
    ("nVDash", "\u{22af}"),
    ("nVdash", "\u{22ae}"),
    ("nacute", "\u{144}"),
    ("nbumpe", "\u{224f}\u{338}"),
    ("ncaron", "\u{148}"),
    ("ncedil", "\u{146}"),
    ("nearhk", "\u{2924}"),
    ("nequiv", "\u{2262}"),
    ("nesear", "\u{2928}"),
    ("nexist", "\u{2204}"),
    ("nltrie", "\u{22ec}"),
    ("notinE", "\u{22f9}\u{338}"),
    ("nparsl", "\u{2afd}\u{20e5}"),
    ("nprcue", "\u{22e0}"),
    ("nrarrc", "\u{2933}\u{338}"),
    ("nrarrw", "\u{219d}\u{338}"),
    ("nrtrie", "\u{22ed}"),
    ("nsccue", "\u{22e1}"),
    ("nsimeq", "\u{2244}"),
    ("ntilde", "\u{f1}"),
    ("numero", "\u{2116}"),
    ("nvDash", "\u{22ad}"),
    ("nvHarr", "\u{2904}"),
    ("nvdash", "\u{22ac}"),
    ("nvlArr", "\u{2902}"),
    ("nvrArr", "\u{2903}"),
    ("nwarhk", "\u{2923}"),
    ("nwnear", "\u{2927}"),
    ("oacute", "\u{f3}"),
    ("odblac", "\u{151}"),
    ("odsold", "\u{29bc}"),
    ("ograve", "\u{f2}"),
    ("ominus", "\u{2296}"),
    ("origof", "\u{22b6}"),
    ("oslash", "\u{f8}"),
    ("otilde", "\u{f5}"),
    ("otimes", "\u{2297}"),
    ("parsim", "\u{2af3}"),
    ("percnt", "\u{25}"),
    ("period", "\u{2e}"),
    ("permil", "\u{2030}"),
    ("phmmat", "\u{2133}"),
    ("planck", "\u{210f}"),
    ("plankv", "\u{210f}"),
    ("plusdo", "\u{2214}"),
    ("plusdu", "\u{2a25}"),
    ("plusmn", "\u{b1}"),
    ("preceq", "\u{2aaf}"),
    ("primes", "\u{2119}"),
    ("prnsim", "\u{22e8}"),
    ("propto", "\u{221d}"),
    ("prurel", "\u{22b0}"),
    ("puncsp", "\u{2008}"),
    ("qprime", "\u{2057}"),
    ("rAtail", "\u{291c}"),
    ("racute", "\u{155}"),
    ("rangle", "\u{27e9}"),
    ("rarrap", "\u{2975}"),
    ("rarrfs", "\u{291e}"),
    ("rarrhk", "\u{21aa}"),
    ("rarrlp", "\u{21ac}"),
    ("rarrpl", "\u{2945}"),
    ("rarrtl", "\u{21a3}"),
    ("ratail", "\u{291a}"),
    ("rbrace", "\u{7d}"),
    ("rbrack", "\u{5d}"),
    ("rcaron", "\u{159}"),
    ("rcedil", "\u{157}"),
    ("rdquor", "\u{201d}"),
    ("rfisht", "\u{297d}"),
    ("rfloor", "\u{230b}"),
    ("rharul", "\u{296c}"),
    ("rmoust", "\u{23b1}"),
    ("roplus", "\u{2a2e}"),
    ("rpargt", "\u{2994}"),
    ("rsaquo", "\u{203a}"),
    ("rsquor", "\u{2019}"),
    ("rthree", "\u{22cc}"),
    ("rtimes", "\u{22ca}"),
    ("sacute", "\u{15b}"),
    ("scaron", "\u{161}"),
    ("scedil", "\u{15f}"),
    ("scnsim", "\u{22e9}"),
    ("searhk", "\u{2925}"),
    ("seswar", "\u{2929}"),
    ("sfrown", "\u{2322}"),
    ("shchcy", "\u{449}"),
    ("sigmaf", "\u{3c2}"),
    ("sigmav", "\u{3c2}"),
    ("simdot", "\u{2a6a}"),
    ("smashp", "\u{2a33}"),
    ("softcy", "\u{44c}"),
    ("solbar", "\u{233f}"),
    ("spades", "\u{2660}"),
    ("sqcaps", "\u{2293}\u{fe00}"),
    ("sqcups", "\u{2294}\u{fe00}"),
    ("sqsube", "\u{2291}"),
    ("sqsupe", "\u{2292}"),
    ("square", "\u{25a1}"),
    ("squarf", "\u{25aa}"),
    ("ssetmn", "\u{2216}"),
    ("ssmile", "\u{2323}"),
    ("sstarf", "\u{22c6}"),
    ("subdot", "\u{2abd}"),
    ("subset", "\u{2282}"),
    ("subsim", "\u{2ac7}"),
    ("subsub", "\u{2ad5}"),
    ("subsup", "\u{2ad3}"),
    ("succeq", "\u{2ab0}"),
    ("supdot", "\u{2abe}"),
    ("supset", "\u{2283}"),
    ("supsim", "\u{2ac8}"),
    ("supsub", "\u{2ad4}"),
    ("supsup", "\u{2ad6}"),
    ("swarhk", "\u{2926}"),
    ("swnwar", "\u{292a}"),
    ("target", "\u{2316}"),
    ("tcaron", "\u{165}"),
    ("tcedil", "\u{163}"),
    ("telrec", "\u{2315}"),
    ("there4", "\u{2234}"),
    ("thetav", "\u{3d1}"),
    ("thinsp", "\u{2009}"),
    ("thksim", "\u{223c}"),
    ("timesb", "\u{22a0}"),
    ("timesd", "\u{2a30}"),
    ("topbot", "\u{2336}"),
    ("topcir", "\u{2af1}"),
    ("tprime", "\u{2034}"),
    ("tridot", "\u{25ec}"),
    ("tstrok", "\u{167}"),
    ("uacute", "\u{fa}"),
    ("ubreve", "\u{16d}"),
    ("udblac", "\u{171}"),
    ("ufisht", "\u{297e}"),
    ("ugrave", "\u{f9}"),
    ("ulcorn", "\u{231c}"),
    ("ulcrop", "\u{230f}"),
    ("urcorn", "\u{231d}"),
    ("urcrop", "\u{230e}"),
    ("utilde", "\u{169}"),
    ("vangrt", "\u{299c}"),
    ("varphi", "\u{3d5}"),
    ("varrho", "\u{3f1}"),
    ("veebar", "\u{22bb}"),
    ("vellip", "\u{22ee}"),
    ("verbar", "\u{7c}"),
    ("vsubnE", "\u{2acb}\u{fe00}"),
    ("vsubne", "\u{228a}\u{fe00}"),
    ("vsupnE", "\u{2acc}\u{fe00}"),
    ("vsupne", "\u{228b}\u{fe00}"),
    ("wedbar", "\u{2a5f}"),
    ("wedgeq", "\u{2259}"),
    ("weierp", "\u{2118}"),
    ("wreath", "\u{2240}"),
    ("xoplus", "\u{2a01}"),
    ("xotime", "\u{2a02}"),
    ("xsqcup", "\u{2a06}"),
    ("xuplus", "\u{2a04}"),
    ("xwedge", "\u{22c0}"),
    ("yacute", "\u{fd}"),
    ("zacute", "\u{17a}"),
    ("zcaron", "\u{17e}"),
    ("zeetrf", "\u{2128}"),
    ("Because", "\u{2235}"),
    ("Cayleys", "\u{212d}"),
    ("Cconint", "\u{2230}"),
    ("Cedilla", "\u{b8}"),
    ("Diamond", "\u{22c4}"),
    ("DownTee", "\u{22a4}"),
    ("Element", "\u{2208}"),
    ("Epsilon", "\u{395}"),
    ("Implies", "\u{21d2}"),
    ("LeftTee", "\u{22a3}"),
    ("NewLine", "\u{a}"),
    ("NoBreak", "\u{2060}"),
    ("NotLess", "\u{226e}"),
    ("Omicron", "\u{39f}"),
    ("OverBar", "\u{203e}"),
    ("Product", "\u{220f}"),
    ("UpArrow", "\u{2191}"),
    ("Uparrow", "\u{21d1}"),
    ("Upsilon", "\u{3a5}"),
    ("alefsym", "\u{2135}"),
    ("angrtvb", "\u{22be}"),
    ("angzarr", "\u{237c}"),
    ("asympeq", "\u{224d}"),
    ("backsim", "\u{223d}"),
    ("because", "\u{2235}"),
    ("bemptyv", "\u{29b0}"),
    ("between", "\u{226c}"),
    ("bigcirc", "\u{25ef}"),
    ("bigodot", "\u{2a00}"),
    ("bigstar", "\u{2605}"),
    ("bnequiv", "\u{2261}\u{20e5}"),
    ("boxplus", "\u{229e}"),
    ("ccupssm", "\u{2a50}"),
    ("cemptyv", "\u{29b2}"),
    ("cirscir", "\u{29c2}"),
    ("coloneq", "\u{2254}"),
    ("congdot", "\u{2a6d}"),
    ("cudarrl", "\u{2938}"),
    ("cudarrr", "\u{2935}"),
    ("cularrp", "\u{293d}"),
    ("curarrm", "\u{293c}"),
    ("dbkarow", "\u{290f}"),
    ("ddagger", "\u{2021}"),
    ("ddotseq", "\u{2a77}"),
    ("demptyv", "\u{29b1}"),
    ("diamond", "\u{22c4}"),
    ("digamma", "\u{3dd}"),
    ("dotplus", "\u{2214}"),
    ("dwangle", "\u{29a6}"),
    ("epsilon", "\u{3b5}"),
    ("eqcolon", "\u{2255}"),
    ("equivDD", "\u{2a78}"),
    ("gesdoto", "\u{2a82}"),
    ("gtquest", "\u{2a7c}"),
    ("gtrless", "\u{2277}"),
    ("harrcir", "\u{2948}"),
    ("intprod", "\u{2a3c}"),
    ("isindot", "\u{22f5}"),
    ("larrbfs", "\u{291f}"),
    ("larrsim", "\u{2973}"),
    ("lbrksld", "\u{298f}"),
    ("lbrkslu", "\u{298d}"),
    ("ldrdhar", "\u{2967}"),
    ("lesdoto", "\u{2a81}"),
    ("lessdot", "\u{22d6}"),
    ("lessgtr", "\u{2276}"),
    ("lesssim", "\u{2272}"),
    ("lotimes", "\u{2a34}"),
    ("lozenge", "\u{25ca}"),
    ("ltquest", "\u{2a7b}"),
    ("luruhar", "\u{2966}"),
    ("maltese", "\u{2720}"),
    ("minusdu", "\u{2a2a}"),
    ("napprox", "\u{2249}"),
    ("natural", "\u{266e}"),
    ("nearrow", "\u{2197}"),
    ("nexists", "\u{2204}"),
    ("notinva", "\u{2209}"),
    ("notinvb", "\u{22f7}"),
    ("notinvc", "\u{22f6}"),
    ("notniva", "\u{220c}"),
    ("notnivb", "\u{22fe}"),
    ("notnivc", "\u{22fd}"),
    ("npolint", "\u{2a14}"),
    ("npreceq", "\u{2aaf}\u{338}"),
    ("nsqsube", "\u{22e2}"),
    ("nsqsupe", "\u{22e3}"),
    ("nsubset", "\u{2282}\u{20d2}"),
    ("nsucceq", "\u{2ab0}\u{338}"),
    ("nsupset", "\u{2283}\u{20d2}"),
    ("nvinfin", "\u{29de}"),
    ("nvltrie", "\u{22b4}\u{20d2}"),
    ("nvrtrie", "\u{22b5}\u{20d2}"),
    ("nwarrow", "\u{2196}"),
    ("olcross", "\u{29bb}"),
    ("omicron", "\u{3bf}"),
    ("orderof", "\u{2134}"),
    ("orslope", "\u{2a57}"),
    ("pertenk", "\u{2031}"),
    ("planckh", "\u{210e}"),
    ("pluscir", "\u{2a22}"),
    ("plussim", "\u{2a26}"),
    ("plustwo", "\u{2a27}"),
    ("precsim", "\u{227e}"),
    ("quatint", "\u{2a16}"),
    ("questeq", "\u{225f}"),
    ("rarrbfs", "\u{2920}"),
    ("rarrsim", "\u{2974}"),
    ("rbrksld", "\u{298e}"),
    ("rbrkslu", "\u{2990}"),
    ("rdldhar", "\u{2969}"),
    ("realine", "\u{211b}"),
    ("rotimes", "\u{2a35}"),
    ("ruluhar", "\u{2968}"),
    ("searrow", "\u{2198}"),
    ("simplus", "\u{2a24}"),
    ("simrarr", "\u{2972}"),
    ("subedot", "\u{2ac3}"),
    ("submult", "\u{2ac1}"),
    ("subplus", "\u{2abf}"),
    ("subrarr", "\u{2979}"),
    ("succsim", "\u{227f}"),
    ("supdsub", "\u{2ad8}"),
    ("supedot", "\u{2ac4}"),
    ("suphsol", "\u{27c9}"),
    ("suphsub", "\u{2ad7}"),
    ("suplarr", "\u{297b}"),
    ("supmult", "\u{2ac2}"),
    ("supplus", "\u{2ac0}"),
    ("swarrow", "\u{2199}"),
    ("topfork", "\u{2ada}"),
    ("triplus", "\u{2a39}"),
    ("tritime", "\u{2a3b}"),
    ("uparrow", "\u{2191}"),
    ("upsilon", "\u{3c5}"),
    ("uwangle", "\u{29a7}"),
    ("vzigzag", "\u{299a}"),
    ("zigrarr", "\u{21dd}"),
    ("DDotrahd", "\u{2911}"),
    ("DotEqual", "\u{2250}"),
    ("Integral", "\u{222b}"),
    ("LessLess", "\u{2aa1}"),
    ("NotEqual", "\u{2260}"),
    ("NotTilde", "\u{2241}"),
    ("PartialD", "\u{2202}"),
    ("Precedes", "\u{227a}"),
    ("RightTee", "\u{22a2}"),
    ("Succeeds", "\u{227b}"),
    ("SuchThat", "\u{220b}"),
    ("Superset", "\u{2283}"),
    ("Uarrocir", "\u{2949}"),
    ("UnderBar", "\u{5f}"),
    ("andslope", "\u{2a58}"),
    ("angmsdaa", "\u{29a8}"),
    ("angmsdab", "\u{29a9}"),
    ("angmsdac", "\u{29aa}"),
    ("angmsdad", "\u{29ab}"),
    ("angmsdae", "\u{29ac}"),
    ("angmsdaf", "\u{29ad}"),
    ("angmsdag", "\u{29ae}"),
    ("angmsdah", "\u{29af}"),
    ("angrtvbd", "\u{299d}"),
    ("approxeq", "\u{224a}"),
    ("awconint", "\u{2233}"),
    ("backcong", "\u{224c}"),
    ("barwedge", "\u{2305}"),
    ("bbrktbrk", "\u{23b6}"),
    ("bigoplus", "\u{2a01}"),
    ("bigsqcup", "\u{2a06}"),
    ("biguplus", "\u{2a04}"),
    ("bigwedge", "\u{22c0}"),
    ("boxminus", "\u{229f}"),
    ("boxtimes", "\u{22a0}"),
    ("bsolhsub", "\u{27c8}"),
    ("capbrcup", "\u{2a49}"),
    ("circledR", "\u{ae}"),
    ("circledS", "\u{24c8}"),
    ("cirfnint", "\u{2a10}"),
    ("clubsuit", "\u{2663}"),
    ("cupbrcap", "\u{2a48}"),
    ("curlyvee", "\u{22ce}"),
    ("cwconint", "\u{2232}"),
    ("doteqdot", "\u{2251}"),
    ("dotminus", "\u{2238}"),
    ("drbkarow", "\u{2910}"),
    ("dzigrarr", "\u{27ff}"),
    ("elinters", "\u{23e7}"),
    ("emptyset", "\u{2205}"),
    ("eqvparsl", "\u{29e5}"),
    ("fpartint", "\u{2a0d}"),
    ("geqslant", "\u{2a7e}"),
    ("gesdotol", "\u{2a84}"),
    ("gnapprox", "\u{2a8a}"),
    ("hksearow", "\u{2925}"),
    ("hkswarow", "\u{2926}"),
    ("imagline", "\u{2110}"),
    ("imagpart", "\u{2111}"),
    ("infintie", "\u{29dd}"),
    ("integers", "\u{2124}"),
    ("intercal", "\u{22ba}"),
    ("intlarhk", "\u{2a17}"),
    ("laemptyv", "\u{29b4}"),
    ("ldrushar", "\u{294b}"),
    ("leqslant", "\u{2a7d}"),
    ("lesdotor", "\u{2a83}"),
    ("llcorner", "\u{231e}"),
    ("lnapprox", "\u{2a89}"),
    ("lrcorner", "\u{231f}"),
    ("lurdshar", "\u{294a}"),
    ("mapstoup", "\u{21a5}"),
    ("multimap", "\u{22b8}"),
    ("naturals", "\u{2115}"),
    ("ncongdot", "\u{2a6d}\u{338}"),
    ("notindot", "\u{22f5}\u{338}"),
    ("otimesas", "\u{2a36}"),
    ("parallel", "\u{2225}"),
    ("plusacir", "\u{2a23}"),
    ("pointint", "\u{2a15}"),
    ("precneqq", "\u{2ab5}"),
    ("precnsim", "\u{22e8}"),
    ("profalar", "\u{232e}"),
    ("profline", "\u{2312}"),
    ("profsurf", "\u{2313}"),
    ("raemptyv", "\u{29b3}"),
    ("realpart", "\u{211c}"),
    ("rppolint", "\u{2a12}"),
    ("rtriltri", "\u{29ce}"),
    ("scpolint", "\u{2a13}"),
    ("setminus", "\u{2216}"),
    ("shortmid", "\u{2223}"),
    ("smeparsl", "\u{29e4}"),
    ("sqsubset", "\u{228f}"),
    ("sqsupset", "\u{2290}"),
    ("subseteq", "\u{2286}"),
    ("succneqq", "\u{2ab6}"),
    ("succnsim", "\u{22e9}"),
    ("supseteq", "\u{2287}"),
    ("thetasym", "\u{3d1}"),
    ("thicksim", "\u{223c}"),
    ("timesbar", "\u{2a31}"),
    ("triangle", "\u{25b5}"),
    ("triminus", "\u{2a3a}"),
    ("trpezium", "\u{23e2}"),
    ("ulcorner", "\u{231c}"),
    ("urcorner", "\u{231d}"),
    ("varkappa", "\u{3f0}"),
    ("varsigma", "\u{3c2}"),
    ("vartheta", "\u{3d1}"),
    ("Backslash", "\u{2216}"),
    ("CenterDot", "\u{b7}"),
    ("CircleDot", "\u{2299}"),
    ("Congruent", "\u{2261}"),
    ("Coproduct", "\u{2210}"),
    ("DoubleDot", "\u{a8}"),
    ("DownArrow", "\u{2193}"),
    ("DownBreve", "\u{311}"),
    ("Downarrow", "\u{21d3}"),
    ("HumpEqual", "\u{224f}"),
    ("LeftArrow", "\u{2190}"),
    ("LeftFloor", "\u{230a}"),
    ("Leftarrow", "\u{21d0}"),
    ("LessTilde", "\u{2272}"),
    ("Mellintrf", "\u{2133}"),
    ("MinusPlus", "\u{2213}"),
    ("NotCupCap", "\u{226d}"),
    ("NotExists", "\u{2204}"),
    ("NotSubset", "\u{2282}\u{20d2}"),
    ("OverBrace", "\u{23de}"),
    ("PlusMinus", "\u{b1}"),
    ("Therefore", "\u{2234}"),
    ("ThinSpace", "\u{2009}"),
    ("TripleDot", "\u{20db}"),
    ("UnionPlus", "\u{228e}"),
    ("backprime", "\u{2035}"),
    ("backsimeq", "\u{22cd}"),
    ("bigotimes", "\u{2a02}"),
    ("centerdot", "\u{b7}"),
    ("checkmark", "\u{2713}"),
    ("complexes", "\u{2102}"),
    ("dotsquare", "\u{22a1}"),
    ("downarrow", "\u{2193}"),
    ("gtrapprox", "\u{2a86}"),
    ("gtreqless", "\u{22db}"),
    ("gvertneqq", "\u{2269}\u{fe00}"),
    ("heartsuit", "\u{2665}"),
    ("leftarrow", "\u{2190}"),
    ("lesseqgtr", "\u{22da}"),
    ("lvertneqq", "\u{2268}\u{fe00}"),
    ("ngeqslant", "\u{2a7e}\u{338}"),
    ("nleqslant", "\u{2a7d}\u{338}"),
    ("nparallel", "\u{2226}"),
    ("nshortmid", "\u{2224}"),
    ("nsubseteq", "\u{2288}"),
    ("nsupseteq", "\u{2289}"),
    ("pitchfork", "\u{22d4}"),
    ("rationals", "\u{211a}"),
    ("spadesuit", "\u{2660}"),
    ("subseteqq", "\u{2ac5}"),
    ("subsetneq", "\u{228a}"),
    ("supseteqq", "\u{2ac6}"),
    ("supsetneq", "\u{228b}"),
    ("therefore", "\u{2234}"),
    ("triangleq", "\u{225c}"),
    ("varpropto", "\u{221d}"),
    ("Bernoullis", "\u{212c}"),
    ("CirclePlus", "\u{2295}"),
    ("EqualTilde", "\u{2242}"),
    ("Fouriertrf", "\u{2131}"),
    ("ImaginaryI", "\u{2148}"),
    ("Laplacetrf", "\u{2112}"),
    ("LeftVector", "\u{21bc}"),
    ("Lleftarrow", "\u{21da}"),
    ("NotElement", "\u{2209}"),
    ("NotGreater", "\u{226f}"),
    ("Proportion", "\u{2237}"),
    ("RightArrow", "\u{2192}"),
    ("RightFloor", "\u{230b}"),
    ("Rightarrow", "\u{21d2}"),
    ("ThickSpace", "\u{205f}\u{200a}"),
    ("TildeEqual", "\u{2243}"),
    ("TildeTilde", "\u{2248}"),
    ("UnderBrace", "\u{23df}"),
    ("UpArrowBar", "\u{2912}"),
    ("UpTeeArrow", "\u{21a5}"),
    ("circledast", "\u{229b}"),
    ("complement", "\u{2201}"),
    ("curlywedge", "\u{22cf}"),
    ("eqslantgtr", "\u{2a96}"),
    ("gtreqqless", "\u{2a8c}"),
    ("lessapprox", "\u{2a85}"),
    ("lesseqqgtr", "\u{2a8b}"),
    ("lmoustache", "\u{23b0}"),
    ("longmapsto", "\u{27fc}"),
    ("mapstodown", "\u{21a7}"),
    ("mapstoleft", "\u{21a4}"),
    ("nLeftarrow", "\u{21cd}"),
    ("nleftarrow", "\u{219a}"),
    ("nsubseteqq", "\u{2ac5}\u{338}"),
    ("nsupseteqq", "\u{2ac6}\u{338}"),
    ("precapprox", "\u{2ab7}"),
    ("rightarrow", "\u{2192}"),
    ("rmoustache", "\u{23b1}"),
    ("sqsubseteq", "\u{2291}"),
    ("sqsupseteq", "\u{2292}"),
    ("subsetneqq", "\u{2acb}"),
    ("succapprox", "\u{2ab8}"),
    ("supsetneqq", "\u{2acc}"),
    ("upuparrows", "\u{21c8}"),
    ("varepsilon", "\u{3f5}"),
    ("varnothing", "\u{2205}"),
    ("CircleMinus", "\u{2296}"),
    ("CircleTimes", "\u{2297}"),
    ("Equilibrium", "\u{21cc}"),
    ("GreaterLess", "\u{2277}"),
    ("LeftCeiling", "\u{2308}"),
    ("LessGreater", "\u{2276}"),
    ("MediumSpace", "\u{205f}"),
    ("NotLessLess", "\u{226a}\u{338}"),
    ("NotPrecedes", "\u{2280}"),
    ("NotSucceeds", "\u{2281}"),
    ("NotSuperset", "\u{2283}\u{20d2}"),
    ("OverBracket", "\u{23b4}"),
    ("RightVector", "\u{21c0}"),
    ("Rrightarrow", "\u{21db}"),
    ("RuleDelayed", "\u{29f4}"),
    ("SmallCircle", "\u{2218}"),
    ("SquareUnion", "\u{2294}"),
    ("SubsetEqual", "\u{2286}"),
    ("UpDownArrow", "\u{2195}"),
    ("Updownarrow", "\u{21d5}"),
    ("VerticalBar", "\u{2223}"),
    ("backepsilon", "\u{3f6}"),
    ("blacksquare", "\u{25aa}"),
    ("circledcirc", "\u{229a}"),
    ("circleddash", "\u{229d}"),
    ("curlyeqprec", "\u{22de}"),
    ("curlyeqsucc", "\u{22df}"),
    ("diamondsuit", "\u{2666}"),
    ("eqslantless", "\u{2a95}"),
    ("expectation", "\u{2130}"),
    ("nRightarrow", "\u{21cf}"),
    ("nrightarrow", "\u{219b}"),
    ("preccurlyeq", "\u{227c}"),
    ("precnapprox", "\u{2ab9}"),
    ("quaternions", "\u{210d}"),
    ("straightphi", "\u{3d5}"),
    ("succcurlyeq", "\u{227d}"),
    ("succnapprox", "\u{2aba}"),
    ("thickapprox", "\u{2248}"),
    ("updownarrow", "\u{2195}"),
    ("DownArrowBar", "\u{2913}"),
    ("DownTeeArrow", "\u{21a7}"),
    ("ExponentialE", "\u{2147}"),
    ("GreaterEqual", "\u{2265}"),
    ("GreaterTilde", "\u{2273}"),
    ("HilbertSpace", "\u{210b}"),
    ("HumpDownHump", "\u{224e}"),
    ("Intersection", "\u{22c2}"),
    ("LeftArrowBar", "\u{21e4}"),
    ("LeftTeeArrow", "\u{21a4}"),
    ("LeftTriangle", "\u{22b2}"),
    ("LeftUpVector", "\u{21bf}"),
    ("NotCongruent", "\u{2262}"),
    ("NotHumpEqual", "\u{224f}\u{338}"),
    ("NotLessEqual", "\u{2270}"),
    ("NotLessTilde", "\u{2274}"),
    ("Proportional", "\u{221d}"),
    ("RightCeiling", "\u{2309}"),
    ("RoundImplies", "\u{2970}"),
    ("ShortUpArrow", "\u{2191}"),
    ("SquareSubset", "\u{228f}"),
    ("UnderBracket", "\u{23b5}"),
    ("VerticalLine", "\u{7c}"),
    ("blacklozenge", "\u{29eb}"),
    ("exponentiale", "\u{2147}"),
    ("risingdotseq", "\u{2253}"),
    ("triangledown", "\u{25bf}"),
    ("triangleleft", "\u{25c3}"),
    ("varsubsetneq", "\u{228a}\u{fe00}"),
    ("varsupsetneq", "\u{228b}\u{fe00}"),
    ("ApplyFunction", "\u{2061}"),
    ("DifferentialD", "\u{2146}"),
    ("DoubleLeftTee", "\u{2ae4}"),
    ("DoubleUpArrow", "\u{21d1}"),
    ("LeftTeeVector", "\u{295a}"),
    ("LeftVectorBar", "\u{2952}"),
    ("LessFullEqual", "\u{2266}"),
    ("LongLeftArrow", "\u{27f5}"),
    ("Longleftarrow", "\u{27f8}"),
    ("NotEqualTilde", "\u{2242}\u{338}"),
    ("NotTildeEqual", "\u{2244}"),
    ("NotTildeTilde", "\u{2249}"),
    ("Poincareplane", "\u{210c}"),
    ("PrecedesEqual", "\u{2aaf}"),
    ("PrecedesTilde", "\u{227e}"),
    ("RightArrowBar", "\u{21e5}"),
    ("RightTeeArrow", "\u{21a6}"),
    ("RightTriangle", "\u{22b3}"),
    ("RightUpVector", "\u{21be}"),
    ("SucceedsEqual", "\u{2ab0}"),
    ("SucceedsTilde", "\u{227f}"),
    ("SupersetEqual", "\u{2287}"),
    ("UpEquilibrium", "\u{296e}"),
    ("VerticalTilde", "\u{2240}"),
    ("VeryThinSpace", "\u{200a}"),
    ("bigtriangleup", "\u{25b3}"),
    ("blacktriangle", "\u{25b4}"),
    ("divideontimes", "\u{22c7}"),
    ("fallingdotseq", "\u{2252}"),
    ("hookleftarrow", "\u{21a9}"),
    ("leftarrowtail", "\u{21a2}"),
    ("leftharpoonup", "\u{21bc}"),
    ("longleftarrow", "\u{27f5}"),
    ("looparrowleft", "\u{21ab}"),
    ("measuredangle", "\u{2221}"),
    ("ntriangleleft", "\u{22ea}"),
    ("shortparallel", "\u{2225}"),
    ("smallsetminus", "\u{2216}"),
    ("triangleright", "\u{25b9}"),
    ("upharpoonleft", "\u{21bf}"),
    ("varsubsetneqq", "\u{2acb}\u{fe00}"),
    ("varsupsetneqq", "\u{2acc}\u{fe00}"),
    ("DiacriticalDot", "\u{2d9}"),
    ("DoubleRightTee", "\u{22a8}"),
    ("DownLeftVector", "\u{21bd}"),
    ("GreaterGreater", "\u{2aa2}"),
    ("HorizontalLine", "\u{2500}"),
    ("InvisibleComma", "\u{2063}"),
    ("InvisibleTimes", "\u{2062}"),
    ("LeftDownVector", "\u{21c3}"),
    ("LeftRightArrow", "\u{2194}"),
    ("Leftrightarrow", "\u{21d4}"),
    ("LessSlantEqual", "\u{2a7d}"),
    ("LongRightArrow", "\u{27f6}"),
    ("Longrightarrow", "\u{27f9}"),
    ("LowerLeftArrow", "\u{2199}"),
    ("NestedLessLess", "\u{226a}"),
    ("NotGreaterLess", "\u{2279}"),
    ("NotLessGreater", "\u{2278}"),
    ("NotSubsetEqual", "\u{2288}"),
    ("NotVerticalBar", "\u{2224}"),
    ("OpenCurlyQuote", "\u{2018}"),
    ("ReverseElement", "\u{220b}"),
    ("RightTeeVector", "\u{295b}"),
    ("RightVectorBar", "\u{2953}"),
    ("ShortDownArrow", "\u{2193}"),
    ("ShortLeftArrow", "\u{2190}"),
    ("SquareSuperset", "\u{2290}"),
    ("TildeFullEqual", "\u{2245}"),
    ("UpperLeftArrow", "\u{2196}"),
    ("ZeroWidthSpace", "\u{200b}"),
    ("curvearrowleft", "\u{21b6}"),
    ("doublebarwedge", "\u{2306}"),
    ("downdownarrows", "\u{21ca}"),
    ("hookrightarrow", "\u{21aa}"),
    ("leftleftarrows", "\u{21c7}"),
    ("leftrightarrow", "\u{2194}"),
    ("leftthreetimes", "\u{22cb}"),
    ("longrightarrow", "\u{27f6}"),
    ("looparrowright", "\u{21ac}"),
    ("nshortparallel", "\u{2226}"),
    ("ntriangleright", "\u{22eb}"),
    ("rightarrowtail", "\u{21a3}"),
    ("rightharpoonup", "\u{21c0}"),
    ("trianglelefteq", "\u{22b4}"),
    ("upharpoonright", "\u{21be}"),
    ("CloseCurlyQuote", "\u{2019}"),
    ("ContourIntegral", "\u{222e}"),
    ("DoubleDownArrow", "\u{21d3}"),
    ("DoubleLeftArrow", "\u{21d0}"),
    ("DownRightVector", "\u{21c1}"),
    ("LeftRightVector", "\u{294e}"),
    ("LeftTriangleBar", "\u{29cf}"),
    ("LeftUpTeeVector", "\u{2960}"),
    ("LeftUpVectorBar", "\u{2958}"),
    ("LowerRightArrow", "\u{2198}"),
    ("NotGreaterEqual", "\u{2271}"),
    ("NotGreaterTilde", "\u{2275}"),
    ("NotHumpDownHump", "\u{224e}\u{338}"),
    ("NotLeftTriangle", "\u{22ea}"),
    ("NotSquareSubset", "\u{228f}\u{338}"),
    ("OverParenthesis", "\u{23dc}"),
    ("RightDownVector", "\u{21c2}"),
    ("ShortRightArrow", "\u{2192}"),
    ("UpperRightArrow", "\u{2197}"),
    ("bigtriangledown", "\u{25bd}"),
    ("circlearrowleft", "\u{21ba}"),
    ("curvearrowright", "\u{21b7}"),
    ("downharpoonleft", "\u{21c3}"),
    ("leftharpoondown", "\u{21bd}"),
    ("leftrightarrows", "\u{21c6}"),
    ("nLeftrightarrow", "\u{21ce}"),
    ("nleftrightarrow", "\u{21ae}"),
    ("ntrianglelefteq", "\u{22ec}"),
    ("rightleftarrows", "\u{21c4}"),
    ("rightsquigarrow", "\u{219d}"),
    ("rightthreetimes", "\u{22cc}"),
    ("straightepsilon", "\u{3f5}"),
    ("trianglerighteq", "\u{22b5}"),
    ("vartriangleleft", "\u{22b2}"),
    ("DiacriticalAcute", "\u{b4}"),
    ("DiacriticalGrave", "\u{60}"),
    ("DiacriticalTilde", "\u{2dc}"),
    ("DoubleRightArrow", "\u{21d2}"),
    ("DownArrowUpArrow", "\u{21f5}"),
    ("EmptySmallSquare", "\u{25fb}"),
    ("GreaterEqualLess", "\u{22db}"),
    ("GreaterFullEqual", "\u{2267}"),
    ("LeftAngleBracket", "\u{27e8}"),
    ("LeftUpDownVector", "\u{2951}"),
    ("LessEqualGreater", "\u{22da}"),
    ("NonBreakingSpace", "\u{a0}"),
    ("NotPrecedesEqual", "\u{2aaf}\u{338}"),
    ("NotRightTriangle", "\u{22eb}"),
    ("NotSucceedsEqual", "\u{2ab0}\u{338}"),
    ("NotSucceedsTilde", "\u{227f}\u{338}"),
    ("NotSupersetEqual", "\u{2289}"),
    ("RightTriangleBar", "\u{29d0}"),
    ("RightUpTeeVector", "\u{295c}"),
    ("RightUpVectorBar", "\u{2954}"),
    ("UnderParenthesis", "\u{23dd}"),
    ("UpArrowDownArrow", "\u{21c5}"),
    ("circlearrowright", "\u{21bb}"),
    ("downharpoonright", "\u{21c2}"),
    ("ntrianglerighteq", "\u{22ed}"),
    ("rightharpoondown", "\u{21c1}"),
    ("rightrightarrows", "\u{21c9}"),
    ("twoheadleftarrow", "\u{219e}"),
    ("vartriangleright", "\u{22b3}"),
    ("DoubleUpDownArrow", "\u{21d5}"),
    ("DoubleVerticalBar", "\u{2225}"),
    ("DownLeftTeeVector", "\u{295e}"),
    ("DownLeftVectorBar", "\u{2956}"),
    ("FilledSmallSquare", "\u{25fc}"),
    ("GreaterSlantEqual", "\u{2a7e}"),
    ("LeftDoubleBracket", "\u{27e6}"),
    ("LeftDownTeeVector", "\u{2961}"),
    ("LeftDownVectorBar", "\u{2959}"),
    ("LeftTriangleEqual", "\u{22b4}"),
    ("NegativeThinSpace", "\u{200b}"),
    ("NotGreaterGreater", "\u{226b}\u{338}"),
    ("NotLessSlantEqual", "\u{2a7d}\u{338}"),
    ("NotNestedLessLess", "\u{2aa1}\u{338}"),
    ("NotReverseElement", "\u{220c}"),
    ("NotSquareSuperset", "\u{2290}\u{338}"),
    ("NotTildeFullEqual", "\u{2247}"),
    ("RightAngleBracket", "\u{27e9}"),
    ("RightUpDownVector", "\u{294f}"),
    ("SquareSubsetEqual", "\u{2291}"),
    ("VerticalSeparator", "\u{2758}"),
    ("blacktriangledown", "\u{25be}"),
    ("blacktriangleleft", "\u{25c2}"),
    ("leftrightharpoons", "\u{21cb}"),
    ("rightleftharpoons", "\u{21cc}"),
    ("twoheadrightarrow", "\u{21a0}"),
    ("DownRightTeeVector", "\u{295f}"),
    ("DownRightVectorBar", "\u{2957}"),
    ("LongLeftRightArrow", "\u{27f7}"),
    ("Longleftrightarrow", "\u{27fa}"),
    ("NegativeThickSpace", "\u{200b}"),
    ("NotLeftTriangleBar", "\u{29cf}\u{338}"),
    ("PrecedesSlantEqual", "\u{227c}"),
    ("ReverseEquilibrium", "\u{21cb}"),
    ("RightDoubleBracket", "\u{27e7}"),
    ("RightDownTeeVector", "\u{295d}"),
    ("RightDownVectorBar", "\u{2955}"),
    ("RightTriangleEqual", "\u{22b5}"),
    ("SquareIntersection", "\u{2293}"),
    ("SucceedsSlantEqual", "\u{227d}"),
    ("blacktriangleright", "\u{25b8}"),
    ("longleftrightarrow", "\u{27f7}"),
    ("DoubleLongLeftArrow", "\u{27f8}"),
    ("DownLeftRightVector", "\u{2950}"),
    ("LeftArrowRightArrow", "\u{21c6}"),
    ("NegativeMediumSpace", "\u{200b}"),
    ("NotGreaterFullEqual", "\u{2267}\u{338}"),
    ("NotRightTriangleBar", "\u{29d0}\u{338}"),
    ("RightArrowLeftArrow", "\u{21c4}"),
    ("SquareSupersetEqual", "\u{2292}"),
    ("leftrightsquigarrow", "\u{21ad}"),
    ("CapitalDifferentialD", "\u{2145}"),
    ("DoubleLeftRightArrow", "\u{21d4}"),
    ("DoubleLongRightArrow", "\u{27f9}"),
    ("EmptyVerySmallSquare", "\u{25ab}"),
    ("NestedGreaterGreater", "\u{226b}"),
    ("NotDoubleVerticalBar", "\u{2226}"),
    ("NotGreaterSlantEqual", "\u{2a7e}\u{338}"),
    ("NotLeftTriangleEqual", "\u{22ec}"),
    ("NotSquareSubsetEqual", "\u{22e2}"),
    ("OpenCurlyDoubleQuote", "\u{201c}"),
    ("ReverseUpEquilibrium", "\u{296f}"),
    ("CloseCurlyDoubleQuote", "\u{201d}"),
    ("DoubleContourIntegral", "\u{222f}"),
    ("FilledVerySmallSquare", "\u{25aa}"),
    ("NegativeVeryThinSpace", "\u{200b}"),
    ("NotPrecedesSlantEqual", "\u{22e0}"),
    ("NotRightTriangleEqual", "\u{22ed}"),
    ("NotSucceedsSlantEqual", "\u{22e1}"),
    ("DiacriticalDoubleAcute", "\u{2dd}"),
    ("NotSquareSupersetEqual", "\u{22e3}"),
    ("NotNestedGreaterGreater", "\u{2aa2}\u{338}"),
    ("ClockwiseContourIntegral", "\u{2232}"),
    ("DoubleLongLeftRightArrow", "\u{27fa}"),
    ("CounterClockwiseContourIntegral", "\u{2233}"),
];
/// Names that HTML also accepts without the semicolon.
pub static LEGACY: [&str; 106] = [
    "AElig",
    "AMP",
    "Aacute",
    "Acirc",
    "Agrave",
    "Aring",
    "Atilde",
    "Auml",
    "COPY",
    "Ccedil",
    "ETH",
    "Eacute",
    "Ecirc",
    "Egrave",
    "Euml",
    "GT",
    "Iacute",
    "Icirc",
    "Igrave",
    "Iuml",
    "LT",
    "Ntilde",
    "Oacute",
    "Ocirc",
    "Ograve",
    "Oslash",
    "Otilde",
    "Ouml",
    "QUOT",
    "REG",
    "THORN",
    "Uacute",
    "Ucirc",
    "Ugrave",
    "Uuml",
    "Yacute",
    "aacute",
    "acirc",
    "acute",
    "aelig",
    "agrave",
    "amp",
    "aring",
    "atilde",
    "auml",
    "brvbar",
    "ccedil",
    "cedil",
    "cent",
    "copy",
    "curren",
    "deg",
    "divide",
    "eacute",
    "ecirc",
    "egrave",
    "eth",
    "euml",
    "frac12",
    "frac14",
    "frac34",
    "gt",
    "iacute",
    "icirc",
    "iexcl",
    "igrave",
    "iquest",
    "iuml",
    "laquo",
    "lt",
    "macr",
    "micro",
    "middot",
    "nbsp",
    "not",
    "ntilde",
    "oacute",
    "ocirc",
    "ograve",
    "ordf",
    "ordm",
    "oslash",
    "otilde",
    "ouml",
    "para",
    "plusmn",
    "pound",
    "quot",
    "raquo",
    "reg",
    "sect",
    "shy",
    "sup1",
    "sup2",
    "sup3",
    "szlig",
    "thorn",
    "times",
    "uacute",
    "ucirc",
    "ugrave",
    "uml",
    "uuml",
    "yacute",
    "yen",
    "yuml",
];
