//! Generated by tools/gen_umath.py; do not edit.

/// (character, command, class)
#[rustfmt::skip]
pub static UMATH: &[(char, &str, &str)] = &[
    ('\u{21}', "mathexclam", "close"),
    ('\u{23}', "mathoctothorpe", "ord"),
    ('\u{24}', "mathdollar", "ord"),
    ('\u{25}', "mathpercent", "ord"),
    ('\u{26}', "mathampersand", "ord"),
    ('\u{28}', "lparen", "open"),
    ('\u{29}', "rparen", "close"),
    ('\u{2b}', "mathplus", "bin"),
    ('\u{2c}', "mathcomma", "punct"),
    ('\u{2e}', "mathperiod", "ord"),
    ('\u{2f}', "mathslash", "ord"),
    ('\u{3a}', "mathcolon", "punct"),
    ('\u{3b}', "mathsemicolon", "punct"),
    ('\u{3c}', "less", "rel"),
    ('\u{3d}', "equal", "rel"),
    ('\u{3e}', "greater", "rel"),
    ('\u{3f}', "mathquestion", "ord"),
    ('\u{40}', "mathatsign", "ord"),
    ('\u{5b}', "lbrack", "open"),
    ('\u{5c}', "backslash", "ord"),
    ('\u{5d}', "rbrack", "close"),
    ('\u{7b}', "lbrace", "open"),
    ('\u{7c}', "vert", "fence"),
    ('\u{7d}', "rbrace", "close"),
    ('\u{a3}', "mathsterling", "ord"),
    ('\u{a5}', "mathyen", "ord"),
    ('\u{a7}', "mathsection", "ord"),
    ('\u{ac}', "neg", "ord"),
    ('\u{b1}', "pm", "bin"),
    ('\u{b6}', "mathparagraph", "ord"),
    ('\u{b7}', "cdotp", "bin"),
    ('\u{d7}', "times", "bin"),
    ('\u{f0}', "matheth", "alpha"),
    ('\u{f7}', "div", "bin"),
    ('\u{1b5}', "Zbar", "ord"),
    ('\u{300}', "grave", "accent"),
    ('\u{301}', "acute", "accent"),
    ('\u{302}', "hat", "accent"),
    ('\u{302}', "widehat", "accentwide"),
    ('\u{303}', "tilde", "accent"),
    ('\u{303}', "widetilde", "accentwide"),
    ('\u{304}', "bar", "accent"),
    ('\u{305}', "overbar", "accent"),
    ('\u{305}', "wideoverbar", "accentwide"),
    ('\u{306}', "breve", "accent"),
    ('\u{306}', "widebreve", "accentwide"),
    ('\u{307}', "dot", "accent"),
    ('\u{308}', "ddot", "accent"),
    ('\u{309}', "ovhook", "accent"),
    ('\u{30a}', "ocirc", "accent"),
    ('\u{30c}', "check", "accent"),
    ('\u{30c}', "widecheck", "accentwide"),
    ('\u{310}', "candra", "accent"),
    ('\u{312}', "oturnedcomma", "accent"),
    ('\u{315}', "ocommatopright", "accent"),
    ('\u{31a}', "droang", "accent"),
    ('\u{330}', "wideutilde", "botaccentwide"),
    ('\u{332}', "mathunderbar", "botaccentwide"),
    ('\u{338}', "notaccent", "accentoverlay"),
    ('\u{34d}', "underleftrightarrow", "botaccentwide"),
    ('\u{391}', "mupAlpha", "alpha"),
    ('\u{392}', "mupBeta", "alpha"),
    ('\u{393}', "mupGamma", "alpha"),
    ('\u{394}', "mupDelta", "alpha"),
    ('\u{395}', "mupEpsilon", "alpha"),
    ('\u{396}', "mupZeta", "alpha"),
    ('\u{397}', "mupEta", "alpha"),
    ('\u{398}', "mupTheta", "alpha"),
    ('\u{399}', "mupIota", "alpha"),
    ('\u{39a}', "mupKappa", "alpha"),
    ('\u{39b}', "mupLambda", "alpha"),
    ('\u{39c}', "mupMu", "alpha"),
    ('\u{39d}', "mupNu", "alpha"),
    ('\u{39e}', "mupXi", "alpha"),
    ('\u{39f}', "mupOmicron", "alpha"),
    ('\u{3a0}', "mupPi", "alpha"),
    ('\u{3a1}', "mupRho", "alpha"),
    ('\u{3a3}', "mupSigma", "alpha"),
    ('\u{3a4}', "mupTau", "alpha"),
    ('\u{3a5}', "mupUpsilon", "alpha"),
    ('\u{3a6}', "mupPhi", "alpha"),
    ('\u{3a7}', "mupChi", "alpha"),
    ('\u{3a8}', "mupPsi", "alpha"),
    ('\u{3a9}', "mupOmega", "alpha"),
    ('\u{3b1}', "mupalpha", "alpha"),
    ('\u{3b2}', "mupbeta", "alpha"),
    ('\u{3b3}', "mupgamma", "alpha"),
    ('\u{3b4}', "mupdelta", "alpha"),
    ('\u{3b5}', "mupvarepsilon", "alpha"),
    ('\u{3b6}', "mupzeta", "alpha"),
    ('\u{3b7}', "mupeta", "alpha"),
    ('\u{3b8}', "muptheta", "alpha"),
    ('\u{3b9}', "mupiota", "alpha"),
    ('\u{3ba}', "mupkappa", "alpha"),
    ('\u{3bb}', "muplambda", "alpha"),
    ('\u{3bc}', "mupmu", "alpha"),
    ('\u{3bd}', "mupnu", "alpha"),
    ('\u{3be}', "mupxi", "alpha"),
    ('\u{3bf}', "mupomicron", "alpha"),
    ('\u{3c0}', "muppi", "alpha"),
    ('\u{3c1}', "muprho", "alpha"),
    ('\u{3c2}', "mupvarsigma", "alpha"),
    ('\u{3c3}', "mupsigma", "alpha"),
    ('\u{3c4}', "muptau", "alpha"),
    ('\u{3c5}', "mupupsilon", "alpha"),
    ('\u{3c6}', "mupvarphi", "alpha"),
    ('\u{3c7}', "mupchi", "alpha"),
    ('\u{3c8}', "muppsi", "alpha"),
    ('\u{3c9}', "mupomega", "alpha"),
    ('\u{3d1}', "mupvartheta", "alpha"),
    ('\u{3d5}', "mupphi", "alpha"),
    ('\u{3d6}', "mupvarpi", "alpha"),
    ('\u{3dc}', "upDigamma", "alpha"),
    ('\u{3dd}', "updigamma", "alpha"),
    ('\u{3f0}', "mupvarkappa", "alpha"),
    ('\u{3f1}', "mupvarrho", "alpha"),
    ('\u{3f4}', "mupvarTheta", "alpha"),
    ('\u{3f5}', "mupepsilon", "alpha"),
    ('\u{3f6}', "upbackepsilon", "ord"),
    ('\u{2010}', "mathhyphen", "alpha"),
    ('\u{2015}', "horizbar", "ord"),
    ('\u{2016}', "Vert", "fence"),
    ('\u{2017}', "twolowline", "ord"),
    ('\u{2020}', "dagger", "bin"),
    ('\u{2021}', "ddagger", "bin"),
    ('\u{2022}', "smblkcircle", "bin"),
    ('\u{2025}', "enleadertwodots", "ord"),
    ('\u{2026}', "unicodeellipsis", "ord"),
    ('\u{2032}', "prime", "ord"),
    ('\u{2033}', "dprime", "ord"),
    ('\u{2034}', "trprime", "ord"),
    ('\u{2035}', "backprime", "ord"),
    ('\u{2036}', "backdprime", "ord"),
    ('\u{2037}', "backtrprime", "ord"),
    ('\u{2038}', "caretinsert", "ord"),
    ('\u{203c}', "Exclam", "ord"),
    ('\u{2040}', "tieconcat", "bin"),
    ('\u{2043}', "hyphenbullet", "ord"),
    ('\u{2044}', "fracslash", "bin"),
    ('\u{2047}', "Question", "ord"),
    ('\u{2050}', "closure", "rel"),
    ('\u{2057}', "qprime", "ord"),
    ('\u{20ac}', "euro", "ord"),
    ('\u{20d0}', "leftharpoonaccent", "accent"),
    ('\u{20d0}', "overleftharpoon", "accentwide"),
    ('\u{20d1}', "rightharpoonaccent", "accent"),
    ('\u{20d1}', "overrightharpoon", "accentwide"),
    ('\u{20d2}', "vertoverlay", "accent"),
    ('\u{20d6}', "overleftarrow", "accentwide"),
    ('\u{20d7}', "overrightarrow", "accentwide"),
    ('\u{20d7}', "vec", "accent"),
    ('\u{20db}', "dddot", "accent"),
    ('\u{20dc}', "ddddot", "accent"),
    ('\u{20dd}', "enclosecircle", "ord"),
    ('\u{20de}', "enclosesquare", "ord"),
    ('\u{20df}', "enclosediamond", "ord"),
    ('\u{20e1}', "overleftrightarrow", "accentwide"),
    ('\u{20e4}', "enclosetriangle", "ord"),
    ('\u{20e7}', "annuity", "accent"),
    ('\u{20e8}', "threeunderdot", "botaccent"),
    ('\u{20e9}', "widebridgeabove", "accent"),
    ('\u{20ec}', "underrightharpoondown", "botaccentwide"),
    ('\u{20ed}', "underleftharpoondown", "botaccentwide"),
    ('\u{20ee}', "underleftarrow", "botaccentwide"),
    ('\u{20ef}', "underrightarrow", "botaccentwide"),
    ('\u{20f0}', "asteraccent", "accent"),
    ('\u{2102}', "BbbC", "alpha"),
    ('\u{2107}', "Eulerconst", "ord"),
    ('\u{210a}', "mscrg", "alpha"),
    ('\u{210b}', "mscrH", "alpha"),
    ('\u{210c}', "mfrakH", "alpha"),
    ('\u{210d}', "BbbH", "alpha"),
    ('\u{210e}', "Planckconst", "ord"),
    ('\u{210f}', "hslash", "alpha"),
    ('\u{2110}', "mscrI", "alpha"),
    ('\u{2111}', "Im", "alpha"),
    ('\u{2112}', "mscrL", "alpha"),
    ('\u{2113}', "ell", "alpha"),
    ('\u{2115}', "BbbN", "alpha"),
    ('\u{2118}', "wp", "alpha"),
    ('\u{2119}', "BbbP", "alpha"),
    ('\u{211a}', "BbbQ", "alpha"),
    ('\u{211b}', "mscrR", "alpha"),
    ('\u{211c}', "Re", "alpha"),
    ('\u{211d}', "BbbR", "alpha"),
    ('\u{2124}', "BbbZ", "alpha"),
    ('\u{2127}', "mho", "ord"),
    ('\u{2128}', "mfrakZ", "alpha"),
    ('\u{2129}', "turnediota", "alpha"),
    ('\u{212b}', "Angstrom", "alpha"),
    ('\u{212c}', "mscrB", "alpha"),
    ('\u{212d}', "mfrakC", "alpha"),
    ('\u{212f}', "mscre", "alpha"),
    ('\u{2130}', "mscrE", "alpha"),
    ('\u{2131}', "mscrF", "alpha"),
    ('\u{2132}', "Finv", "ord"),
    ('\u{2133}', "mscrM", "alpha"),
    ('\u{2134}', "mscro", "alpha"),
    ('\u{2135}', "aleph", "alpha"),
    ('\u{2136}', "beth", "alpha"),
    ('\u{2137}', "gimel", "alpha"),
    ('\u{2138}', "daleth", "alpha"),
    ('\u{213c}', "Bbbpi", "ord"),
    ('\u{213d}', "Bbbgamma", "alpha"),
    ('\u{213e}', "BbbGamma", "alpha"),
    ('\u{213f}', "BbbPi", "alpha"),
    ('\u{2140}', "Bbbsum", "op"),
    ('\u{2141}', "Game", "ord"),
    ('\u{2142}', "sansLturned", "ord"),
    ('\u{2143}', "sansLmirrored", "ord"),
    ('\u{2144}', "Yup", "ord"),
    ('\u{2145}', "mitBbbD", "ord"),
    ('\u{2146}', "mitBbbd", "ord"),
    ('\u{2147}', "mitBbbe", "ord"),
    ('\u{2148}', "mitBbbi", "ord"),
    ('\u{2149}', "mitBbbj", "ord"),
    ('\u{214a}', "PropertyLine", "ord"),
    ('\u{214b}', "upand", "bin"),
    ('\u{2190}', "leftarrow", "rel"),
    ('\u{2191}', "uparrow", "rel"),
    ('\u{2192}', "rightarrow", "rel"),
    ('\u{2193}', "downarrow", "rel"),
    ('\u{2194}', "leftrightarrow", "rel"),
    ('\u{2195}', "updownarrow", "rel"),
    ('\u{2196}', "nwarrow", "rel"),
    ('\u{2197}', "nearrow", "rel"),
    ('\u{2198}', "searrow", "rel"),
    ('\u{2199}', "swarrow", "rel"),
    ('\u{219a}', "nleftarrow", "rel"),
    ('\u{219b}', "nrightarrow", "rel"),
    ('\u{219c}', "leftwavearrow", "rel"),
    ('\u{219d}', "rightwavearrow", "rel"),
    ('\u{219e}', "twoheadleftarrow", "rel"),
    ('\u{219f}', "twoheaduparrow", "rel"),
    ('\u{21a0}', "twoheadrightarrow", "rel"),
    ('\u{21a1}', "twoheaddownarrow", "rel"),
    ('\u{21a2}', "leftarrowtail", "rel"),
    ('\u{21a3}', "rightarrowtail", "rel"),
    ('\u{21a4}', "mapsfrom", "rel"),
    ('\u{21a5}', "mapsup", "rel"),
    ('\u{21a6}', "mapsto", "rel"),
    ('\u{21a7}', "mapsdown", "rel"),
    ('\u{21a8}', "updownarrowbar", "ord"),
    ('\u{21a9}', "hookleftarrow", "rel"),
    ('\u{21aa}', "hookrightarrow", "rel"),
    ('\u{21ab}', "looparrowleft", "rel"),
    ('\u{21ac}', "looparrowright", "rel"),
    ('\u{21ad}', "leftrightsquigarrow", "rel"),
    ('\u{21ae}', "nleftrightarrow", "rel"),
    ('\u{21af}', "downzigzagarrow", "rel"),
    ('\u{21b0}', "Lsh", "rel"),
    ('\u{21b1}', "Rsh", "rel"),
    ('\u{21b2}', "Ldsh", "rel"),
    ('\u{21b3}', "Rdsh", "rel"),
    ('\u{21b4}', "linefeed", "ord"),
    ('\u{21b5}', "carriagereturn", "ord"),
    ('\u{21b6}', "curvearrowleft", "rel"),
    ('\u{21b7}', "curvearrowright", "rel"),
    ('\u{21b8}', "barovernorthwestarrow", "ord"),
    ('\u{21b9}', "barleftarrowrightarrowbar", "ord"),
    ('\u{21ba}', "acwopencirclearrow", "ord"),
    ('\u{21bb}', "cwopencirclearrow", "ord"),
    ('\u{21bc}', "leftharpoonup", "rel"),
    ('\u{21bd}', "leftharpoondown", "rel"),
    ('\u{21be}', "upharpoonright", "rel"),
    ('\u{21bf}', "upharpoonleft", "rel"),
    ('\u{21c0}', "rightharpoonup", "rel"),
    ('\u{21c1}', "rightharpoondown", "rel"),
    ('\u{21c2}', "downharpoonright", "rel"),
    ('\u{21c3}', "downharpoonleft", "rel"),
    ('\u{21c4}', "rightleftarrows", "rel"),
    ('\u{21c5}', "updownarrows", "rel"),
    ('\u{21c6}', "leftrightarrows", "rel"),
    ('\u{21c7}', "leftleftarrows", "rel"),
    ('\u{21c8}', "upuparrows", "rel"),
    ('\u{21c9}', "rightrightarrows", "rel"),
    ('\u{21ca}', "downdownarrows", "rel"),
    ('\u{21cb}', "leftrightharpoons", "rel"),
    ('\u{21cc}', "rightleftharpoons", "rel"),
    ('\u{21cd}', "nLeftarrow", "rel"),
    ('\u{21ce}', "nLeftrightarrow", "rel"),
    ('\u{21cf}', "nRightarrow", "rel"),
    ('\u{21d0}', "Leftarrow", "rel"),
    ('\u{21d1}', "Uparrow", "rel"),
    ('\u{21d2}', "Rightarrow", "rel"),
    ('\u{21d3}', "Downarrow", "rel"),
    ('\u{21d4}', "Leftrightarrow", "rel"),
    ('\u{21d5}', "Updownarrow", "rel"),
    ('\u{21d6}', "Nwarrow", "rel"),
    ('\u{21d7}', "Nearrow", "rel"),
    ('\u{21d8}', "Searrow", "rel"),
    ('\u{21d9}', "Swarrow", "rel"),
    ('\u{21da}', "Lleftarrow", "rel"),
    ('\u{21db}', "Rrightarrow", "rel"),
    ('\u{21dc}', "leftsquigarrow", "rel"),
    ('\u{21dd}', "rightsquigarrow", "rel"),
    ('\u{21de}', "nHuparrow", "ord"),
    ('\u{21df}', "nHdownarrow", "ord"),
    ('\u{21e0}', "leftdasharrow", "ord"),
    ('\u{21e1}', "updasharrow", "ord"),
    ('\u{21e2}', "rightdasharrow", "ord"),
    ('\u{21e3}', "downdasharrow", "ord"),
    ('\u{21e4}', "barleftarrow", "rel"),
    ('\u{21e5}', "rightarrowbar", "rel"),
    ('\u{21e6}', "leftwhitearrow", "ord"),
    ('\u{21e7}', "upwhitearrow", "ord"),
    ('\u{21e8}', "rightwhitearrow", "ord"),
    ('\u{21e9}', "downwhitearrow", "ord"),
    ('\u{21ea}', "whitearrowupfrombar", "ord"),
    ('\u{21f4}', "circleonrightarrow", "rel"),
    ('\u{21f5}', "downuparrows", "rel"),
    ('\u{21f6}', "rightthreearrows", "rel"),
    ('\u{21f7}', "nvleftarrow", "rel"),
    ('\u{21f8}', "nvrightarrow", "rel"),
    ('\u{21f9}', "nvleftrightarrow", "rel"),
    ('\u{21fa}', "nVleftarrow", "rel"),
    ('\u{21fb}', "nVrightarrow", "rel"),
    ('\u{21fc}', "nVleftrightarrow", "rel"),
    ('\u{21fd}', "leftarrowtriangle", "rel"),
    ('\u{21fe}', "rightarrowtriangle", "rel"),
    ('\u{21ff}', "leftrightarrowtriangle", "rel"),
    ('\u{2200}', "forall", "ord"),
    ('\u{2201}', "complement", "ord"),
    ('\u{2202}', "partial", "alpha"),
    ('\u{2203}', "exists", "ord"),
    ('\u{2204}', "nexists", "ord"),
    ('\u{2205}', "varnothing", "ord"),
    ('\u{2206}', "increment", "ord"),
    ('\u{2207}', "nabla", "alpha"),
    ('\u{2208}', "in", "rel"),
    ('\u{2209}', "notin", "rel"),
    ('\u{220a}', "smallin", "rel"),
    ('\u{220b}', "ni", "rel"),
    ('\u{220c}', "nni", "rel"),
    ('\u{220d}', "smallni", "rel"),
    ('\u{220e}', "QED", "ord"),
    ('\u{220f}', "prod", "op"),
    ('\u{2210}', "coprod", "op"),
    ('\u{2211}', "sum", "op"),
    ('\u{2212}', "minus", "bin"),
    ('\u{2213}', "mp", "bin"),
    ('\u{2214}', "dotplus", "bin"),
    ('\u{2215}', "divslash", "bin"),
    ('\u{2216}', "setminus", "bin"),
    ('\u{2217}', "ast", "bin"),
    ('\u{2218}', "vysmwhtcircle", "bin"),
    ('\u{2219}', "vysmblkcircle", "bin"),
    ('\u{221a}', "sqrt", "open"),
    ('\u{221a}', "surd", "ord"),
    ('\u{221b}', "cuberoot", "open"),
    ('\u{221c}', "fourthroot", "open"),
    ('\u{221d}', "propto", "rel"),
    ('\u{221e}', "infty", "ord"),
    ('\u{221f}', "rightangle", "ord"),
    ('\u{2220}', "angle", "ord"),
    ('\u{2221}', "measuredangle", "ord"),
    ('\u{2222}', "sphericalangle", "ord"),
    ('\u{2223}', "mid", "rel"),
    ('\u{2224}', "nmid", "rel"),
    ('\u{2225}', "parallel", "rel"),
    ('\u{2226}', "nparallel", "rel"),
    ('\u{2227}', "wedge", "bin"),
    ('\u{2228}', "vee", "bin"),
    ('\u{2229}', "cap", "bin"),
    ('\u{222a}', "cup", "bin"),
    ('\u{222b}', "int", "op"),
    ('\u{222c}', "iint", "op"),
    ('\u{222d}', "iiint", "op"),
    ('\u{222e}', "oint", "op"),
    ('\u{222f}', "oiint", "op"),
    ('\u{2230}', "oiiint", "op"),
    ('\u{2231}', "intclockwise", "op"),
    ('\u{2232}', "varointclockwise", "op"),
    ('\u{2233}', "ointctrclockwise", "op"),
    ('\u{2234}', "therefore", "ord"),
    ('\u{2235}', "because", "ord"),
    ('\u{2236}', "mathratio", "rel"),
    ('\u{2237}', "Colon", "rel"),
    ('\u{2238}', "dotminus", "bin"),
    ('\u{2239}', "dashcolon", "rel"),
    ('\u{223a}', "dotsminusdots", "rel"),
    ('\u{223b}', "kernelcontraction", "rel"),
    ('\u{223c}', "sim", "rel"),
    ('\u{223d}', "backsim", "rel"),
    ('\u{223e}', "invlazys", "bin"),
    ('\u{223f}', "sinewave", "ord"),
    ('\u{2240}', "wr", "bin"),
    ('\u{2241}', "nsim", "rel"),
    ('\u{2242}', "eqsim", "rel"),
    ('\u{2243}', "simeq", "rel"),
    ('\u{2244}', "nsime", "rel"),
    ('\u{2243}', "sime", "rel"),
    ('\u{2244}', "nsimeq", "rel"),
    ('\u{2245}', "cong", "rel"),
    ('\u{2246}', "simneqq", "rel"),
    ('\u{2247}', "ncong", "rel"),
    ('\u{2248}', "approx", "rel"),
    ('\u{2249}', "napprox", "rel"),
    ('\u{224a}', "approxeq", "rel"),
    ('\u{224b}', "approxident", "rel"),
    ('\u{224c}', "backcong", "rel"),
    ('\u{224d}', "asymp", "rel"),
    ('\u{224e}', "Bumpeq", "rel"),
    ('\u{224f}', "bumpeq", "rel"),
    ('\u{2250}', "doteq", "rel"),
    ('\u{2251}', "Doteq", "rel"),
    ('\u{2252}', "fallingdotseq", "rel"),
    ('\u{2253}', "risingdotseq", "rel"),
    ('\u{2254}', "coloneq", "rel"),
    ('\u{2255}', "eqcolon", "rel"),
    ('\u{2256}', "eqcirc", "rel"),
    ('\u{2257}', "circeq", "rel"),
    ('\u{2258}', "arceq", "rel"),
    ('\u{2259}', "wedgeq", "rel"),
    ('\u{225a}', "veeeq", "rel"),
    ('\u{225b}', "stareq", "rel"),
    ('\u{225c}', "triangleq", "rel"),
    ('\u{225d}', "eqdef", "rel"),
    ('\u{225e}', "measeq", "rel"),
    ('\u{225f}', "questeq", "rel"),
    ('\u{2260}', "ne", "rel"),
    ('\u{2261}', "equiv", "rel"),
    ('\u{2262}', "nequiv", "rel"),
    ('\u{2263}', "Equiv", "rel"),
    ('\u{2264}', "leq", "rel"),
    ('\u{2265}', "geq", "rel"),
    ('\u{2266}', "leqq", "rel"),
    ('\u{2267}', "geqq", "rel"),
    ('\u{2268}', "lneqq", "rel"),
    ('\u{2269}', "gneqq", "rel"),
    ('\u{226a}', "ll", "rel"),
    ('\u{226b}', "gg", "rel"),
    ('\u{226c}', "between", "rel"),
    ('\u{226d}', "nasymp", "rel"),
    ('\u{226e}', "nless", "rel"),
    ('\u{226f}', "ngtr", "rel"),
    ('\u{2270}', "nleq", "rel"),
    ('\u{2271}', "ngeq", "rel"),
    ('\u{2272}', "lesssim", "rel"),
    ('\u{2273}', "gtrsim", "rel"),
    ('\u{2274}', "nlesssim", "rel"),
    ('\u{2275}', "ngtrsim", "rel"),
    ('\u{2276}', "lessgtr", "rel"),
    ('\u{2277}', "gtrless", "rel"),
    ('\u{2278}', "nlessgtr", "rel"),
    ('\u{2279}', "ngtrless", "rel"),
    ('\u{227a}', "prec", "rel"),
    ('\u{227b}', "succ", "rel"),
    ('\u{227c}', "preccurlyeq", "rel"),
    ('\u{227d}', "succcurlyeq", "rel"),
    ('\u{227e}', "precsim", "rel"),
    ('\u{227f}', "succsim", "rel"),
    ('\u{2280}', "nprec", "rel"),
    ('\u{2281}', "nsucc", "rel"),
    ('\u{2282}', "subset", "rel"),
    ('\u{2283}', "supset", "rel"),
    ('\u{2284}', "nsubset", "rel"),
    ('\u{2285}', "nsupset", "rel"),
    ('\u{2286}', "subseteq", "rel"),
    ('\u{2287}', "supseteq", "rel"),
    ('\u{2288}', "nsubseteq", "rel"),
    ('\u{2289}', "nsupseteq", "rel"),
    ('\u{228a}', "subsetneq", "rel"),
    ('\u{228b}', "supsetneq", "rel"),
    ('\u{228c}', "cupleftarrow", "bin"),
    ('\u{228d}', "cupdot", "bin"),
    ('\u{228e}', "uplus", "bin"),
    ('\u{228f}', "sqsubset", "rel"),
    ('\u{2290}', "sqsupset", "rel"),
    ('\u{2291}', "sqsubseteq", "rel"),
    ('\u{2292}', "sqsupseteq", "rel"),
    ('\u{2293}', "sqcap", "bin"),
    ('\u{2294}', "sqcup", "bin"),
    ('\u{2295}', "oplus", "bin"),
    ('\u{2296}', "ominus", "bin"),
    ('\u{2297}', "otimes", "bin"),
    ('\u{2298}', "oslash", "bin"),
    ('\u{2299}', "odot", "bin"),
    ('\u{229a}', "circledcirc", "bin"),
    ('\u{229b}', "circledast", "bin"),
    ('\u{229c}', "circledequal", "bin"),
    ('\u{229d}', "circleddash", "bin"),
    ('\u{229e}', "boxplus", "bin"),
    ('\u{229f}', "boxminus", "bin"),
    ('\u{22a0}', "boxtimes", "bin"),
    ('\u{22a1}', "boxdot", "bin"),
    ('\u{22a2}', "vdash", "rel"),
    ('\u{22a3}', "dashv", "rel"),
    ('\u{22a4}', "top", "ord"),
    ('\u{22a5}', "bot", "ord"),
    ('\u{22a6}', "assert", "rel"),
    ('\u{22a7}', "models", "rel"),
    ('\u{22a8}', "vDash", "rel"),
    ('\u{22a9}', "Vdash", "rel"),
    ('\u{22aa}', "Vvdash", "rel"),
    ('\u{22ab}', "VDash", "rel"),
    ('\u{22ac}', "nvdash", "rel"),
    ('\u{22ad}', "nvDash", "rel"),
    ('\u{22ae}', "nVdash", "rel"),
    ('\u{22af}', "nVDash", "rel"),
    ('\u{22b0}', "prurel", "rel"),
    ('\u{22b1}', "scurel", "rel"),
    ('\u{22b2}', "vartriangleleft", "rel"),
    ('\u{22b3}', "vartriangleright", "rel"),
    ('\u{22b4}', "trianglelefteq", "rel"),
    ('\u{22b5}', "trianglerighteq", "rel"),
    ('\u{22b6}', "origof", "rel"),
    ('\u{22b7}', "imageof", "rel"),
    ('\u{22b8}', "multimap", "rel"),
    ('\u{22b9}', "hermitmatrix", "ord"),
    ('\u{22ba}', "intercal", "bin"),
    ('\u{22bb}', "veebar", "bin"),
    ('\u{22bc}', "barwedge", "bin"),
    ('\u{22bd}', "barvee", "bin"),
    ('\u{22be}', "measuredrightangle", "ord"),
    ('\u{22bf}', "varlrtriangle", "ord"),
    ('\u{22c0}', "bigwedge", "op"),
    ('\u{22c1}', "bigvee", "op"),
    ('\u{22c2}', "bigcap", "op"),
    ('\u{22c3}', "bigcup", "op"),
    ('\u{22c4}', "smwhtdiamond", "bin"),
    ('\u{22c5}', "cdot", "bin"),
    ('\u{22c6}', "star", "bin"),
    ('\u{22c7}', "divideontimes", "bin"),
    ('\u{22c8}', "bowtie", "rel"),
    ('\u{22c9}', "ltimes", "bin"),
    ('\u{22ca}', "rtimes", "bin"),
    ('\u{22cb}', "leftthreetimes", "bin"),
    ('\u{22cc}', "rightthreetimes", "bin"),
    ('\u{22cd}', "backsimeq", "rel"),
    ('\u{22ce}', "curlyvee", "bin"),
    ('\u{22cf}', "curlywedge", "bin"),
    ('\u{22d0}', "Subset", "rel"),
    ('\u{22d1}', "Supset", "rel"),
    ('\u{22d2}', "Cap", "bin"),
    ('\u{22d3}', "Cup", "bin"),
    ('\u{22d4}', "pitchfork", "rel"),
    ('\u{22d5}', "equalparallel", "rel"),
    ('\u{22d6}', "lessdot", "rel"),
    ('\u{22d7}', "gtrdot", "rel"),
    ('\u{22d8}', "lll", "rel"),
    ('\u{22d9}', "ggg", "rel"),
    ('\u{22da}', "lesseqgtr", "rel"),
    ('\u{22db}', "gtreqless", "rel"),
    ('\u{22dc}', "eqless", "rel"),
    ('\u{22dd}', "eqgtr", "rel"),
    ('\u{22de}', "curlyeqprec", "rel"),
    ('\u{22df}', "curlyeqsucc", "rel"),
    ('\u{22e0}', "npreccurlyeq", "rel"),
    ('\u{22e1}', "nsucccurlyeq", "rel"),
    ('\u{22e2}', "nsqsubseteq", "rel"),
    ('\u{22e3}', "nsqsupseteq", "rel"),
    ('\u{22e4}', "sqsubsetneq", "rel"),
    ('\u{22e5}', "sqsupsetneq", "rel"),
    ('\u{22e6}', "lnsim", "rel"),
    ('\u{22e7}', "gnsim", "rel"),
    ('\u{22e8}', "precnsim", "rel"),
    ('\u{22e9}', "succnsim", "rel"),
    ('\u{22ea}', "nvartriangleleft", "rel"),
    ('\u{22eb}', "nvartriangleright", "rel"),
    ('\u{22ec}', "ntrianglelefteq", "rel"),
    ('\u{22ed}', "ntrianglerighteq", "rel"),
    ('\u{22ee}', "vdots", "rel"),
    ('\u{22ef}', "unicodecdots", "ord"),
    ('\u{22f0}', "adots", "rel"),
    ('\u{22f1}', "ddots", "rel"),
    ('\u{22f2}', "disin", "rel"),
    ('\u{22f3}', "varisins", "rel"),
    ('\u{22f4}', "isins", "rel"),
    ('\u{22f5}', "isindot", "rel"),
    ('\u{22f6}', "varisinobar", "rel"),
    ('\u{22f7}', "isinobar", "rel"),
    ('\u{22f8}', "isinvb", "rel"),
    ('\u{22f9}', "isinE", "rel"),
    ('\u{22fa}', "nisd", "rel"),
    ('\u{22fb}', "varnis", "rel"),
    ('\u{22fc}', "nis", "rel"),
    ('\u{22fd}', "varniobar", "rel"),
    ('\u{22fe}', "niobar", "rel"),
    ('\u{22ff}', "bagmember", "rel"),
    ('\u{2300}', "diameter", "ord"),
    ('\u{2302}', "house", "ord"),
    ('\u{2305}', "varbarwedge", "bin"),
    ('\u{2306}', "vardoublebarwedge", "bin"),
    ('\u{2308}', "lceil", "open"),
    ('\u{2309}', "rceil", "close"),
    ('\u{230a}', "lfloor", "open"),
    ('\u{230b}', "rfloor", "close"),
    ('\u{2310}', "invnot", "ord"),
    ('\u{2311}', "sqlozenge", "ord"),
    ('\u{2312}', "profline", "ord"),
    ('\u{2313}', "profsurf", "ord"),
    ('\u{2317}', "viewdata", "ord"),
    ('\u{2319}', "turnednot", "ord"),
    ('\u{231c}', "ulcorner", "open"),
    ('\u{231d}', "urcorner", "close"),
    ('\u{231e}', "llcorner", "open"),
    ('\u{231f}', "lrcorner", "close"),
    ('\u{2320}', "inttop", "ord"),
    ('\u{2321}', "intbottom", "ord"),
    ('\u{2322}', "frown", "rel"),
    ('\u{2323}', "smile", "rel"),
    ('\u{232c}', "varhexagonlrbonds", "ord"),
    ('\u{2332}', "conictaper", "ord"),
    ('\u{2336}', "topbot", "ord"),
    ('\u{233d}', "obar", "bin"),
    ('\u{233f}', "APLnotslash", "rel"),
    ('\u{2340}', "APLnotbackslash", "ord"),
    ('\u{2353}', "APLboxupcaret", "ord"),
    ('\u{2370}', "APLboxquestion", "ord"),
    ('\u{237c}', "rangledownzigzagarrow", "ord"),
    ('\u{2394}', "hexagon", "ord"),
    ('\u{239b}', "lparenuend", "ord"),
    ('\u{239c}', "lparenextender", "ord"),
    ('\u{239d}', "lparenlend", "ord"),
    ('\u{239e}', "rparenuend", "ord"),
    ('\u{239f}', "rparenextender", "ord"),
    ('\u{23a0}', "rparenlend", "ord"),
    ('\u{23a1}', "lbrackuend", "ord"),
    ('\u{23a2}', "lbrackextender", "ord"),
    ('\u{23a3}', "lbracklend", "ord"),
    ('\u{23a4}', "rbrackuend", "ord"),
    ('\u{23a5}', "rbrackextender", "ord"),
    ('\u{23a6}', "rbracklend", "ord"),
    ('\u{23a7}', "lbraceuend", "ord"),
    ('\u{23a8}', "lbracemid", "ord"),
    ('\u{23a9}', "lbracelend", "ord"),
    ('\u{23aa}', "vbraceextender", "ord"),
    ('\u{23ab}', "rbraceuend", "ord"),
    ('\u{23ac}', "rbracemid", "ord"),
    ('\u{23ad}', "rbracelend", "ord"),
    ('\u{23ae}', "intextender", "ord"),
    ('\u{23af}', "harrowextender", "ord"),
    ('\u{23b0}', "lmoustache", "open"),
    ('\u{23b1}', "rmoustache", "close"),
    ('\u{23b2}', "sumtop", "ord"),
    ('\u{23b3}', "sumbottom", "ord"),
    ('\u{23b4}', "overbracket", "over"),
    ('\u{23b5}', "underbracket", "under"),
    ('\u{23b6}', "bbrktbrk", "ord"),
    ('\u{23b7}', "sqrtbottom", "ord"),
    ('\u{23b8}', "lvboxline", "ord"),
    ('\u{23b9}', "rvboxline", "ord"),
    ('\u{23ce}', "varcarriagereturn", "ord"),
    ('\u{23dc}', "overparen", "over"),
    ('\u{23dd}', "underparen", "under"),
    ('\u{23de}', "overbrace", "over"),
    ('\u{23df}', "underbrace", "under"),
    ('\u{23e0}', "obrbrak", "ord"),
    ('\u{23e1}', "ubrbrak", "ord"),
    ('\u{23e2}', "trapezium", "ord"),
    ('\u{23e3}', "benzenr", "ord"),
    ('\u{23e4}', "strns", "ord"),
    ('\u{23e5}', "fltns", "ord"),
    ('\u{23e6}', "accurrent", "ord"),
    ('\u{23e7}', "elinters", "ord"),
    ('\u{2422}', "blanksymbol", "ord"),
    ('\u{2423}', "mathvisiblespace", "ord"),
    ('\u{2506}', "bdtriplevdash", "ord"),
    ('\u{2580}', "blockuphalf", "ord"),
    ('\u{2584}', "blocklowhalf", "ord"),
    ('\u{2588}', "blockfull", "ord"),
    ('\u{258c}', "blocklefthalf", "ord"),
    ('\u{2590}', "blockrighthalf", "ord"),
    ('\u{2591}', "blockqtrshaded", "ord"),
    ('\u{2592}', "blockhalfshaded", "ord"),
    ('\u{2593}', "blockthreeqtrshaded", "ord"),
    ('\u{25a0}', "mdlgblksquare", "ord"),
    ('\u{25a1}', "mdlgwhtsquare", "ord"),
    ('\u{25a2}', "squoval", "ord"),
    ('\u{25a3}', "blackinwhitesquare", "ord"),
    ('\u{25a4}', "squarehfill", "ord"),
    ('\u{25a5}', "squarevfill", "ord"),
    ('\u{25a6}', "squarehvfill", "ord"),
    ('\u{25a7}', "squarenwsefill", "ord"),
    ('\u{25a8}', "squareneswfill", "ord"),
    ('\u{25a9}', "squarecrossfill", "ord"),
    ('\u{25aa}', "smblksquare", "ord"),
    ('\u{25ab}', "smwhtsquare", "ord"),
    ('\u{25ac}', "hrectangleblack", "ord"),
    ('\u{25ad}', "hrectangle", "ord"),
    ('\u{25ae}', "vrectangleblack", "ord"),
    ('\u{25af}', "vrectangle", "ord"),
    ('\u{25b0}', "parallelogramblack", "ord"),
    ('\u{25b1}', "parallelogram", "ord"),
    ('\u{25b2}', "bigblacktriangleup", "ord"),
    ('\u{25b3}', "bigtriangleup", "bin"),
    ('\u{25b4}', "blacktriangle", "ord"),
    ('\u{25b5}', "vartriangle", "rel"),
    ('\u{25b6}', "blacktriangleright", "ord"),
    ('\u{25b7}', "triangleright", "bin"),
    ('\u{25b8}', "smallblacktriangleright", "ord"),
    ('\u{25b9}', "smalltriangleright", "ord"),
    ('\u{25ba}', "blackpointerright", "ord"),
    ('\u{25bb}', "whitepointerright", "ord"),
    ('\u{25bc}', "bigblacktriangledown", "ord"),
    ('\u{25bd}', "bigtriangledown", "ord"),
    ('\u{25be}', "blacktriangledown", "ord"),
    ('\u{25bf}', "triangledown", "ord"),
    ('\u{25c0}', "blacktriangleleft", "ord"),
    ('\u{25c1}', "triangleleft", "bin"),
    ('\u{25c2}', "smallblacktriangleleft", "ord"),
    ('\u{25c3}', "smalltriangleleft", "ord"),
    ('\u{25c4}', "blackpointerleft", "ord"),
    ('\u{25c5}', "whitepointerleft", "ord"),
    ('\u{25c6}', "mdlgblkdiamond", "ord"),
    ('\u{25c7}', "mdlgwhtdiamond", "ord"),
    ('\u{25c8}', "blackinwhitediamond", "ord"),
    ('\u{25c9}', "fisheye", "ord"),
    ('\u{25ca}', "mdlgwhtlozenge", "ord"),
    ('\u{25cb}', "mdlgwhtcircle", "bin"),
    ('\u{25cc}', "dottedcircle", "ord"),
    ('\u{25cd}', "circlevertfill", "ord"),
    ('\u{25ce}', "bullseye", "ord"),
    ('\u{25cf}', "mdlgblkcircle", "ord"),
    ('\u{25d0}', "circlelefthalfblack", "ord"),
    ('\u{25d1}', "circlerighthalfblack", "ord"),
    ('\u{25d2}', "circlebottomhalfblack", "ord"),
    ('\u{25d3}', "circletophalfblack", "ord"),
    ('\u{25d4}', "circleurquadblack", "ord"),
    ('\u{25d5}', "blackcircleulquadwhite", "ord"),
    ('\u{25d6}', "blacklefthalfcircle", "ord"),
    ('\u{25d7}', "blackrighthalfcircle", "ord"),
    ('\u{25d8}', "inversebullet", "ord"),
    ('\u{25d9}', "inversewhitecircle", "ord"),
    ('\u{25da}', "invwhiteupperhalfcircle", "ord"),
    ('\u{25db}', "invwhitelowerhalfcircle", "ord"),
    ('\u{25dc}', "ularc", "ord"),
    ('\u{25dd}', "urarc", "ord"),
    ('\u{25de}', "lrarc", "ord"),
    ('\u{25df}', "llarc", "ord"),
    ('\u{25e0}', "topsemicircle", "ord"),
    ('\u{25e1}', "botsemicircle", "ord"),
    ('\u{25e2}', "lrblacktriangle", "ord"),
    ('\u{25e3}', "llblacktriangle", "ord"),
    ('\u{25e4}', "ulblacktriangle", "ord"),
    ('\u{25e5}', "urblacktriangle", "ord"),
    ('\u{25e6}', "smwhtcircle", "ord"),
    ('\u{25e7}', "squareleftblack", "ord"),
    ('\u{25e8}', "squarerightblack", "ord"),
    ('\u{25e9}', "squareulblack", "ord"),
    ('\u{25ea}', "squarelrblack", "ord"),
    ('\u{25eb}', "boxbar", "bin"),
    ('\u{25ec}', "trianglecdot", "ord"),
    ('\u{25ed}', "triangleleftblack", "ord"),
    ('\u{25ee}', "trianglerightblack", "ord"),
    ('\u{25ef}', "lgwhtcircle", "ord"),
    ('\u{25f0}', "squareulquad", "ord"),
    ('\u{25f1}', "squarellquad", "ord"),
    ('\u{25f2}', "squarelrquad", "ord"),
    ('\u{25f3}', "squareurquad", "ord"),
    ('\u{25f4}', "circleulquad", "ord"),
    ('\u{25f5}', "circlellquad", "ord"),
    ('\u{25f6}', "circlelrquad", "ord"),
    ('\u{25f7}', "circleurquad", "ord"),
    ('\u{25f8}', "ultriangle", "ord"),
    ('\u{25f9}', "urtriangle", "ord"),
    ('\u{25fa}', "lltriangle", "ord"),
    ('\u{25fb}', "mdwhtsquare", "ord"),
    ('\u{25fc}', "mdblksquare", "ord"),
    ('\u{25fd}', "mdsmwhtsquare", "ord"),
    ('\u{25fe}', "mdsmblksquare", "ord"),
    ('\u{25ff}', "lrtriangle", "ord"),
    ('\u{2605}', "bigstar", "ord"),
    ('\u{2606}', "bigwhitestar", "ord"),
    ('\u{2609}', "astrosun", "ord"),
    ('\u{2621}', "danger", "ord"),
    ('\u{263b}', "blacksmiley", "ord"),
    ('\u{263c}', "sun", "ord"),
    ('\u{263d}', "rightmoon", "ord"),
    ('\u{263e}', "leftmoon", "ord"),
    ('\u{2640}', "female", "ord"),
    ('\u{2642}', "male", "ord"),
    ('\u{2660}', "spadesuit", "ord"),
    ('\u{2661}', "heartsuit", "ord"),
    ('\u{2662}', "diamondsuit", "ord"),
    ('\u{2663}', "clubsuit", "ord"),
    ('\u{2664}', "varspadesuit", "ord"),
    ('\u{2665}', "varheartsuit", "ord"),
    ('\u{2666}', "vardiamondsuit", "ord"),
    ('\u{2667}', "varclubsuit", "ord"),
    ('\u{2669}', "quarternote", "ord"),
    ('\u{266a}', "eighthnote", "ord"),
    ('\u{266b}', "twonotes", "ord"),
    ('\u{266d}', "flat", "ord"),
    ('\u{266e}', "natural", "ord"),
    ('\u{266f}', "sharp", "ord"),
    ('\u{267e}', "acidfree", "ord"),
    ('\u{2680}', "dicei", "ord"),
    ('\u{2681}', "diceii", "ord"),
    ('\u{2682}', "diceiii", "ord"),
    ('\u{2683}', "diceiv", "ord"),
    ('\u{2684}', "dicev", "ord"),
    ('\u{2685}', "dicevi", "ord"),
    ('\u{2686}', "circledrightdot", "ord"),
    ('\u{2687}', "circledtwodots", "ord"),
    ('\u{2688}', "blackcircledrightdot", "ord"),
    ('\u{2689}', "blackcircledtwodots", "ord"),
    ('\u{26a5}', "Hermaphrodite", "ord"),
    ('\u{26aa}', "mdwhtcircle", "ord"),
    ('\u{26ab}', "mdblkcircle", "ord"),
    ('\u{26ac}', "mdsmwhtcircle", "ord"),
    ('\u{26b2}', "neuter", "ord"),
    ('\u{2713}', "checkmark", "ord"),
    ('\u{2720}', "maltese", "ord"),
    ('\u{272a}', "circledstar", "ord"),
    ('\u{2736}', "varstar", "ord"),
    ('\u{273d}', "dingasterisk", "ord"),
    ('\u{2772}', "lbrbrak", "open"),
    ('\u{2773}', "rbrbrak", "close"),
    ('\u{279b}', "draftingarrow", "ord"),
    ('\u{27c0}', "threedangle", "ord"),
    ('\u{27c1}', "whiteinwhitetriangle", "ord"),
    ('\u{27c2}', "perp", "rel"),
    ('\u{27c3}', "subsetcirc", "ord"),
    ('\u{27c4}', "supsetcirc", "ord"),
    ('\u{27c5}', "lbag", "open"),
    ('\u{27c6}', "rbag", "close"),
    ('\u{27c7}', "veedot", "bin"),
    ('\u{27c8}', "bsolhsub", "rel"),
    ('\u{27c9}', "suphsol", "rel"),
    ('\u{27cb}', "diagup", "ord"),
    ('\u{27cc}', "longdivision", "open"),
    ('\u{27cd}', "diagdown", "ord"),
    ('\u{27d0}', "diamondcdot", "ord"),
    ('\u{27d1}', "wedgedot", "bin"),
    ('\u{27d2}', "upin", "rel"),
    ('\u{27d3}', "pullback", "rel"),
    ('\u{27d4}', "pushout", "rel"),
    ('\u{27d5}', "leftouterjoin", "op"),
    ('\u{27d6}', "rightouterjoin", "op"),
    ('\u{27d7}', "fullouterjoin", "op"),
    ('\u{27d8}', "bigbot", "op"),
    ('\u{27d9}', "bigtop", "op"),
    ('\u{27da}', "DashVDash", "rel"),
    ('\u{27db}', "dashVdash", "rel"),
    ('\u{27dc}', "multimapinv", "rel"),
    ('\u{27dd}', "vlongdash", "rel"),
    ('\u{27de}', "longdashv", "rel"),
    ('\u{27df}', "cirbot", "rel"),
    ('\u{27e0}', "lozengeminus", "bin"),
    ('\u{27e1}', "concavediamond", "bin"),
    ('\u{27e2}', "concavediamondtickleft", "bin"),
    ('\u{27e3}', "concavediamondtickright", "bin"),
    ('\u{27e4}', "whitesquaretickleft", "bin"),
    ('\u{27e5}', "whitesquaretickright", "bin"),
    ('\u{27e6}', "lBrack", "open"),
    ('\u{27e7}', "rBrack", "close"),
    ('\u{27e8}', "langle", "open"),
    ('\u{27e9}', "rangle", "close"),
    ('\u{27ea}', "lAngle", "open"),
    ('\u{27eb}', "rAngle", "close"),
    ('\u{27ec}', "Lbrbrak", "open"),
    ('\u{27ed}', "Rbrbrak", "close"),
    ('\u{27ee}', "lgroup", "open"),
    ('\u{27ef}', "rgroup", "close"),
    ('\u{27f0}', "UUparrow", "rel"),
    ('\u{27f1}', "DDownarrow", "rel"),
    ('\u{27f2}', "acwgapcirclearrow", "rel"),
    ('\u{27f3}', "cwgapcirclearrow", "rel"),
    ('\u{27f4}', "rightarrowonoplus", "rel"),
    ('\u{27f5}', "longleftarrow", "rel"),
    ('\u{27f6}', "longrightarrow", "rel"),
    ('\u{27f7}', "longleftrightarrow", "rel"),
    ('\u{27f8}', "Longleftarrow", "rel"),
    ('\u{27f9}', "Longrightarrow", "rel"),
    ('\u{27fa}', "Longleftrightarrow", "rel"),
    ('\u{27fb}', "longmapsfrom", "rel"),
    ('\u{27fc}', "longmapsto", "rel"),
    ('\u{27fd}', "Longmapsfrom", "rel"),
    ('\u{27fe}', "Longmapsto", "rel"),
    ('\u{27ff}', "longrightsquigarrow", "rel"),
    ('\u{2900}', "nvtwoheadrightarrow", "rel"),
    ('\u{2901}', "nVtwoheadrightarrow", "rel"),
    ('\u{2902}', "nvLeftarrow", "rel"),
    ('\u{2903}', "nvRightarrow", "rel"),
    ('\u{2904}', "nvLeftrightarrow", "rel"),
    ('\u{2905}', "twoheadmapsto", "rel"),
    ('\u{2906}', "Mapsfrom", "rel"),
    ('\u{2907}', "Mapsto", "rel"),
    ('\u{2908}', "downarrowbarred", "rel"),
    ('\u{2909}', "uparrowbarred", "rel"),
    ('\u{290a}', "Uuparrow", "rel"),
    ('\u{290b}', "Ddownarrow", "rel"),
    ('\u{290c}', "leftbkarrow", "rel"),
    ('\u{290d}', "rightbkarrow", "rel"),
    ('\u{290e}', "leftdbkarrow", "rel"),
    ('\u{290f}', "dbkarrow", "rel"),
    ('\u{2910}', "drbkarrow", "rel"),
    ('\u{2911}', "rightdotarrow", "rel"),
    ('\u{2912}', "baruparrow", "rel"),
    ('\u{2913}', "downarrowbar", "rel"),
    ('\u{2914}', "nvrightarrowtail", "rel"),
    ('\u{2915}', "nVrightarrowtail", "rel"),
    ('\u{2916}', "twoheadrightarrowtail", "rel"),
    ('\u{2917}', "nvtwoheadrightarrowtail", "rel"),
    ('\u{2918}', "nVtwoheadrightarrowtail", "rel"),
    ('\u{2919}', "lefttail", "rel"),
    ('\u{291a}', "righttail", "rel"),
    ('\u{291b}', "leftdbltail", "rel"),
    ('\u{291c}', "rightdbltail", "rel"),
    ('\u{291d}', "diamondleftarrow", "rel"),
    ('\u{291e}', "rightarrowdiamond", "rel"),
    ('\u{291f}', "diamondleftarrowbar", "rel"),
    ('\u{2920}', "barrightarrowdiamond", "rel"),
    ('\u{2921}', "nwsearrow", "rel"),
    ('\u{2922}', "neswarrow", "rel"),
    ('\u{2923}', "hknwarrow", "rel"),
    ('\u{2924}', "hknearrow", "rel"),
    ('\u{2925}', "hksearrow", "rel"),
    ('\u{2926}', "hkswarrow", "rel"),
    ('\u{2927}', "tona", "rel"),
    ('\u{2928}', "toea", "rel"),
    ('\u{2929}', "tosa", "rel"),
    ('\u{292a}', "towa", "rel"),
    ('\u{292b}', "rdiagovfdiag", "ord"),
    ('\u{292c}', "fdiagovrdiag", "ord"),
    ('\u{292d}', "seovnearrow", "ord"),
    ('\u{292e}', "neovsearrow", "ord"),
    ('\u{292f}', "fdiagovnearrow", "ord"),
    ('\u{2930}', "rdiagovsearrow", "ord"),
    ('\u{2931}', "neovnwarrow", "ord"),
    ('\u{2932}', "nwovnearrow", "ord"),
    ('\u{2933}', "rightcurvedarrow", "rel"),
    ('\u{2934}', "uprightcurvearrow", "ord"),
    ('\u{2935}', "downrightcurvedarrow", "ord"),
    ('\u{2936}', "leftdowncurvedarrow", "rel"),
    ('\u{2937}', "rightdowncurvedarrow", "rel"),
    ('\u{2938}', "cwrightarcarrow", "rel"),
    ('\u{2939}', "acwleftarcarrow", "rel"),
    ('\u{293a}', "acwoverarcarrow", "rel"),
    ('\u{293b}', "acwunderarcarrow", "rel"),
    ('\u{293c}', "curvearrowrightminus", "rel"),
    ('\u{293d}', "curvearrowleftplus", "rel"),
    ('\u{293e}', "cwundercurvearrow", "rel"),
    ('\u{293f}', "ccwundercurvearrow", "rel"),
    ('\u{2940}', "acwcirclearrow", "rel"),
    ('\u{2941}', "cwcirclearrow", "rel"),
    ('\u{2942}', "rightarrowshortleftarrow", "rel"),
    ('\u{2943}', "leftarrowshortrightarrow", "rel"),
    ('\u{2944}', "shortrightarrowleftarrow", "rel"),
    ('\u{2945}', "rightarrowplus", "rel"),
    ('\u{2946}', "leftarrowplus", "rel"),
    ('\u{2947}', "rightarrowx", "rel"),
    ('\u{2948}', "leftrightarrowcircle", "rel"),
    ('\u{2949}', "twoheaduparrowcircle", "rel"),
    ('\u{294a}', "leftrightharpoonupdown", "rel"),
    ('\u{294b}', "leftrightharpoondownup", "rel"),
    ('\u{294c}', "updownharpoonrightleft", "rel"),
    ('\u{294d}', "updownharpoonleftright", "rel"),
    ('\u{294e}', "leftrightharpoonupup", "rel"),
    ('\u{294f}', "updownharpoonrightright", "rel"),
    ('\u{2950}', "leftrightharpoondowndown", "rel"),
    ('\u{2951}', "updownharpoonleftleft", "rel"),
    ('\u{2952}', "barleftharpoonup", "rel"),
    ('\u{2953}', "rightharpoonupbar", "rel"),
    ('\u{2954}', "barupharpoonright", "rel"),
    ('\u{2955}', "downharpoonrightbar", "rel"),
    ('\u{2956}', "barleftharpoondown", "rel"),
    ('\u{2957}', "rightharpoondownbar", "rel"),
    ('\u{2958}', "barupharpoonleft", "rel"),
    ('\u{2959}', "downharpoonleftbar", "rel"),
    ('\u{295a}', "leftharpoonupbar", "rel"),
    ('\u{295b}', "barrightharpoonup", "rel"),
    ('\u{295c}', "upharpoonrightbar", "rel"),
    ('\u{295d}', "bardownharpoonright", "rel"),
    ('\u{295e}', "leftharpoondownbar", "rel"),
    ('\u{295f}', "barrightharpoondown", "rel"),
    ('\u{2960}', "upharpoonleftbar", "rel"),
    ('\u{2961}', "bardownharpoonleft", "rel"),
    ('\u{2962}', "leftharpoonsupdown", "rel"),
    ('\u{2963}', "upharpoonsleftright", "rel"),
    ('\u{2964}', "rightharpoonsupdown", "rel"),
    ('\u{2965}', "downharpoonsleftright", "rel"),
    ('\u{2966}', "leftrightharpoonsup", "rel"),
    ('\u{2967}', "leftrightharpoonsdown", "rel"),
    ('\u{2968}', "rightleftharpoonsup", "rel"),
    ('\u{2969}', "rightleftharpoonsdown", "rel"),
    ('\u{296a}', "leftharpoonupdash", "rel"),
    ('\u{296b}', "dashleftharpoondown", "rel"),
    ('\u{296c}', "rightharpoonupdash", "rel"),
    ('\u{296d}', "dashrightharpoondown", "rel"),
    ('\u{296e}', "updownharpoonsleftright", "rel"),
    ('\u{296f}', "downupharpoonsleftright", "rel"),
    ('\u{2970}', "rightimply", "rel"),
    ('\u{2971}', "equalrightarrow", "rel"),
    ('\u{2972}', "similarrightarrow", "rel"),
    ('\u{2973}', "leftarrowsimilar", "rel"),
    ('\u{2974}', "rightarrowsimilar", "rel"),
    ('\u{2975}', "rightarrowapprox", "rel"),
    ('\u{2976}', "ltlarr", "rel"),
    ('\u{2977}', "leftarrowless", "rel"),
    ('\u{2978}', "gtrarr", "rel"),
    ('\u{2979}', "subrarr", "rel"),
    ('\u{297a}', "leftarrowsubset", "rel"),
    ('\u{297b}', "suplarr", "rel"),
    ('\u{297c}', "leftfishtail", "rel"),
    ('\u{297d}', "rightfishtail", "rel"),
    ('\u{297e}', "upfishtail", "rel"),
    ('\u{297f}', "downfishtail", "rel"),
    ('\u{2980}', "Vvert", "fence"),
    ('\u{2981}', "mdsmblkcircle", "ord"),
    ('\u{2982}', "typecolon", "rel"),
    ('\u{2983}', "lBrace", "open"),
    ('\u{2984}', "rBrace", "close"),
    ('\u{2985}', "lParen", "open"),
    ('\u{2986}', "rParen", "close"),
    ('\u{2987}', "llparenthesis", "open"),
    ('\u{2988}', "rrparenthesis", "close"),
    ('\u{2989}', "llangle", "open"),
    ('\u{298a}', "rrangle", "close"),
    ('\u{298b}', "lbrackubar", "open"),
    ('\u{298c}', "rbrackubar", "close"),
    ('\u{298d}', "lbrackultick", "open"),
    ('\u{298e}', "rbracklrtick", "close"),
    ('\u{298f}', "lbracklltick", "open"),
    ('\u{2990}', "rbrackurtick", "close"),
    ('\u{2991}', "langledot", "open"),
    ('\u{2992}', "rangledot", "close"),
    ('\u{2993}', "lparenless", "open"),
    ('\u{2994}', "rparengtr", "close"),
    ('\u{2995}', "Lparengtr", "open"),
    ('\u{2996}', "Rparenless", "close"),
    ('\u{2997}', "lblkbrbrak", "open"),
    ('\u{2998}', "rblkbrbrak", "close"),
    ('\u{2999}', "fourvdots", "ord"),
    ('\u{299a}', "vzigzag", "ord"),
    ('\u{299b}', "measuredangleleft", "ord"),
    ('\u{299c}', "rightanglesqr", "ord"),
    ('\u{299d}', "rightanglemdot", "ord"),
    ('\u{299e}', "angles", "ord"),
    ('\u{299f}', "angdnr", "ord"),
    ('\u{29a0}', "gtlpar", "ord"),
    ('\u{29a1}', "sphericalangleup", "ord"),
    ('\u{29a2}', "turnangle", "ord"),
    ('\u{29a3}', "revangle", "ord"),
    ('\u{29a4}', "angleubar", "ord"),
    ('\u{29a5}', "revangleubar", "ord"),
    ('\u{29a6}', "wideangledown", "ord"),
    ('\u{29a7}', "wideangleup", "ord"),
    ('\u{29a8}', "measanglerutone", "ord"),
    ('\u{29a9}', "measanglelutonw", "ord"),
    ('\u{29aa}', "measanglerdtose", "ord"),
    ('\u{29ab}', "measangleldtosw", "ord"),
    ('\u{29ac}', "measangleurtone", "ord"),
    ('\u{29ad}', "measangleultonw", "ord"),
    ('\u{29ae}', "measangledrtose", "ord"),
    ('\u{29af}', "measangledltosw", "ord"),
    ('\u{29b0}', "revemptyset", "ord"),
    ('\u{29b1}', "emptysetobar", "ord"),
    ('\u{29b2}', "emptysetocirc", "ord"),
    ('\u{29b3}', "emptysetoarr", "ord"),
    ('\u{29b4}', "emptysetoarrl", "ord"),
    ('\u{29b5}', "circlehbar", "bin"),
    ('\u{29b6}', "circledvert", "bin"),
    ('\u{29b7}', "circledparallel", "bin"),
    ('\u{29b8}', "obslash", "bin"),
    ('\u{29b9}', "operp", "bin"),
    ('\u{29ba}', "obot", "ord"),
    ('\u{29bb}', "olcross", "ord"),
    ('\u{29bc}', "odotslashdot", "ord"),
    ('\u{29bd}', "uparrowoncircle", "ord"),
    ('\u{29be}', "circledwhitebullet", "ord"),
    ('\u{29bf}', "circledbullet", "ord"),
    ('\u{29c0}', "olessthan", "bin"),
    ('\u{29c1}', "ogreaterthan", "bin"),
    ('\u{29c2}', "cirscir", "ord"),
    ('\u{29c3}', "cirE", "ord"),
    ('\u{29c4}', "boxdiag", "bin"),
    ('\u{29c5}', "boxbslash", "bin"),
    ('\u{29c6}', "boxast", "bin"),
    ('\u{29c7}', "boxcircle", "bin"),
    ('\u{29c8}', "boxbox", "bin"),
    ('\u{29c9}', "boxonbox", "ord"),
    ('\u{29ca}', "triangleodot", "ord"),
    ('\u{29cb}', "triangleubar", "ord"),
    ('\u{29cc}', "triangles", "ord"),
    ('\u{29cd}', "triangleserifs", "bin"),
    ('\u{29ce}', "rtriltri", "rel"),
    ('\u{29cf}', "ltrivb", "rel"),
    ('\u{29d0}', "vbrtri", "rel"),
    ('\u{29d1}', "lfbowtie", "rel"),
    ('\u{29d2}', "rfbowtie", "rel"),
    ('\u{29d3}', "fbowtie", "rel"),
    ('\u{29d4}', "lftimes", "rel"),
    ('\u{29d5}', "rftimes", "rel"),
    ('\u{29d6}', "hourglass", "bin"),
    ('\u{29d7}', "blackhourglass", "bin"),
    ('\u{29d8}', "lvzigzag", "open"),
    ('\u{29d9}', "rvzigzag", "close"),
    ('\u{29da}', "Lvzigzag", "open"),
    ('\u{29db}', "Rvzigzag", "close"),
    ('\u{29dc}', "iinfin", "ord"),
    ('\u{29dd}', "tieinfty", "ord"),
    ('\u{29de}', "nvinfty", "ord"),
    ('\u{29df}', "dualmap", "rel"),
    ('\u{29e0}', "laplac", "ord"),
    ('\u{29e1}', "lrtriangleeq", "rel"),
    ('\u{29e2}', "shuffle", "bin"),
    ('\u{29e3}', "eparsl", "rel"),
    ('\u{29e4}', "smeparsl", "rel"),
    ('\u{29e5}', "eqvparsl", "rel"),
    ('\u{29e6}', "gleichstark", "rel"),
    ('\u{29e7}', "thermod", "ord"),
    ('\u{29e8}', "downtriangleleftblack", "ord"),
    ('\u{29e9}', "downtrianglerightblack", "ord"),
    ('\u{29ea}', "blackdiamonddownarrow", "ord"),
    ('\u{29eb}', "mdlgblklozenge", "bin"),
    ('\u{29ec}', "circledownarrow", "ord"),
    ('\u{29ed}', "blackcircledownarrow", "ord"),
    ('\u{29ee}', "errbarsquare", "ord"),
    ('\u{29ef}', "errbarblacksquare", "ord"),
    ('\u{29f0}', "errbardiamond", "ord"),
    ('\u{29f1}', "errbarblackdiamond", "ord"),
    ('\u{29f2}', "errbarcircle", "ord"),
    ('\u{29f3}', "errbarblackcircle", "ord"),
    ('\u{29f4}', "ruledelayed", "rel"),
    ('\u{29f5}', "reversesolidus", "bin"),
    ('\u{29f6}', "dsol", "bin"),
    ('\u{29f7}', "rsolbar", "bin"),
    ('\u{29f8}', "xsol", "op"),
    ('\u{29f9}', "xbsol", "op"),
    ('\u{29fa}', "doubleplus", "bin"),
    ('\u{29fb}', "tripleplus", "bin"),
    ('\u{29fc}', "lcurvyangle", "open"),
    ('\u{29fd}', "rcurvyangle", "close"),
    ('\u{29fe}', "tplus", "bin"),
    ('\u{29ff}', "tminus", "bin"),
    ('\u{2a00}', "bigodot", "op"),
    ('\u{2a01}', "bigoplus", "op"),
    ('\u{2a02}', "bigotimes", "op"),
    ('\u{2a03}', "bigcupdot", "op"),
    ('\u{2a04}', "biguplus", "op"),
    ('\u{2a05}', "bigsqcap", "op"),
    ('\u{2a06}', "bigsqcup", "op"),
    ('\u{2a07}', "conjquant", "op"),
    ('\u{2a08}', "disjquant", "op"),
    ('\u{2a09}', "bigtimes", "op"),
    ('\u{2a0a}', "modtwosum", "op"),
    ('\u{2a0b}', "sumint", "op"),
    ('\u{2a0c}', "iiiint", "op"),
    ('\u{2a0d}', "intbar", "op"),
    ('\u{2a0e}', "intBar", "op"),
    ('\u{2a0f}', "fint", "op"),
    ('\u{2a10}', "cirfnint", "op"),
    ('\u{2a11}', "awint", "op"),
    ('\u{2a12}', "rppolint", "op"),
    ('\u{2a13}', "scpolint", "op"),
    ('\u{2a14}', "npolint", "op"),
    ('\u{2a15}', "pointint", "op"),
    ('\u{2a16}', "sqint", "op"),
    ('\u{2a17}', "intlarhk", "op"),
    ('\u{2a18}', "intx", "op"),
    ('\u{2a19}', "intcap", "op"),
    ('\u{2a1a}', "intcup", "op"),
    ('\u{2a1b}', "upint", "op"),
    ('\u{2a1c}', "lowint", "op"),
    ('\u{2a1d}', "Join", "op"),
    ('\u{2a1e}', "bigtriangleleft", "op"),
    ('\u{2a1f}', "zcmp", "op"),
    ('\u{2a20}', "zpipe", "op"),
    ('\u{2a21}', "zproject", "op"),
    ('\u{2a22}', "ringplus", "bin"),
    ('\u{2a23}', "plushat", "bin"),
    ('\u{2a24}', "simplus", "bin"),
    ('\u{2a25}', "plusdot", "bin"),
    ('\u{2a26}', "plussim", "bin"),
    ('\u{2a27}', "plussubtwo", "bin"),
    ('\u{2a28}', "plustrif", "bin"),
    ('\u{2a29}', "commaminus", "bin"),
    ('\u{2a2a}', "minusdot", "bin"),
    ('\u{2a2b}', "minusfdots", "bin"),
    ('\u{2a2c}', "minusrdots", "bin"),
    ('\u{2a2d}', "opluslhrim", "bin"),
    ('\u{2a2e}', "oplusrhrim", "bin"),
    ('\u{2a2f}', "vectimes", "bin"),
    ('\u{2a30}', "dottimes", "bin"),
    ('\u{2a31}', "timesbar", "bin"),
    ('\u{2a32}', "btimes", "bin"),
    ('\u{2a33}', "smashtimes", "bin"),
    ('\u{2a34}', "otimeslhrim", "bin"),
    ('\u{2a35}', "otimesrhrim", "bin"),
    ('\u{2a36}', "otimeshat", "bin"),
    ('\u{2a37}', "Otimes", "bin"),
    ('\u{2a38}', "odiv", "bin"),
    ('\u{2a39}', "triangleplus", "bin"),
    ('\u{2a3a}', "triangleminus", "bin"),
    ('\u{2a3b}', "triangletimes", "bin"),
    ('\u{2a3c}', "intprod", "bin"),
    ('\u{2a3d}', "intprodr", "bin"),
    ('\u{2a3e}', "fcmp", "bin"),
    ('\u{2a3f}', "amalg", "bin"),
    ('\u{2a40}', "capdot", "bin"),
    ('\u{2a41}', "uminus", "bin"),
    ('\u{2a42}', "barcup", "bin"),
    ('\u{2a43}', "barcap", "bin"),
    ('\u{2a44}', "capwedge", "bin"),
    ('\u{2a45}', "cupvee", "bin"),
    ('\u{2a46}', "cupovercap", "bin"),
    ('\u{2a47}', "capovercup", "bin"),
    ('\u{2a48}', "cupbarcap", "bin"),
    ('\u{2a49}', "capbarcup", "bin"),
    ('\u{2a4a}', "twocups", "bin"),
    ('\u{2a4b}', "twocaps", "bin"),
    ('\u{2a4c}', "closedvarcup", "bin"),
    ('\u{2a4d}', "closedvarcap", "bin"),
    ('\u{2a4e}', "Sqcap", "bin"),
    ('\u{2a4f}', "Sqcup", "bin"),
    ('\u{2a50}', "closedvarcupsmashprod", "bin"),
    ('\u{2a51}', "wedgeodot", "bin"),
    ('\u{2a52}', "veeodot", "bin"),
    ('\u{2a53}', "Wedge", "bin"),
    ('\u{2a54}', "Vee", "bin"),
    ('\u{2a55}', "wedgeonwedge", "bin"),
    ('\u{2a56}', "veeonvee", "bin"),
    ('\u{2a57}', "bigslopedvee", "bin"),
    ('\u{2a58}', "bigslopedwedge", "bin"),
    ('\u{2a59}', "veeonwedge", "rel"),
    ('\u{2a5a}', "wedgemidvert", "bin"),
    ('\u{2a5b}', "veemidvert", "bin"),
    ('\u{2a5c}', "midbarwedge", "bin"),
    ('\u{2a5d}', "midbarvee", "bin"),
    ('\u{2a5e}', "doublebarwedge", "bin"),
    ('\u{2a5f}', "wedgebar", "bin"),
    ('\u{2a60}', "wedgedoublebar", "bin"),
    ('\u{2a61}', "varveebar", "bin"),
    ('\u{2a62}', "doublebarvee", "bin"),
    ('\u{2a63}', "veedoublebar", "bin"),
    ('\u{2a64}', "dsub", "bin"),
    ('\u{2a65}', "rsub", "bin"),
    ('\u{2a66}', "eqdot", "rel"),
    ('\u{2a67}', "dotequiv", "rel"),
    ('\u{2a68}', "equivVert", "rel"),
    ('\u{2a69}', "equivVvert", "rel"),
    ('\u{2a6a}', "dotsim", "rel"),
    ('\u{2a6b}', "simrdots", "rel"),
    ('\u{2a6c}', "simminussim", "rel"),
    ('\u{2a6d}', "congdot", "rel"),
    ('\u{2a6e}', "asteq", "rel"),
    ('\u{2a6f}', "hatapprox", "rel"),
    ('\u{2a70}', "approxeqq", "rel"),
    ('\u{2a71}', "eqqplus", "bin"),
    ('\u{2a72}', "pluseqq", "bin"),
    ('\u{2a73}', "eqqsim", "rel"),
    ('\u{2a74}', "Coloneq", "rel"),
    ('\u{2a75}', "eqeq", "rel"),
    ('\u{2a76}', "eqeqeq", "rel"),
    ('\u{2a77}', "ddotseq", "rel"),
    ('\u{2a78}', "equivDD", "rel"),
    ('\u{2a79}', "ltcir", "rel"),
    ('\u{2a7a}', "gtcir", "rel"),
    ('\u{2a7b}', "ltquest", "rel"),
    ('\u{2a7c}', "gtquest", "rel"),
    ('\u{2a7d}', "leqslant", "rel"),
    ('\u{2a7e}', "geqslant", "rel"),
    ('\u{2a7f}', "lesdot", "rel"),
    ('\u{2a80}', "gesdot", "rel"),
    ('\u{2a81}', "lesdoto", "rel"),
    ('\u{2a82}', "gesdoto", "rel"),
    ('\u{2a83}', "lesdotor", "rel"),
    ('\u{2a84}', "gesdotol", "rel"),
    ('\u{2a85}', "lessapprox", "rel"),
    ('\u{2a86}', "gtrapprox", "rel"),
    ('\u{2a87}', "lneq", "rel"),
    ('\u{2a88}', "gneq", "rel"),
    ('\u{2a89}', "lnapprox", "rel"),
    ('\u{2a8a}', "gnapprox", "rel"),
    ('\u{2a8b}', "lesseqqgtr", "rel"),
    ('\u{2a8c}', "gtreqqless", "rel"),
    ('\u{2a8d}', "lsime", "rel"),
    ('\u{2a8e}', "gsime", "rel"),
    ('\u{2a8f}', "lsimg", "rel"),
    ('\u{2a90}', "gsiml", "rel"),
    ('\u{2a91}', "lgE", "rel"),
    ('\u{2a92}', "glE", "rel"),
    ('\u{2a93}', "lesges", "rel"),
    ('\u{2a94}', "gesles", "rel"),
    ('\u{2a95}', "eqslantless", "rel"),
    ('\u{2a96}', "eqslantgtr", "rel"),
    ('\u{2a97}', "elsdot", "rel"),
    ('\u{2a98}', "egsdot", "rel"),
    ('\u{2a99}', "eqqless", "rel"),
    ('\u{2a9a}', "eqqgtr", "rel"),
    ('\u{2a9b}', "eqqslantless", "rel"),
    ('\u{2a9c}', "eqqslantgtr", "rel"),
    ('\u{2a9d}', "simless", "rel"),
    ('\u{2a9e}', "simgtr", "rel"),
    ('\u{2a9f}', "simlE", "rel"),
    ('\u{2aa0}', "simgE", "rel"),
    ('\u{2aa1}', "Lt", "rel"),
    ('\u{2aa2}', "Gt", "rel"),
    ('\u{2aa3}', "partialmeetcontraction", "rel"),
    ('\u{2aa4}', "glj", "rel"),
    ('\u{2aa5}', "gla", "rel"),
    ('\u{2aa6}', "ltcc", "rel"),
    ('\u{2aa7}', "gtcc", "rel"),
    ('\u{2aa8}', "lescc", "rel"),
    ('\u{2aa9}', "gescc", "rel"),
    ('\u{2aaa}', "smt", "rel"),
    ('\u{2aab}', "lat", "rel"),
    ('\u{2aac}', "smte", "rel"),
    ('\u{2aad}', "late", "rel"),
    ('\u{2aae}', "bumpeqq", "rel"),
    ('\u{2aaf}', "preceq", "rel"),
    ('\u{2ab0}', "succeq", "rel"),
    ('\u{2ab1}', "precneq", "rel"),
    ('\u{2ab2}', "succneq", "rel"),
    ('\u{2ab3}', "preceqq", "rel"),
    ('\u{2ab4}', "succeqq", "rel"),
    ('\u{2ab5}', "precneqq", "rel"),
    ('\u{2ab6}', "succneqq", "rel"),
    ('\u{2ab7}', "precapprox", "rel"),
    ('\u{2ab8}', "succapprox", "rel"),
    ('\u{2ab9}', "precnapprox", "rel"),
    ('\u{2aba}', "succnapprox", "rel"),
    ('\u{2abb}', "Prec", "rel"),
    ('\u{2abc}', "Succ", "rel"),
    ('\u{2abd}', "subsetdot", "rel"),
    ('\u{2abe}', "supsetdot", "rel"),
    ('\u{2abf}', "subsetplus", "rel"),
    ('\u{2ac0}', "supsetplus", "rel"),
    ('\u{2ac1}', "submult", "rel"),
    ('\u{2ac2}', "supmult", "rel"),
    ('\u{2ac3}', "subedot", "rel"),
    ('\u{2ac4}', "supedot", "rel"),
    ('\u{2ac5}', "subseteqq", "rel"),
    ('\u{2ac6}', "supseteqq", "rel"),
    ('\u{2ac7}', "subsim", "rel"),
    ('\u{2ac8}', "supsim", "rel"),
    ('\u{2ac9}', "subsetapprox", "rel"),
    ('\u{2aca}', "supsetapprox", "rel"),
    ('\u{2acb}', "subsetneqq", "rel"),
    ('\u{2acc}', "supsetneqq", "rel"),
    ('\u{2acd}', "lsqhook", "rel"),
    ('\u{2ace}', "rsqhook", "rel"),
    ('\u{2acf}', "csub", "rel"),
    ('\u{2ad0}', "csup", "rel"),
    ('\u{2ad1}', "csube", "rel"),
    ('\u{2ad2}', "csupe", "rel"),
    ('\u{2ad3}', "subsup", "rel"),
    ('\u{2ad4}', "supsub", "rel"),
    ('\u{2ad5}', "subsub", "rel"),
    ('\u{2ad6}', "supsup", "rel"),
    ('\u{2ad7}', "suphsub", "rel"),
    ('\u{2ad8}', "supdsub", "rel"),
    ('\u{2ad9}', "forkv", "rel"),
    ('\u{2ada}', "topfork", "rel"),
    ('\u{2adb}', "mlcp", "rel"),
    ('\u{2adc}', "forks", "rel"),
    ('\u{2add}', "forksnot", "rel"),
    ('\u{2ade}', "shortlefttack", "rel"),
    ('\u{2adf}', "shortdowntack", "rel"),
    ('\u{2ae0}', "shortuptack", "rel"),
    ('\u{2ae1}', "perps", "ord"),
    ('\u{2ae2}', "vDdash", "rel"),
    ('\u{2ae3}', "dashV", "rel"),
    ('\u{2ae4}', "Dashv", "rel"),
    ('\u{2ae5}', "DashV", "rel"),
    ('\u{2ae6}', "varVdash", "rel"),
    ('\u{2ae7}', "Barv", "rel"),
    ('\u{2ae8}', "vBar", "rel"),
    ('\u{2ae9}', "vBarv", "rel"),
    ('\u{2aea}', "barV", "rel"),
    ('\u{2aeb}', "Vbar", "rel"),
    ('\u{2aec}', "Not", "rel"),
    ('\u{2aed}', "bNot", "rel"),
    ('\u{2aee}', "revnmid", "rel"),
    ('\u{2aef}', "cirmid", "rel"),
    ('\u{2af0}', "midcir", "rel"),
    ('\u{2af1}', "topcir", "ord"),
    ('\u{2af2}', "nhpar", "rel"),
    ('\u{2af3}', "parsim", "rel"),
    ('\u{2af4}', "interleave", "bin"),
    ('\u{2af5}', "nhVvert", "bin"),
    ('\u{2af6}', "threedotcolon", "bin"),
    ('\u{2af7}', "lllnest", "rel"),
    ('\u{2af8}', "gggnest", "rel"),
    ('\u{2af9}', "leqqslant", "rel"),
    ('\u{2afa}', "geqqslant", "rel"),
    ('\u{2afb}', "trslash", "bin"),
    ('\u{2afc}', "biginterleave", "op"),
    ('\u{2afd}', "sslash", "bin"),
    ('\u{2afe}', "talloblong", "bin"),
    ('\u{2aff}', "bigtalloblong", "op"),
    ('\u{2b12}', "squaretopblack", "ord"),
    ('\u{2b13}', "squarebotblack", "ord"),
    ('\u{2b14}', "squareurblack", "ord"),
    ('\u{2b15}', "squarellblack", "ord"),
    ('\u{2b16}', "diamondleftblack", "ord"),
    ('\u{2b17}', "diamondrightblack", "ord"),
    ('\u{2b18}', "diamondtopblack", "ord"),
    ('\u{2b19}', "diamondbotblack", "ord"),
    ('\u{2b1a}', "dottedsquare", "ord"),
    ('\u{2b1b}', "lgblksquare", "ord"),
    ('\u{2b1c}', "lgwhtsquare", "ord"),
    ('\u{2b1d}', "vysmblksquare", "ord"),
    ('\u{2b1e}', "vysmwhtsquare", "ord"),
    ('\u{2b1f}', "pentagonblack", "ord"),
    ('\u{2b20}', "pentagon", "ord"),
    ('\u{2b21}', "varhexagon", "ord"),
    ('\u{2b22}', "varhexagonblack", "ord"),
    ('\u{2b23}', "hexagonblack", "ord"),
    ('\u{2b24}', "lgblkcircle", "ord"),
    ('\u{2b25}', "mdblkdiamond", "ord"),
    ('\u{2b26}', "mdwhtdiamond", "ord"),
    ('\u{2b27}', "mdblklozenge", "ord"),
    ('\u{2b28}', "mdwhtlozenge", "ord"),
    ('\u{2b29}', "smblkdiamond", "ord"),
    ('\u{2b2a}', "smblklozenge", "ord"),
    ('\u{2b2b}', "smwhtlozenge", "ord"),
    ('\u{2b2c}', "blkhorzoval", "ord"),
    ('\u{2b2d}', "whthorzoval", "ord"),
    ('\u{2b2e}', "blkvertoval", "ord"),
    ('\u{2b2f}', "whtvertoval", "ord"),
    ('\u{2b30}', "circleonleftarrow", "rel"),
    ('\u{2b31}', "leftthreearrows", "rel"),
    ('\u{2b32}', "leftarrowonoplus", "rel"),
    ('\u{2b33}', "longleftsquigarrow", "rel"),
    ('\u{2b34}', "nvtwoheadleftarrow", "rel"),
    ('\u{2b35}', "nVtwoheadleftarrow", "rel"),
    ('\u{2b36}', "twoheadmapsfrom", "rel"),
    ('\u{2b37}', "twoheadleftdbkarrow", "rel"),
    ('\u{2b38}', "leftdotarrow", "rel"),
    ('\u{2b39}', "nvleftarrowtail", "rel"),
    ('\u{2b3a}', "nVleftarrowtail", "rel"),
    ('\u{2b3b}', "twoheadleftarrowtail", "rel"),
    ('\u{2b3c}', "nvtwoheadleftarrowtail", "rel"),
    ('\u{2b3d}', "nVtwoheadleftarrowtail", "rel"),
    ('\u{2b3e}', "leftarrowx", "rel"),
    ('\u{2b3f}', "leftcurvedarrow", "rel"),
    ('\u{2b40}', "equalleftarrow", "rel"),
    ('\u{2b41}', "bsimilarleftarrow", "rel"),
    ('\u{2b42}', "leftarrowbackapprox", "rel"),
    ('\u{2b43}', "rightarrowgtr", "rel"),
    ('\u{2b44}', "rightarrowsupset", "rel"),
    ('\u{2b45}', "LLeftarrow", "rel"),
    ('\u{2b46}', "RRightarrow", "rel"),
    ('\u{2b47}', "bsimilarrightarrow", "rel"),
    ('\u{2b48}', "rightarrowbackapprox", "rel"),
    ('\u{2b49}', "similarleftarrow", "rel"),
    ('\u{2b4a}', "leftarrowapprox", "rel"),
    ('\u{2b4b}', "leftarrowbsimilar", "rel"),
    ('\u{2b4c}', "rightarrowbsimilar", "rel"),
    ('\u{2b50}', "medwhitestar", "ord"),
    ('\u{2b51}', "medblackstar", "ord"),
    ('\u{2b52}', "smwhitestar", "ord"),
    ('\u{2b53}', "rightpentagonblack", "ord"),
    ('\u{2b54}', "rightpentagon", "ord"),
    ('\u{3012}', "postalmark", "ord"),
    ('\u{3030}', "hzigzag", "ord"),
    ('\u{1d400}', "mbfA", "alpha"),
    ('\u{1d401}', "mbfB", "alpha"),
    ('\u{1d402}', "mbfC", "alpha"),
    ('\u{1d403}', "mbfD", "alpha"),
    ('\u{1d404}', "mbfE", "alpha"),
    ('\u{1d405}', "mbfF", "alpha"),
    ('\u{1d406}', "mbfG", "alpha"),
    ('\u{1d407}', "mbfH", "alpha"),
    ('\u{1d408}', "mbfI", "alpha"),
    ('\u{1d409}', "mbfJ", "alpha"),
    ('\u{1d40a}', "mbfK", "alpha"),
    ('\u{1d40b}', "mbfL", "alpha"),
    ('\u{1d40c}', "mbfM", "alpha"),
    ('\u{1d40d}', "mbfN", "alpha"),
    ('\u{1d40e}', "mbfO", "alpha"),
    ('\u{1d40f}', "mbfP", "alpha"),
    ('\u{1d410}', "mbfQ", "alpha"),
    ('\u{1d411}', "mbfR", "alpha"),
    ('\u{1d412}', "mbfS", "alpha"),
    ('\u{1d413}', "mbfT", "alpha"),
    ('\u{1d414}', "mbfU", "alpha"),
    ('\u{1d415}', "mbfV", "alpha"),
    ('\u{1d416}', "mbfW", "alpha"),
    ('\u{1d417}', "mbfX", "alpha"),
    ('\u{1d418}', "mbfY", "alpha"),
    ('\u{1d419}', "mbfZ", "alpha"),
    ('\u{1d41a}', "mbfa", "alpha"),
    ('\u{1d41b}', "mbfb", "alpha"),
    ('\u{1d41c}', "mbfc", "alpha"),
    ('\u{1d41d}', "mbfd", "alpha"),
    ('\u{1d41e}', "mbfe", "alpha"),
    ('\u{1d41f}', "mbff", "alpha"),
    ('\u{1d420}', "mbfg", "alpha"),
    ('\u{1d421}', "mbfh", "alpha"),
    ('\u{1d422}', "mbfi", "alpha"),
    ('\u{1d423}', "mbfj", "alpha"),
    ('\u{1d424}', "mbfk", "alpha"),
    ('\u{1d425}', "mbfl", "alpha"),
    ('\u{1d426}', "mbfm", "alpha"),
    ('\u{1d427}', "mbfn", "alpha"),
    ('\u{1d428}', "mbfo", "alpha"),
    ('\u{1d429}', "mbfp", "alpha"),
    ('\u{1d42a}', "mbfq", "alpha"),
    ('\u{1d42b}', "mbfr", "alpha"),
    ('\u{1d42c}', "mbfs", "alpha"),
    ('\u{1d42d}', "mbft", "alpha"),
    ('\u{1d42e}', "mbfu", "alpha"),
    ('\u{1d42f}', "mbfv", "alpha"),
    ('\u{1d430}', "mbfw", "alpha"),
    ('\u{1d431}', "mbfx", "alpha"),
    ('\u{1d432}', "mbfy", "alpha"),
    ('\u{1d433}', "mbfz", "alpha"),
    ('\u{1d434}', "mitA", "alpha"),
    ('\u{1d435}', "mitB", "alpha"),
    ('\u{1d436}', "mitC", "alpha"),
    ('\u{1d437}', "mitD", "alpha"),
    ('\u{1d438}', "mitE", "alpha"),
    ('\u{1d439}', "mitF", "alpha"),
    ('\u{1d43a}', "mitG", "alpha"),
    ('\u{1d43b}', "mitH", "alpha"),
    ('\u{1d43c}', "mitI", "alpha"),
    ('\u{1d43d}', "mitJ", "alpha"),
    ('\u{1d43e}', "mitK", "alpha"),
    ('\u{1d43f}', "mitL", "alpha"),
    ('\u{1d440}', "mitM", "alpha"),
    ('\u{1d441}', "mitN", "alpha"),
    ('\u{1d442}', "mitO", "alpha"),
    ('\u{1d443}', "mitP", "alpha"),
    ('\u{1d444}', "mitQ", "alpha"),
    ('\u{1d445}', "mitR", "alpha"),
    ('\u{1d446}', "mitS", "alpha"),
    ('\u{1d447}', "mitT", "alpha"),
    ('\u{1d448}', "mitU", "alpha"),
    ('\u{1d449}', "mitV", "alpha"),
    ('\u{1d44a}', "mitW", "alpha"),
    ('\u{1d44b}', "mitX", "alpha"),
    ('\u{1d44c}', "mitY", "alpha"),
    ('\u{1d44d}', "mitZ", "alpha"),
    ('\u{1d44e}', "mita", "alpha"),
    ('\u{1d44f}', "mitb", "alpha"),
    ('\u{1d450}', "mitc", "alpha"),
    ('\u{1d451}', "mitd", "alpha"),
    ('\u{1d452}', "mite", "alpha"),
    ('\u{1d453}', "mitf", "alpha"),
    ('\u{1d454}', "mitg", "alpha"),
    ('\u{1d456}', "miti", "alpha"),
    ('\u{1d457}', "mitj", "alpha"),
    ('\u{1d458}', "mitk", "alpha"),
    ('\u{1d459}', "mitl", "alpha"),
    ('\u{1d45a}', "mitm", "alpha"),
    ('\u{1d45b}', "mitn", "alpha"),
    ('\u{1d45c}', "mito", "alpha"),
    ('\u{1d45d}', "mitp", "alpha"),
    ('\u{1d45e}', "mitq", "alpha"),
    ('\u{1d45f}', "mitr", "alpha"),
    ('\u{1d460}', "mits", "alpha"),
    ('\u{1d461}', "mitt", "alpha"),
    ('\u{1d462}', "mitu", "alpha"),
    ('\u{1d463}', "mitv", "alpha"),
    ('\u{1d464}', "mitw", "alpha"),
    ('\u{1d465}', "mitx", "alpha"),
    ('\u{1d466}', "mity", "alpha"),
    ('\u{1d467}', "mitz", "alpha"),
    ('\u{1d468}', "mbfitA", "alpha"),
    ('\u{1d469}', "mbfitB", "alpha"),
    ('\u{1d46a}', "mbfitC", "alpha"),
    ('\u{1d46b}', "mbfitD", "alpha"),
    ('\u{1d46c}', "mbfitE", "alpha"),
    ('\u{1d46d}', "mbfitF", "alpha"),
    ('\u{1d46e}', "mbfitG", "alpha"),
    ('\u{1d46f}', "mbfitH", "alpha"),
    ('\u{1d470}', "mbfitI", "alpha"),
    ('\u{1d471}', "mbfitJ", "alpha"),
    ('\u{1d472}', "mbfitK", "alpha"),
    ('\u{1d473}', "mbfitL", "alpha"),
    ('\u{1d474}', "mbfitM", "alpha"),
    ('\u{1d475}', "mbfitN", "alpha"),
    ('\u{1d476}', "mbfitO", "alpha"),
    ('\u{1d477}', "mbfitP", "alpha"),
    ('\u{1d478}', "mbfitQ", "alpha"),
    ('\u{1d479}', "mbfitR", "alpha"),
    ('\u{1d47a}', "mbfitS", "alpha"),
    ('\u{1d47b}', "mbfitT", "alpha"),
    ('\u{1d47c}', "mbfitU", "alpha"),
    ('\u{1d47d}', "mbfitV", "alpha"),
    ('\u{1d47e}', "mbfitW", "alpha"),
    ('\u{1d47f}', "mbfitX", "alpha"),
    ('\u{1d480}', "mbfitY", "alpha"),
    ('\u{1d481}', "mbfitZ", "alpha"),
    ('\u{1d482}', "mbfita", "alpha"),
    ('\u{1d483}', "mbfitb", "alpha"),
    ('\u{1d484}', "mbfitc", "alpha"),
    ('\u{1d485}', "mbfitd", "alpha"),
    ('\u{1d486}', "mbfite", "alpha"),
    ('\u{1d487}', "mbfitf", "alpha"),
    ('\u{1d488}', "mbfitg", "alpha"),
    ('\u{1d489}', "mbfith", "alpha"),
    ('\u{1d48a}', "mbfiti", "alpha"),
    ('\u{1d48b}', "mbfitj", "alpha"),
    ('\u{1d48c}', "mbfitk", "alpha"),
    ('\u{1d48d}', "mbfitl", "alpha"),
    ('\u{1d48e}', "mbfitm", "alpha"),
    ('\u{1d48f}', "mbfitn", "alpha"),
    ('\u{1d490}', "mbfito", "alpha"),
    ('\u{1d491}', "mbfitp", "alpha"),
    ('\u{1d492}', "mbfitq", "alpha"),
    ('\u{1d493}', "mbfitr", "alpha"),
    ('\u{1d494}', "mbfits", "alpha"),
    ('\u{1d495}', "mbfitt", "alpha"),
    ('\u{1d496}', "mbfitu", "alpha"),
    ('\u{1d497}', "mbfitv", "alpha"),
    ('\u{1d498}', "mbfitw", "alpha"),
    ('\u{1d499}', "mbfitx", "alpha"),
    ('\u{1d49a}', "mbfity", "alpha"),
    ('\u{1d49b}', "mbfitz", "alpha"),
    ('\u{1d49c}', "mscrA", "alpha"),
    ('\u{1d49e}', "mscrC", "alpha"),
    ('\u{1d49f}', "mscrD", "alpha"),
    ('\u{1d4a2}', "mscrG", "alpha"),
    ('\u{1d4a5}', "mscrJ", "alpha"),
    ('\u{1d4a6}', "mscrK", "alpha"),
    ('\u{1d4a9}', "mscrN", "alpha"),
    ('\u{1d4aa}', "mscrO", "alpha"),
    ('\u{1d4ab}', "mscrP", "alpha"),
    ('\u{1d4ac}', "mscrQ", "alpha"),
    ('\u{1d4ae}', "mscrS", "alpha"),
    ('\u{1d4af}', "mscrT", "alpha"),
    ('\u{1d4b0}', "mscrU", "alpha"),
    ('\u{1d4b1}', "mscrV", "alpha"),
    ('\u{1d4b2}', "mscrW", "alpha"),
    ('\u{1d4b3}', "mscrX", "alpha"),
    ('\u{1d4b4}', "mscrY", "alpha"),
    ('\u{1d4b5}', "mscrZ", "alpha"),
    ('\u{1d4b6}', "mscra", "alpha"),
    ('\u{1d4b7}', "mscrb", "alpha"),
    ('\u{1d4b8}', "mscrc", "alpha"),
    ('\u{1d4b9}', "mscrd", "alpha"),
    ('\u{1d4bb}', "mscrf", "alpha"),
    ('\u{1d4bd}', "mscrh", "alpha"),
    ('\u{1d4be}', "mscri", "alpha"),
    ('\u{1d4bf}', "mscrj", "alpha"),
    ('\u{1d4c0}', "mscrk", "alpha"),
    ('\u{1d4c1}', "mscrl", "alpha"),
    ('\u{1d4c2}', "mscrm", "alpha"),
    ('\u{1d4c3}', "mscrn", "alpha"),
    ('\u{1d4c5}', "mscrp", "alpha"),
    ('\u{1d4c6}', "mscrq", "alpha"),
    ('\u{1d4c7}', "mscrr", "alpha"),
    ('\u{1d4c8}', "mscrs", "alpha"),
    ('\u{1d4c9}', "mscrt", "alpha"),
    ('\u{1d4ca}', "mscru", "alpha"),
    ('\u{1d4cb}', "mscrv", "alpha"),
    ('\u{1d4cc}', "mscrw", "alpha"),
    ('\u{1d4cd}', "mscrx", "alpha"),
    ('\u{1d4ce}', "mscry", "alpha"),
    ('\u{1d4cf}', "mscrz", "alpha"),
    ('\u{1d4d0}', "mbfscrA", "alpha"),
    ('\u{1d4d1}', "mbfscrB", "alpha"),
    ('\u{1d4d2}', "mbfscrC", "alpha"),
    ('\u{1d4d3}', "mbfscrD", "alpha"),
    ('\u{1d4d4}', "mbfscrE", "alpha"),
    ('\u{1d4d5}', "mbfscrF", "alpha"),
    ('\u{1d4d6}', "mbfscrG", "alpha"),
    ('\u{1d4d7}', "mbfscrH", "alpha"),
    ('\u{1d4d8}', "mbfscrI", "alpha"),
    ('\u{1d4d9}', "mbfscrJ", "alpha"),
    ('\u{1d4da}', "mbfscrK", "alpha"),
    ('\u{1d4db}', "mbfscrL", "alpha"),
    ('\u{1d4dc}', "mbfscrM", "alpha"),
    ('\u{1d4dd}', "mbfscrN", "alpha"),
    ('\u{1d4de}', "mbfscrO", "alpha"),
    ('\u{1d4df}', "mbfscrP", "alpha"),
    ('\u{1d4e0}', "mbfscrQ", "alpha"),
    ('\u{1d4e1}', "mbfscrR", "alpha"),
    ('\u{1d4e2}', "mbfscrS", "alpha"),
    ('\u{1d4e3}', "mbfscrT", "alpha"),
    ('\u{1d4e4}', "mbfscrU", "alpha"),
    ('\u{1d4e5}', "mbfscrV", "alpha"),
    ('\u{1d4e6}', "mbfscrW", "alpha"),
    ('\u{1d4e7}', "mbfscrX", "alpha"),
    ('\u{1d4e8}', "mbfscrY", "alpha"),
    ('\u{1d4e9}', "mbfscrZ", "alpha"),
    ('\u{1d4ea}', "mbfscra", "alpha"),
    ('\u{1d4eb}', "mbfscrb", "alpha"),
    ('\u{1d4ec}', "mbfscrc", "alpha"),
    ('\u{1d4ed}', "mbfscrd", "alpha"),
    ('\u{1d4ee}', "mbfscre", "alpha"),
    ('\u{1d4ef}', "mbfscrf", "alpha"),
    ('\u{1d4f0}', "mbfscrg", "alpha"),
    ('\u{1d4f1}', "mbfscrh", "alpha"),
    ('\u{1d4f2}', "mbfscri", "alpha"),
    ('\u{1d4f3}', "mbfscrj", "alpha"),
    ('\u{1d4f4}', "mbfscrk", "alpha"),
    ('\u{1d4f5}', "mbfscrl", "alpha"),
    ('\u{1d4f6}', "mbfscrm", "alpha"),
    ('\u{1d4f7}', "mbfscrn", "alpha"),
    ('\u{1d4f8}', "mbfscro", "alpha"),
    ('\u{1d4f9}', "mbfscrp", "alpha"),
    ('\u{1d4fa}', "mbfscrq", "alpha"),
    ('\u{1d4fb}', "mbfscrr", "alpha"),
    ('\u{1d4fc}', "mbfscrs", "alpha"),
    ('\u{1d4fd}', "mbfscrt", "alpha"),
    ('\u{1d4fe}', "mbfscru", "alpha"),
    ('\u{1d4ff}', "mbfscrv", "alpha"),
    ('\u{1d500}', "mbfscrw", "alpha"),
    ('\u{1d501}', "mbfscrx", "alpha"),
    ('\u{1d502}', "mbfscry", "alpha"),
    ('\u{1d503}', "mbfscrz", "alpha"),
    ('\u{1d504}', "mfrakA", "alpha"),
    ('\u{1d505}', "mfrakB", "alpha"),
    ('\u{1d507}', "mfrakD", "alpha"),
    ('\u{1d508}', "mfrakE", "alpha"),
    ('\u{1d509}', "mfrakF", "alpha"),
    ('\u{1d50a}', "mfrakG", "alpha"),
    ('\u{1d50d}', "mfrakJ", "alpha"),
    ('\u{1d50e}', "mfrakK", "alpha"),
    ('\u{1d50f}', "mfrakL", "alpha"),
    ('\u{1d510}', "mfrakM", "alpha"),
    ('\u{1d511}', "mfrakN", "alpha"),
    ('\u{1d512}', "mfrakO", "alpha"),
    ('\u{1d513}', "mfrakP", "alpha"),
    ('\u{1d514}', "mfrakQ", "alpha"),
    ('\u{1d516}', "mfrakS", "alpha"),
    ('\u{1d517}', "mfrakT", "alpha"),
    ('\u{1d518}', "mfrakU", "alpha"),
    ('\u{1d519}', "mfrakV", "alpha"),
    ('\u{1d51a}', "mfrakW", "alpha"),
    ('\u{1d51b}', "mfrakX", "alpha"),
    ('\u{1d51c}', "mfrakY", "alpha"),
    ('\u{1d51e}', "mfraka", "alpha"),
    ('\u{1d51f}', "mfrakb", "alpha"),
    ('\u{1d520}', "mfrakc", "alpha"),
    ('\u{1d521}', "mfrakd", "alpha"),
    ('\u{1d522}', "mfrake", "alpha"),
    ('\u{1d523}', "mfrakf", "alpha"),
    ('\u{1d524}', "mfrakg", "alpha"),
    ('\u{1d525}', "mfrakh", "alpha"),
    ('\u{1d526}', "mfraki", "alpha"),
    ('\u{1d527}', "mfrakj", "alpha"),
    ('\u{1d528}', "mfrakk", "alpha"),
    ('\u{1d529}', "mfrakl", "alpha"),
    ('\u{1d52a}', "mfrakm", "alpha"),
    ('\u{1d52b}', "mfrakn", "alpha"),
    ('\u{1d52c}', "mfrako", "alpha"),
    ('\u{1d52d}', "mfrakp", "alpha"),
    ('\u{1d52e}', "mfrakq", "alpha"),
    ('\u{1d52f}', "mfrakr", "alpha"),
    ('\u{1d530}', "mfraks", "alpha"),
    ('\u{1d531}', "mfrakt", "alpha"),
    ('\u{1d532}', "mfraku", "alpha"),
    ('\u{1d533}', "mfrakv", "alpha"),
    ('\u{1d534}', "mfrakw", "alpha"),
    ('\u{1d535}', "mfrakx", "alpha"),
    ('\u{1d536}', "mfraky", "alpha"),
    ('\u{1d537}', "mfrakz", "alpha"),
    ('\u{1d538}', "BbbA", "alpha"),
    ('\u{1d539}', "BbbB", "alpha"),
    ('\u{1d53b}', "BbbD", "alpha"),
    ('\u{1d53c}', "BbbE", "alpha"),
    ('\u{1d53d}', "BbbF", "alpha"),
    ('\u{1d53e}', "BbbG", "alpha"),
    ('\u{1d540}', "BbbI", "alpha"),
    ('\u{1d541}', "BbbJ", "alpha"),
    ('\u{1d542}', "BbbK", "alpha"),
    ('\u{1d543}', "BbbL", "alpha"),
    ('\u{1d544}', "BbbM", "alpha"),
    ('\u{1d546}', "BbbO", "alpha"),
    ('\u{1d54a}', "BbbS", "alpha"),
    ('\u{1d54b}', "BbbT", "alpha"),
    ('\u{1d54c}', "BbbU", "alpha"),
    ('\u{1d54d}', "BbbV", "alpha"),
    ('\u{1d54e}', "BbbW", "alpha"),
    ('\u{1d54f}', "BbbX", "alpha"),
    ('\u{1d550}', "BbbY", "alpha"),
    ('\u{1d552}', "Bbba", "alpha"),
    ('\u{1d553}', "Bbbb", "alpha"),
    ('\u{1d554}', "Bbbc", "alpha"),
    ('\u{1d555}', "Bbbd", "alpha"),
    ('\u{1d556}', "Bbbe", "alpha"),
    ('\u{1d557}', "Bbbf", "alpha"),
    ('\u{1d558}', "Bbbg", "alpha"),
    ('\u{1d559}', "Bbbh", "alpha"),
    ('\u{1d55a}', "Bbbi", "alpha"),
    ('\u{1d55b}', "Bbbj", "alpha"),
    ('\u{1d55c}', "Bbbk", "alpha"),
    ('\u{1d55d}', "Bbbl", "alpha"),
    ('\u{1d55e}', "Bbbm", "alpha"),
    ('\u{1d55f}', "Bbbn", "alpha"),
    ('\u{1d560}', "Bbbo", "alpha"),
    ('\u{1d561}', "Bbbp", "alpha"),
    ('\u{1d562}', "Bbbq", "alpha"),
    ('\u{1d563}', "Bbbr", "alpha"),
    ('\u{1d564}', "Bbbs", "alpha"),
    ('\u{1d565}', "Bbbt", "alpha"),
    ('\u{1d566}', "Bbbu", "alpha"),
    ('\u{1d567}', "Bbbv", "alpha"),
    ('\u{1d568}', "Bbbw", "alpha"),
    ('\u{1d569}', "Bbbx", "alpha"),
    ('\u{1d56a}', "Bbby", "alpha"),
    ('\u{1d56b}', "Bbbz", "alpha"),
    ('\u{1d56c}', "mbffrakA", "alpha"),
    ('\u{1d56d}', "mbffrakB", "alpha"),
    ('\u{1d56e}', "mbffrakC", "alpha"),
    ('\u{1d56f}', "mbffrakD", "alpha"),
    ('\u{1d570}', "mbffrakE", "alpha"),
    ('\u{1d571}', "mbffrakF", "alpha"),
    ('\u{1d572}', "mbffrakG", "alpha"),
    ('\u{1d573}', "mbffrakH", "alpha"),
    ('\u{1d574}', "mbffrakI", "alpha"),
    ('\u{1d575}', "mbffrakJ", "alpha"),
    ('\u{1d576}', "mbffrakK", "alpha"),
    ('\u{1d577}', "mbffrakL", "alpha"),
    ('\u{1d578}', "mbffrakM", "alpha"),
    ('\u{1d579}', "mbffrakN", "alpha"),
    ('\u{1d57a}', "mbffrakO", "alpha"),
    ('\u{1d57b}', "mbffrakP", "alpha"),
    ('\u{1d57c}', "mbffrakQ", "alpha"),
    ('\u{1d57d}', "mbffrakR", "alpha"),
    ('\u{1d57e}', "mbffrakS", "alpha"),
    ('\u{1d57f}', "mbffrakT", "alpha"),
    ('\u{1d580}', "mbffrakU", "alpha"),
    ('\u{1d581}', "mbffrakV", "alpha"),
    ('\u{1d582}', "mbffrakW", "alpha"),
    ('\u{1d583}', "mbffrakX", "alpha"),
    ('\u{1d584}', "mbffrakY", "alpha"),
    ('\u{1d585}', "mbffrakZ", "alpha"),
    ('\u{1d586}', "mbffraka", "alpha"),
    ('\u{1d587}', "mbffrakb", "alpha"),
    ('\u{1d588}', "mbffrakc", "alpha"),
    ('\u{1d589}', "mbffrakd", "alpha"),
    ('\u{1d58a}', "mbffrake", "alpha"),
    ('\u{1d58b}', "mbffrakf", "alpha"),
    ('\u{1d58c}', "mbffrakg", "alpha"),
    ('\u{1d58d}', "mbffrakh", "alpha"),
    ('\u{1d58e}', "mbffraki", "alpha"),
    ('\u{1d58f}', "mbffrakj", "alpha"),
    ('\u{1d590}', "mbffrakk", "alpha"),
    ('\u{1d591}', "mbffrakl", "alpha"),
    ('\u{1d592}', "mbffrakm", "alpha"),
    ('\u{1d593}', "mbffrakn", "alpha"),
    ('\u{1d594}', "mbffrako", "alpha"),
    ('\u{1d595}', "mbffrakp", "alpha"),
    ('\u{1d596}', "mbffrakq", "alpha"),
    ('\u{1d597}', "mbffrakr", "alpha"),
    ('\u{1d598}', "mbffraks", "alpha"),
    ('\u{1d599}', "mbffrakt", "alpha"),
    ('\u{1d59a}', "mbffraku", "alpha"),
    ('\u{1d59b}', "mbffrakv", "alpha"),
    ('\u{1d59c}', "mbffrakw", "alpha"),
    ('\u{1d59d}', "mbffrakx", "alpha"),
    ('\u{1d59e}', "mbffraky", "alpha"),
    ('\u{1d59f}', "mbffrakz", "alpha"),
    ('\u{1d5a0}', "msansA", "alpha"),
    ('\u{1d5a1}', "msansB", "alpha"),
    ('\u{1d5a2}', "msansC", "alpha"),
    ('\u{1d5a3}', "msansD", "alpha"),
    ('\u{1d5a4}', "msansE", "alpha"),
    ('\u{1d5a5}', "msansF", "alpha"),
    ('\u{1d5a6}', "msansG", "alpha"),
    ('\u{1d5a7}', "msansH", "alpha"),
    ('\u{1d5a8}', "msansI", "alpha"),
    ('\u{1d5a9}', "msansJ", "alpha"),
    ('\u{1d5aa}', "msansK", "alpha"),
    ('\u{1d5ab}', "msansL", "alpha"),
    ('\u{1d5ac}', "msansM", "alpha"),
    ('\u{1d5ad}', "msansN", "alpha"),
    ('\u{1d5ae}', "msansO", "alpha"),
    ('\u{1d5af}', "msansP", "alpha"),
    ('\u{1d5b0}', "msansQ", "alpha"),
    ('\u{1d5b1}', "msansR", "alpha"),
    ('\u{1d5b2}', "msansS", "alpha"),
    ('\u{1d5b3}', "msansT", "alpha"),
    ('\u{1d5b4}', "msansU", "alpha"),
    ('\u{1d5b5}', "msansV", "alpha"),
    ('\u{1d5b6}', "msansW", "alpha"),
    ('\u{1d5b7}', "msansX", "alpha"),
    ('\u{1d5b8}', "msansY", "alpha"),
    ('\u{1d5b9}', "msansZ", "alpha"),
    ('\u{1d5ba}', "msansa", "alpha"),
    ('\u{1d5bb}', "msansb", "alpha"),
    ('\u{1d5bc}', "msansc", "alpha"),
    ('\u{1d5bd}', "msansd", "alpha"),
    ('\u{1d5be}', "msanse", "alpha"),
    ('\u{1d5bf}', "msansf", "alpha"),
    ('\u{1d5c0}', "msansg", "alpha"),
    ('\u{1d5c1}', "msansh", "alpha"),
    ('\u{1d5c2}', "msansi", "alpha"),
    ('\u{1d5c3}', "msansj", "alpha"),
    ('\u{1d5c4}', "msansk", "alpha"),
    ('\u{1d5c5}', "msansl", "alpha"),
    ('\u{1d5c6}', "msansm", "alpha"),
    ('\u{1d5c7}', "msansn", "alpha"),
    ('\u{1d5c8}', "msanso", "alpha"),
    ('\u{1d5c9}', "msansp", "alpha"),
    ('\u{1d5ca}', "msansq", "alpha"),
    ('\u{1d5cb}', "msansr", "alpha"),
    ('\u{1d5cc}', "msanss", "alpha"),
    ('\u{1d5cd}', "msanst", "alpha"),
    ('\u{1d5ce}', "msansu", "alpha"),
    ('\u{1d5cf}', "msansv", "alpha"),
    ('\u{1d5d0}', "msansw", "alpha"),
    ('\u{1d5d1}', "msansx", "alpha"),
    ('\u{1d5d2}', "msansy", "alpha"),
    ('\u{1d5d3}', "msansz", "alpha"),
    ('\u{1d5d4}', "mbfsansA", "alpha"),
    ('\u{1d5d5}', "mbfsansB", "alpha"),
    ('\u{1d5d6}', "mbfsansC", "alpha"),
    ('\u{1d5d7}', "mbfsansD", "alpha"),
    ('\u{1d5d8}', "mbfsansE", "alpha"),
    ('\u{1d5d9}', "mbfsansF", "alpha"),
    ('\u{1d5da}', "mbfsansG", "alpha"),
    ('\u{1d5db}', "mbfsansH", "alpha"),
    ('\u{1d5dc}', "mbfsansI", "alpha"),
    ('\u{1d5dd}', "mbfsansJ", "alpha"),
    ('\u{1d5de}', "mbfsansK", "alpha"),
    ('\u{1d5df}', "mbfsansL", "alpha"),
    ('\u{1d5e0}', "mbfsansM", "alpha"),
    ('\u{1d5e1}', "mbfsansN", "alpha"),
    ('\u{1d5e2}', "mbfsansO", "alpha"),
    ('\u{1d5e3}', "mbfsansP", "alpha"),
    ('\u{1d5e4}', "mbfsansQ", "alpha"),
    ('\u{1d5e5}', "mbfsansR", "alpha"),
    ('\u{1d5e6}', "mbfsansS", "alpha"),
    ('\u{1d5e7}', "mbfsansT", "alpha"),
    ('\u{1d5e8}', "mbfsansU", "alpha"),
    ('\u{1d5e9}', "mbfsansV", "alpha"),
    ('\u{1d5ea}', "mbfsansW", "alpha"),
    ('\u{1d5eb}', "mbfsansX", "alpha"),
    ('\u{1d5ec}', "mbfsansY", "alpha"),
    ('\u{1d5ed}', "mbfsansZ", "alpha"),
    ('\u{1d5ee}', "mbfsansa", "alpha"),
    ('\u{1d5ef}', "mbfsansb", "alpha"),
    ('\u{1d5f0}', "mbfsansc", "alpha"),
    ('\u{1d5f1}', "mbfsansd", "alpha"),
    ('\u{1d5f2}', "mbfsanse", "alpha"),
    ('\u{1d5f3}', "mbfsansf", "alpha"),
    ('\u{1d5f4}', "mbfsansg", "alpha"),
    ('\u{1d5f5}', "mbfsansh", "alpha"),
    ('\u{1d5f6}', "mbfsansi", "alpha"),
    ('\u{1d5f7}', "mbfsansj", "alpha"),
    ('\u{1d5f8}', "mbfsansk", "alpha"),
    ('\u{1d5f9}', "mbfsansl", "alpha"),
    ('\u{1d5fa}', "mbfsansm", "alpha"),
    ('\u{1d5fb}', "mbfsansn", "alpha"),
    ('\u{1d5fc}', "mbfsanso", "alpha"),
    ('\u{1d5fd}', "mbfsansp", "alpha"),
    ('\u{1d5fe}', "mbfsansq", "alpha"),
    ('\u{1d5ff}', "mbfsansr", "alpha"),
    ('\u{1d600}', "mbfsanss", "alpha"),
    ('\u{1d601}', "mbfsanst", "alpha"),
    ('\u{1d602}', "mbfsansu", "alpha"),
    ('\u{1d603}', "mbfsansv", "alpha"),
    ('\u{1d604}', "mbfsansw", "alpha"),
    ('\u{1d605}', "mbfsansx", "alpha"),
    ('\u{1d606}', "mbfsansy", "alpha"),
    ('\u{1d607}', "mbfsansz", "alpha"),
    ('\u{1d608}', "mitsansA", "alpha"),
    ('\u{1d609}', "mitsansB", "alpha"),
    ('\u{1d60a}', "mitsansC", "alpha"),
    ('\u{1d60b}', "mitsansD", "alpha"),
    ('\u{1d60c}', "mitsansE", "alpha"),
    ('\u{1d60d}', "mitsansF", "alpha"),
    ('\u{1d60e}', "mitsansG", "alpha"),
    ('\u{1d60f}', "mitsansH", "alpha"),
    ('\u{1d610}', "mitsansI", "alpha"),
    ('\u{1d611}', "mitsansJ", "alpha"),
    ('\u{1d612}', "mitsansK", "alpha"),
    ('\u{1d613}', "mitsansL", "alpha"),
    ('\u{1d614}', "mitsansM", "alpha"),
    ('\u{1d615}', "mitsansN", "alpha"),
    ('\u{1d616}', "mitsansO", "alpha"),
    ('\u{1d617}', "mitsansP", "alpha"),
    ('\u{1d618}', "mitsansQ", "alpha"),
    ('\u{1d619}', "mitsansR", "alpha"),
    ('\u{1d61a}', "mitsansS", "alpha"),
    ('\u{1d61b}', "mitsansT", "alpha"),
    ('\u{1d61c}', "mitsansU", "alpha"),
    ('\u{1d61d}', "mitsansV", "alpha"),
    ('\u{1d61e}', "mitsansW", "alpha"),
    ('\u{1d61f}', "mitsansX", "alpha"),
    ('\u{1d620}', "mitsansY", "alpha"),
    ('\u{1d621}', "mitsansZ", "alpha"),
    ('\u{1d622}', "mitsansa", "alpha"),
    ('\u{1d623}', "mitsansb", "alpha"),
    ('\u{1d624}', "mitsansc", "alpha"),
    ('\u{1d625}', "mitsansd", "alpha"),
    ('\u{1d626}', "mitsanse", "alpha"),
    ('\u{1d627}', "mitsansf", "alpha"),
    ('\u{1d628}', "mitsansg", "alpha"),
    ('\u{1d629}', "mitsansh", "alpha"),
    ('\u{1d62a}', "mitsansi", "alpha"),
    ('\u{1d62b}', "mitsansj", "alpha"),
    ('\u{1d62c}', "mitsansk", "alpha"),
    ('\u{1d62d}', "mitsansl", "alpha"),
    ('\u{1d62e}', "mitsansm", "alpha"),
    ('\u{1d62f}', "mitsansn", "alpha"),
    ('\u{1d630}', "mitsanso", "alpha"),
    ('\u{1d631}', "mitsansp", "alpha"),
    ('\u{1d632}', "mitsansq", "alpha"),
    ('\u{1d633}', "mitsansr", "alpha"),
    ('\u{1d634}', "mitsanss", "alpha"),
    ('\u{1d635}', "mitsanst", "alpha"),
    ('\u{1d636}', "mitsansu", "alpha"),
    ('\u{1d637}', "mitsansv", "alpha"),
    ('\u{1d638}', "mitsansw", "alpha"),
    ('\u{1d639}', "mitsansx", "alpha"),
    ('\u{1d63a}', "mitsansy", "alpha"),
    ('\u{1d63b}', "mitsansz", "alpha"),
    ('\u{1d63c}', "mbfitsansA", "alpha"),
    ('\u{1d63d}', "mbfitsansB", "alpha"),
    ('\u{1d63e}', "mbfitsansC", "alpha"),
    ('\u{1d63f}', "mbfitsansD", "alpha"),
    ('\u{1d640}', "mbfitsansE", "alpha"),
    ('\u{1d641}', "mbfitsansF", "alpha"),
    ('\u{1d642}', "mbfitsansG", "alpha"),
    ('\u{1d643}', "mbfitsansH", "alpha"),
    ('\u{1d644}', "mbfitsansI", "alpha"),
    ('\u{1d645}', "mbfitsansJ", "alpha"),
    ('\u{1d646}', "mbfitsansK", "alpha"),
    ('\u{1d647}', "mbfitsansL", "alpha"),
    ('\u{1d648}', "mbfitsansM", "alpha"),
    ('\u{1d649}', "mbfitsansN", "alpha"),
    ('\u{1d64a}', "mbfitsansO", "alpha"),
    ('\u{1d64b}', "mbfitsansP", "alpha"),
    ('\u{1d64c}', "mbfitsansQ", "alpha"),
    ('\u{1d64d}', "mbfitsansR", "alpha"),
    ('\u{1d64e}', "mbfitsansS", "alpha"),
    ('\u{1d64f}', "mbfitsansT", "alpha"),
    ('\u{1d650}', "mbfitsansU", "alpha"),
    ('\u{1d651}', "mbfitsansV", "alpha"),
    ('\u{1d652}', "mbfitsansW", "alpha"),
    ('\u{1d653}', "mbfitsansX", "alpha"),
    ('\u{1d654}', "mbfitsansY", "alpha"),
    ('\u{1d655}', "mbfitsansZ", "alpha"),
    ('\u{1d656}', "mbfitsansa", "alpha"),
    ('\u{1d657}', "mbfitsansb", "alpha"),
    ('\u{1d658}', "mbfitsansc", "alpha"),
    ('\u{1d659}', "mbfitsansd", "alpha"),
    ('\u{1d65a}', "mbfitsanse", "alpha"),
    ('\u{1d65b}', "mbfitsansf", "alpha"),
    ('\u{1d65c}', "mbfitsansg", "alpha"),
    ('\u{1d65d}', "mbfitsansh", "alpha"),
    ('\u{1d65e}', "mbfitsansi", "alpha"),
    ('\u{1d65f}', "mbfitsansj", "alpha"),
    ('\u{1d660}', "mbfitsansk", "alpha"),
    ('\u{1d661}', "mbfitsansl", "alpha"),
    ('\u{1d662}', "mbfitsansm", "alpha"),
    ('\u{1d663}', "mbfitsansn", "alpha"),
    ('\u{1d664}', "mbfitsanso", "alpha"),
    ('\u{1d665}', "mbfitsansp", "alpha"),
    ('\u{1d666}', "mbfitsansq", "alpha"),
    ('\u{1d667}', "mbfitsansr", "alpha"),
    ('\u{1d668}', "mbfitsanss", "alpha"),
    ('\u{1d669}', "mbfitsanst", "alpha"),
    ('\u{1d66a}', "mbfitsansu", "alpha"),
    ('\u{1d66b}', "mbfitsansv", "alpha"),
    ('\u{1d66c}', "mbfitsansw", "alpha"),
    ('\u{1d66d}', "mbfitsansx", "alpha"),
    ('\u{1d66e}', "mbfitsansy", "alpha"),
    ('\u{1d66f}', "mbfitsansz", "alpha"),
    ('\u{1d670}', "mttA", "alpha"),
    ('\u{1d671}', "mttB", "alpha"),
    ('\u{1d672}', "mttC", "alpha"),
    ('\u{1d673}', "mttD", "alpha"),
    ('\u{1d674}', "mttE", "alpha"),
    ('\u{1d675}', "mttF", "alpha"),
    ('\u{1d676}', "mttG", "alpha"),
    ('\u{1d677}', "mttH", "alpha"),
    ('\u{1d678}', "mttI", "alpha"),
    ('\u{1d679}', "mttJ", "alpha"),
    ('\u{1d67a}', "mttK", "alpha"),
    ('\u{1d67b}', "mttL", "alpha"),
    ('\u{1d67c}', "mttM", "alpha"),
    ('\u{1d67d}', "mttN", "alpha"),
    ('\u{1d67e}', "mttO", "alpha"),
    ('\u{1d67f}', "mttP", "alpha"),
    ('\u{1d680}', "mttQ", "alpha"),
    ('\u{1d681}', "mttR", "alpha"),
    ('\u{1d682}', "mttS", "alpha"),
    ('\u{1d683}', "mttT", "alpha"),
    ('\u{1d684}', "mttU", "alpha"),
    ('\u{1d685}', "mttV", "alpha"),
    ('\u{1d686}', "mttW", "alpha"),
    ('\u{1d687}', "mttX", "alpha"),
    ('\u{1d688}', "mttY", "alpha"),
    ('\u{1d689}', "mttZ", "alpha"),
    ('\u{1d68a}', "mtta", "alpha"),
    ('\u{1d68b}', "mttb", "alpha"),
    ('\u{1d68c}', "mttc", "alpha"),
    ('\u{1d68d}', "mttd", "alpha"),
    ('\u{1d68e}', "mtte", "alpha"),
    ('\u{1d68f}', "mttf", "alpha"),
    ('\u{1d690}', "mttg", "alpha"),
    ('\u{1d691}', "mtth", "alpha"),
    ('\u{1d692}', "mtti", "alpha"),
    ('\u{1d693}', "mttj", "alpha"),
    ('\u{1d694}', "mttk", "alpha"),
    ('\u{1d695}', "mttl", "alpha"),
    ('\u{1d696}', "mttm", "alpha"),
    ('\u{1d697}', "mttn", "alpha"),
    ('\u{1d698}', "mtto", "alpha"),
    ('\u{1d699}', "mttp", "alpha"),
    ('\u{1d69a}', "mttq", "alpha"),
    ('\u{1d69b}', "mttr", "alpha"),
    ('\u{1d69c}', "mtts", "alpha"),
    ('\u{1d69d}', "mttt", "alpha"),
    ('\u{1d69e}', "mttu", "alpha"),
    ('\u{1d69f}', "mttv", "alpha"),
    ('\u{1d6a0}', "mttw", "alpha"),
    ('\u{1d6a1}', "mttx", "alpha"),
    ('\u{1d6a2}', "mtty", "alpha"),
    ('\u{1d6a3}', "mttz", "alpha"),
    ('\u{1d6a4}', "imath", "alpha"),
    ('\u{1d6a5}', "jmath", "alpha"),
    ('\u{1d6a8}', "mbfAlpha", "alpha"),
    ('\u{1d6a9}', "mbfBeta", "alpha"),
    ('\u{1d6aa}', "mbfGamma", "alpha"),
    ('\u{1d6ab}', "mbfDelta", "alpha"),
    ('\u{1d6ac}', "mbfEpsilon", "alpha"),
    ('\u{1d6ad}', "mbfZeta", "alpha"),
    ('\u{1d6ae}', "mbfEta", "alpha"),
    ('\u{1d6af}', "mbfTheta", "alpha"),
    ('\u{1d6b0}', "mbfIota", "alpha"),
    ('\u{1d6b1}', "mbfKappa", "alpha"),
    ('\u{1d6b2}', "mbfLambda", "alpha"),
    ('\u{1d6b3}', "mbfMu", "alpha"),
    ('\u{1d6b4}', "mbfNu", "alpha"),
    ('\u{1d6b5}', "mbfXi", "alpha"),
    ('\u{1d6b6}', "mbfOmicron", "alpha"),
    ('\u{1d6b7}', "mbfPi", "alpha"),
    ('\u{1d6b8}', "mbfRho", "alpha"),
    ('\u{1d6b9}', "mbfvarTheta", "alpha"),
    ('\u{1d6ba}', "mbfSigma", "alpha"),
    ('\u{1d6bb}', "mbfTau", "alpha"),
    ('\u{1d6bc}', "mbfUpsilon", "alpha"),
    ('\u{1d6bd}', "mbfPhi", "alpha"),
    ('\u{1d6be}', "mbfChi", "alpha"),
    ('\u{1d6bf}', "mbfPsi", "alpha"),
    ('\u{1d6c0}', "mbfOmega", "alpha"),
    ('\u{1d6c1}', "mbfnabla", "alpha"),
    ('\u{1d6c2}', "mbfalpha", "alpha"),
    ('\u{1d6c3}', "mbfbeta", "alpha"),
    ('\u{1d6c4}', "mbfgamma", "alpha"),
    ('\u{1d6c5}', "mbfdelta", "alpha"),
    ('\u{1d6c6}', "mbfvarepsilon", "alpha"),
    ('\u{1d6c7}', "mbfzeta", "alpha"),
    ('\u{1d6c8}', "mbfeta", "alpha"),
    ('\u{1d6c9}', "mbftheta", "alpha"),
    ('\u{1d6ca}', "mbfiota", "alpha"),
    ('\u{1d6cb}', "mbfkappa", "alpha"),
    ('\u{1d6cc}', "mbflambda", "alpha"),
    ('\u{1d6cd}', "mbfmu", "alpha"),
    ('\u{1d6ce}', "mbfnu", "alpha"),
    ('\u{1d6cf}', "mbfxi", "alpha"),
    ('\u{1d6d0}', "mbfomicron", "alpha"),
    ('\u{1d6d1}', "mbfpi", "alpha"),
    ('\u{1d6d2}', "mbfrho", "alpha"),
    ('\u{1d6d3}', "mbfvarsigma", "alpha"),
    ('\u{1d6d4}', "mbfsigma", "alpha"),
    ('\u{1d6d5}', "mbftau", "alpha"),
    ('\u{1d6d6}', "mbfupsilon", "alpha"),
    ('\u{1d6d7}', "mbfvarphi", "alpha"),
    ('\u{1d6d8}', "mbfchi", "alpha"),
    ('\u{1d6d9}', "mbfpsi", "alpha"),
    ('\u{1d6da}', "mbfomega", "alpha"),
    ('\u{1d6db}', "mbfpartial", "alpha"),
    ('\u{1d6dc}', "mbfepsilon", "alpha"),
    ('\u{1d6dd}', "mbfvartheta", "alpha"),
    ('\u{1d6de}', "mbfvarkappa", "alpha"),
    ('\u{1d6df}', "mbfphi", "alpha"),
    ('\u{1d6e0}', "mbfvarrho", "alpha"),
    ('\u{1d6e1}', "mbfvarpi", "alpha"),
    ('\u{1d6e2}', "mitAlpha", "alpha"),
    ('\u{1d6e3}', "mitBeta", "alpha"),
    ('\u{1d6e4}', "mitGamma", "alpha"),
    ('\u{1d6e5}', "mitDelta", "alpha"),
    ('\u{1d6e6}', "mitEpsilon", "alpha"),
    ('\u{1d6e7}', "mitZeta", "alpha"),
    ('\u{1d6e8}', "mitEta", "alpha"),
    ('\u{1d6e9}', "mitTheta", "alpha"),
    ('\u{1d6ea}', "mitIota", "alpha"),
    ('\u{1d6eb}', "mitKappa", "alpha"),
    ('\u{1d6ec}', "mitLambda", "alpha"),
    ('\u{1d6ed}', "mitMu", "alpha"),
    ('\u{1d6ee}', "mitNu", "alpha"),
    ('\u{1d6ef}', "mitXi", "alpha"),
    ('\u{1d6f0}', "mitOmicron", "alpha"),
    ('\u{1d6f1}', "mitPi", "alpha"),
    ('\u{1d6f2}', "mitRho", "alpha"),
    ('\u{1d6f3}', "mitvarTheta", "alpha"),
    ('\u{1d6f4}', "mitSigma", "alpha"),
    ('\u{1d6f5}', "mitTau", "alpha"),
    ('\u{1d6f6}', "mitUpsilon", "alpha"),
    ('\u{1d6f7}', "mitPhi", "alpha"),
    ('\u{1d6f8}', "mitChi", "alpha"),
    ('\u{1d6f9}', "mitPsi", "alpha"),
    ('\u{1d6fa}', "mitOmega", "alpha"),
    ('\u{1d6fb}', "mitnabla", "alpha"),
    ('\u{1d6fc}', "mitalpha", "alpha"),
    ('\u{1d6fd}', "mitbeta", "alpha"),
    ('\u{1d6fe}', "mitgamma", "alpha"),
    ('\u{1d6ff}', "mitdelta", "alpha"),
    ('\u{1d700}', "mitvarepsilon", "alpha"),
    ('\u{1d701}', "mitzeta", "alpha"),
    ('\u{1d702}', "miteta", "alpha"),
    ('\u{1d703}', "mittheta", "alpha"),
    ('\u{1d704}', "mitiota", "alpha"),
    ('\u{1d705}', "mitkappa", "alpha"),
    ('\u{1d706}', "mitlambda", "alpha"),
    ('\u{1d707}', "mitmu", "alpha"),
    ('\u{1d708}', "mitnu", "alpha"),
    ('\u{1d709}', "mitxi", "alpha"),
    ('\u{1d70a}', "mitomicron", "alpha"),
    ('\u{1d70b}', "mitpi", "alpha"),
    ('\u{1d70c}', "mitrho", "alpha"),
    ('\u{1d70d}', "mitvarsigma", "alpha"),
    ('\u{1d70e}', "mitsigma", "alpha"),
    ('\u{1d70f}', "mittau", "alpha"),
    ('\u{1d710}', "mitupsilon", "alpha"),
    ('\u{1d711}', "mitvarphi", "alpha"),
    ('\u{1d712}', "mitchi", "alpha"),
    ('\u{1d713}', "mitpsi", "alpha"),
    ('\u{1d714}', "mitomega", "alpha"),
    ('\u{1d715}', "mitpartial", "alpha"),
    ('\u{1d716}', "mitepsilon", "alpha"),
    ('\u{1d717}', "mitvartheta", "alpha"),
    ('\u{1d718}', "mitvarkappa", "alpha"),
    ('\u{1d719}', "mitphi", "alpha"),
    ('\u{1d71a}', "mitvarrho", "alpha"),
    ('\u{1d71b}', "mitvarpi", "alpha"),
    ('\u{1d71c}', "mbfitAlpha", "alpha"),
    ('\u{1d71d}', "mbfitBeta", "alpha"),
    ('\u{1d71e}', "mbfitGamma", "alpha"),
    ('\u{1d71f}', "mbfitDelta", "alpha"),
    ('\u{1d720}', "mbfitEpsilon", "alpha"),
    ('\u{1d721}', "mbfitZeta", "alpha"),
    ('\u{1d722}', "mbfitEta", "alpha"),
    ('\u{1d723}', "mbfitTheta", "alpha"),
    ('\u{1d724}', "mbfitIota", "alpha"),
    ('\u{1d725}', "mbfitKappa", "alpha"),
    ('\u{1d726}', "mbfitLambda", "alpha"),
    ('\u{1d727}', "mbfitMu", "alpha"),
    ('\u{1d728}', "mbfitNu", "alpha"),
    ('\u{1d729}', "mbfitXi", "alpha"),
    ('\u{1d72a}', "mbfitOmicron", "alpha"),
    ('\u{1d72b}', "mbfitPi", "alpha"),
    ('\u{1d72c}', "mbfitRho", "alpha"),
    ('\u{1d72d}', "mbfitvarTheta", "alpha"),
    ('\u{1d72e}', "mbfitSigma", "alpha"),
    ('\u{1d72f}', "mbfitTau", "alpha"),
    ('\u{1d730}', "mbfitUpsilon", "alpha"),
    ('\u{1d731}', "mbfitPhi", "alpha"),
    ('\u{1d732}', "mbfitChi", "alpha"),
    ('\u{1d733}', "mbfitPsi", "alpha"),
    ('\u{1d734}', "mbfitOmega", "alpha"),
    ('\u{1d735}', "mbfitnabla", "alpha"),
    ('\u{1d736}', "mbfitalpha", "alpha"),
    ('\u{1d737}', "mbfitbeta", "alpha"),
    ('\u{1d738}', "mbfitgamma", "alpha"),
    ('\u{1d739}', "mbfitdelta", "alpha"),
    ('\u{1d73a}', "mbfitvarepsilon", "alpha"),
    ('\u{1d73b}', "mbfitzeta", "alpha"),
    ('\u{1d73c}', "mbfiteta", "alpha"),
    ('\u{1d73d}', "mbfittheta", "alpha"),
    ('\u{1d73e}', "mbfitiota", "alpha"),
    ('\u{1d73f}', "mbfitkappa", "alpha"),
    ('\u{1d740}', "mbfitlambda", "alpha"),
    ('\u{1d741}', "mbfitmu", "alpha"),
    ('\u{1d742}', "mbfitnu", "alpha"),
    ('\u{1d743}', "mbfitxi", "alpha"),
    ('\u{1d744}', "mbfitomicron", "alpha"),
    ('\u{1d745}', "mbfitpi", "alpha"),
    ('\u{1d746}', "mbfitrho", "alpha"),
    ('\u{1d747}', "mbfitvarsigma", "alpha"),
    ('\u{1d748}', "mbfitsigma", "alpha"),
    ('\u{1d749}', "mbfittau", "alpha"),
    ('\u{1d74a}', "mbfitupsilon", "alpha"),
    ('\u{1d74b}', "mbfitvarphi", "alpha"),
    ('\u{1d74c}', "mbfitchi", "alpha"),
    ('\u{1d74d}', "mbfitpsi", "alpha"),
    ('\u{1d74e}', "mbfitomega", "alpha"),
    ('\u{1d74f}', "mbfitpartial", "alpha"),
    ('\u{1d750}', "mbfitepsilon", "alpha"),
    ('\u{1d751}', "mbfitvartheta", "alpha"),
    ('\u{1d752}', "mbfitvarkappa", "alpha"),
    ('\u{1d753}', "mbfitphi", "alpha"),
    ('\u{1d754}', "mbfitvarrho", "alpha"),
    ('\u{1d755}', "mbfitvarpi", "alpha"),
    ('\u{1d756}', "mbfsansAlpha", "alpha"),
    ('\u{1d757}', "mbfsansBeta", "alpha"),
    ('\u{1d758}', "mbfsansGamma", "alpha"),
    ('\u{1d759}', "mbfsansDelta", "alpha"),
    ('\u{1d75a}', "mbfsansEpsilon", "alpha"),
    ('\u{1d75b}', "mbfsansZeta", "alpha"),
    ('\u{1d75c}', "mbfsansEta", "alpha"),
    ('\u{1d75d}', "mbfsansTheta", "alpha"),
    ('\u{1d75e}', "mbfsansIota", "alpha"),
    ('\u{1d75f}', "mbfsansKappa", "alpha"),
    ('\u{1d760}', "mbfsansLambda", "alpha"),
    ('\u{1d761}', "mbfsansMu", "alpha"),
    ('\u{1d762}', "mbfsansNu", "alpha"),
    ('\u{1d763}', "mbfsansXi", "alpha"),
    ('\u{1d764}', "mbfsansOmicron", "alpha"),
    ('\u{1d765}', "mbfsansPi", "alpha"),
    ('\u{1d766}', "mbfsansRho", "alpha"),
    ('\u{1d767}', "mbfsansvarTheta", "alpha"),
    ('\u{1d768}', "mbfsansSigma", "alpha"),
    ('\u{1d769}', "mbfsansTau", "alpha"),
    ('\u{1d76a}', "mbfsansUpsilon", "alpha"),
    ('\u{1d76b}', "mbfsansPhi", "alpha"),
    ('\u{1d76c}', "mbfsansChi", "alpha"),
    ('\u{1d76d}', "mbfsansPsi", "alpha"),
    ('\u{1d76e}', "mbfsansOmega", "alpha"),
    ('\u{1d76f}', "mbfsansnabla", "alpha"),
    ('\u{1d770}', "mbfsansalpha", "alpha"),
    ('\u{1d771}', "mbfsansbeta", "alpha"),
    ('\u{1d772}', "mbfsansgamma", "alpha"),
    ('\u{1d773}', "mbfsansdelta", "alpha"),
    ('\u{1d774}', "mbfsansvarepsilon", "alpha"),
    ('\u{1d775}', "mbfsanszeta", "alpha"),
    ('\u{1d776}', "mbfsanseta", "alpha"),
    ('\u{1d777}', "mbfsanstheta", "alpha"),
    ('\u{1d778}', "mbfsansiota", "alpha"),
    ('\u{1d779}', "mbfsanskappa", "alpha"),
    ('\u{1d77a}', "mbfsanslambda", "alpha"),
    ('\u{1d77b}', "mbfsansmu", "alpha"),
    ('\u{1d77c}', "mbfsansnu", "alpha"),
    ('\u{1d77d}', "mbfsansxi", "alpha"),
    ('\u{1d77e}', "mbfsansomicron", "alpha"),
    ('\u{1d77f}', "mbfsanspi", "alpha"),
    ('\u{1d780}', "mbfsansrho", "alpha"),
    ('\u{1d781}', "mbfsansvarsigma", "alpha"),
    ('\u{1d782}', "mbfsanssigma", "alpha"),
    ('\u{1d783}', "mbfsanstau", "alpha"),
    ('\u{1d784}', "mbfsansupsilon", "alpha"),
    ('\u{1d785}', "mbfsansvarphi", "alpha"),
    ('\u{1d786}', "mbfsanschi", "alpha"),
    ('\u{1d787}', "mbfsanspsi", "alpha"),
    ('\u{1d788}', "mbfsansomega", "alpha"),
    ('\u{1d789}', "mbfsanspartial", "alpha"),
    ('\u{1d78a}', "mbfsansepsilon", "alpha"),
    ('\u{1d78b}', "mbfsansvartheta", "alpha"),
    ('\u{1d78c}', "mbfsansvarkappa", "alpha"),
    ('\u{1d78d}', "mbfsansphi", "alpha"),
    ('\u{1d78e}', "mbfsansvarrho", "alpha"),
    ('\u{1d78f}', "mbfsansvarpi", "alpha"),
    ('\u{1d790}', "mbfitsansAlpha", "alpha"),
    ('\u{1d791}', "mbfitsansBeta", "alpha"),
    ('\u{1d792}', "mbfitsansGamma", "alpha"),
    ('\u{1d793}', "mbfitsansDelta", "alpha"),
    ('\u{1d794}', "mbfitsansEpsilon", "alpha"),
    ('\u{1d795}', "mbfitsansZeta", "alpha"),
    ('\u{1d796}', "mbfitsansEta", "alpha"),
    ('\u{1d797}', "mbfitsansTheta", "alpha"),
    ('\u{1d798}', "mbfitsansIota", "alpha"),
    ('\u{1d799}', "mbfitsansKappa", "alpha"),
    ('\u{1d79a}', "mbfitsansLambda", "alpha"),
    ('\u{1d79b}', "mbfitsansMu", "alpha"),
    ('\u{1d79c}', "mbfitsansNu", "alpha"),
    ('\u{1d79d}', "mbfitsansXi", "alpha"),
    ('\u{1d79e}', "mbfitsansOmicron", "alpha"),
    ('\u{1d79f}', "mbfitsansPi", "alpha"),
    ('\u{1d7a0}', "mbfitsansRho", "alpha"),
    ('\u{1d7a1}', "mbfitsansvarTheta", "alpha"),
    ('\u{1d7a2}', "mbfitsansSigma", "alpha"),
    ('\u{1d7a3}', "mbfitsansTau", "alpha"),
    ('\u{1d7a4}', "mbfitsansUpsilon", "alpha"),
    ('\u{1d7a5}', "mbfitsansPhi", "alpha"),
    ('\u{1d7a6}', "mbfitsansChi", "alpha"),
    ('\u{1d7a7}', "mbfitsansPsi", "alpha"),
    ('\u{1d7a8}', "mbfitsansOmega", "alpha"),
    ('\u{1d7a9}', "mbfitsansnabla", "alpha"),
    ('\u{1d7aa}', "mbfitsansalpha", "alpha"),
    ('\u{1d7ab}', "mbfitsansbeta", "alpha"),
    ('\u{1d7ac}', "mbfitsansgamma", "alpha"),
    ('\u{1d7ad}', "mbfitsansdelta", "alpha"),
    ('\u{1d7ae}', "mbfitsansvarepsilon", "alpha"),
    ('\u{1d7af}', "mbfitsanszeta", "alpha"),
    ('\u{1d7b0}', "mbfitsanseta", "alpha"),
    ('\u{1d7b1}', "mbfitsanstheta", "alpha"),
    ('\u{1d7b2}', "mbfitsansiota", "alpha"),
    ('\u{1d7b3}', "mbfitsanskappa", "alpha"),
    ('\u{1d7b4}', "mbfitsanslambda", "alpha"),
    ('\u{1d7b5}', "mbfitsansmu", "alpha"),
    ('\u{1d7b6}', "mbfitsansnu", "alpha"),
    ('\u{1d7b7}', "mbfitsansxi", "alpha"),
    ('\u{1d7b8}', "mbfitsansomicron", "alpha"),
    ('\u{1d7b9}', "mbfitsanspi", "alpha"),
    ('\u{1d7ba}', "mbfitsansrho", "alpha"),
    ('\u{1d7bb}', "mbfitsansvarsigma", "alpha"),
    ('\u{1d7bc}', "mbfitsanssigma", "alpha"),
    ('\u{1d7bd}', "mbfitsanstau", "alpha"),
    ('\u{1d7be}', "mbfitsansupsilon", "alpha"),
    ('\u{1d7bf}', "mbfitsansvarphi", "alpha"),
    ('\u{1d7c0}', "mbfitsanschi", "alpha"),
    ('\u{1d7c1}', "mbfitsanspsi", "alpha"),
    ('\u{1d7c2}', "mbfitsansomega", "alpha"),
    ('\u{1d7c3}', "mbfitsanspartial", "alpha"),
    ('\u{1d7c4}', "mbfitsansepsilon", "alpha"),
    ('\u{1d7c5}', "mbfitsansvartheta", "alpha"),
    ('\u{1d7c6}', "mbfitsansvarkappa", "alpha"),
    ('\u{1d7c7}', "mbfitsansphi", "alpha"),
    ('\u{1d7c8}', "mbfitsansvarrho", "alpha"),
    ('\u{1d7c9}', "mbfitsansvarpi", "alpha"),
    ('\u{1d7ca}', "mbfDigamma", "alpha"),
    ('\u{1d7cb}', "mbfdigamma", "alpha"),
    ('\u{1d7ce}', "mbfzero", "ord"),
    ('\u{1d7cf}', "mbfone", "ord"),
    ('\u{1d7d0}', "mbftwo", "ord"),
    ('\u{1d7d1}', "mbfthree", "ord"),
    ('\u{1d7d2}', "mbffour", "ord"),
    ('\u{1d7d3}', "mbffive", "ord"),
    ('\u{1d7d4}', "mbfsix", "ord"),
    ('\u{1d7d5}', "mbfseven", "ord"),
    ('\u{1d7d6}', "mbfeight", "ord"),
    ('\u{1d7d7}', "mbfnine", "ord"),
    ('\u{1d7d8}', "Bbbzero", "ord"),
    ('\u{1d7d9}', "Bbbone", "ord"),
    ('\u{1d7da}', "Bbbtwo", "ord"),
    ('\u{1d7db}', "Bbbthree", "ord"),
    ('\u{1d7dc}', "Bbbfour", "ord"),
    ('\u{1d7dd}', "Bbbfive", "ord"),
    ('\u{1d7de}', "Bbbsix", "ord"),
    ('\u{1d7df}', "Bbbseven", "ord"),
    ('\u{1d7e0}', "Bbbeight", "ord"),
    ('\u{1d7e1}', "Bbbnine", "ord"),
    ('\u{1d7e2}', "msanszero", "ord"),
    ('\u{1d7e3}', "msansone", "ord"),
    ('\u{1d7e4}', "msanstwo", "ord"),
    ('\u{1d7e5}', "msansthree", "ord"),
    ('\u{1d7e6}', "msansfour", "ord"),
    ('\u{1d7e7}', "msansfive", "ord"),
    ('\u{1d7e8}', "msanssix", "ord"),
    ('\u{1d7e9}', "msansseven", "ord"),
    ('\u{1d7ea}', "msanseight", "ord"),
    ('\u{1d7eb}', "msansnine", "ord"),
    ('\u{1d7ec}', "mbfsanszero", "ord"),
    ('\u{1d7ed}', "mbfsansone", "ord"),
    ('\u{1d7ee}', "mbfsanstwo", "ord"),
    ('\u{1d7ef}', "mbfsansthree", "ord"),
    ('\u{1d7f0}', "mbfsansfour", "ord"),
    ('\u{1d7f1}', "mbfsansfive", "ord"),
    ('\u{1d7f2}', "mbfsanssix", "ord"),
    ('\u{1d7f3}', "mbfsansseven", "ord"),
    ('\u{1d7f4}', "mbfsanseight", "ord"),
    ('\u{1d7f5}', "mbfsansnine", "ord"),
    ('\u{1d7f6}', "mttzero", "ord"),
    ('\u{1d7f7}', "mttone", "ord"),
    ('\u{1d7f8}', "mtttwo", "ord"),
    ('\u{1d7f9}', "mttthree", "ord"),
    ('\u{1d7fa}', "mttfour", "ord"),
    ('\u{1d7fb}', "mttfive", "ord"),
    ('\u{1d7fc}', "mttsix", "ord"),
    ('\u{1d7fd}', "mttseven", "ord"),
    ('\u{1d7fe}', "mtteight", "ord"),
    ('\u{1d7ff}', "mttnine", "ord"),
    ('\u{1eef0}', "arabicmaj", "op"),
    ('\u{1eef1}', "arabichad", "op"),
];

/// (command, the character it stands for)
#[rustfmt::skip]
pub static NAMED: &[(&str, &str)] = &[
    ("Alpha", "\u{391}"),
    ("Bbbk", "\u{1d55c}"),
    ("Beta", "\u{392}"),
    ("Box", "\u{25fb}"),
    ("Bumpeq", "\u{224e}"),
    ("Cap", "\u{22d2}"),
    ("Chi", "\u{3a7}"),
    ("Complex", "\u{2102}"),
    ("Cup", "\u{22d3}"),
    ("Dagger", "\u{2021}"),
    ("Darr", "\u{21d3}"),
    ("Delta", "\u{394}"),
    ("Diamond", "\u{25ca}"),
    ("Doteq", "\u{2251}"),
    ("Downarrow", "\u{21d3}"),
    ("Epsilon", "\u{395}"),
    ("Eta", "\u{397}"),
    ("Finv", "\u{2132}"),
    ("Game", "\u{2141}"),
    ("Gamma", "\u{393}"),
    ("Harr", "\u{21d4}"),
    ("Im", "\u{2111}"),
    ("Iota", "\u{399}"),
    ("Join", "\u{22c8}"),
    ("Kappa", "\u{39a}"),
    ("Lambda", "\u{39b}"),
    ("Larr", "\u{21d0}"),
    ("Leftarrow", "\u{21d0}"),
    ("Leftrightarrow", "\u{21d4}"),
    ("Lleftarrow", "\u{21da}"),
    ("Longleftarrow", "\u{27f8}"),
    ("Longleftrightarrow", "\u{27fa}"),
    ("Longrightarrow", "\u{27f9}"),
    ("Lrarr", "\u{21d4}"),
    ("Lsh", "\u{21b0}"),
    ("Mu", "\u{39c}"),
    ("N", "\u{2115}"),
    ("Nu", "\u{39d}"),
    ("Omega", "\u{3a9}"),
    ("Omicron", "\u{39f}"),
    ("P", "\u{b6}"),
    ("Phi", "\u{3a6}"),
    ("Pi", "\u{3a0}"),
    ("Psi", "\u{3a8}"),
    ("R", "\u{211d}"),
    ("Rarr", "\u{21d2}"),
    ("Re", "\u{211c}"),
    ("Reals", "\u{211d}"),
    ("Rho", "\u{3a1}"),
    ("Rightarrow", "\u{21d2}"),
    ("Rrightarrow", "\u{21db}"),
    ("Rsh", "\u{21b1}"),
    ("S", "\u{a7}"),
    ("Sigma", "\u{3a3}"),
    ("Subset", "\u{22d0}"),
    ("Supset", "\u{22d1}"),
    ("Tau", "\u{3a4}"),
    ("Theta", "\u{398}"),
    ("Uarr", "\u{21d1}"),
    ("Uparrow", "\u{21d1}"),
    ("Updownarrow", "\u{21d5}"),
    ("Upsilon", "\u{3a5}"),
    ("VDash", "\u{22ab}"),
    ("Vdash", "\u{22a9}"),
    ("Vert", "\u{2016}"),
    ("Vvdash", "\u{22aa}"),
    ("Xi", "\u{39e}"),
    ("Yleft", "\u{2919}"),
    ("Yright", "\u{291a}"),
    ("Z", "\u{2124}"),
    ("Zeta", "\u{396}"),
    ("alef", "\u{2135}"),
    ("alefsym", "\u{2135}"),
    ("aleph", "\u{2135}"),
    ("alpha", "\u{3b1}"),
    ("amalg", "\u{2a3f}"),
    ("angle", "\u{2220}"),
    ("approx", "\u{2248}"),
    ("approxeq", "\u{224a}"),
    ("arceq", "\u{2258}"),
    ("ascnode", "\u{260a}"),
    ("ast", "\u{2217}"),
    ("asymp", "\u{224d}"),
    ("awint", "\u{2a11}"),
    ("backepsilon", "\u{3f6}"),
    ("backprime", "\u{2035}"),
    ("backsim", "\u{223d}"),
    ("backsimeq", "\u{22cd}"),
    ("backslash", "\u{5c}"),
    ("barwedge", "\u{22bc}"),
    ("because", "\u{2235}"),
    ("beta", "\u{3b2}"),
    ("beth", "\u{2136}"),
    ("between", "\u{226c}"),
    ("bigcap", "\u{22c2}"),
    ("bigcirc", "\u{25ef}"),
    ("bigcup", "\u{22c3}"),
    ("bigcupdot", "\u{2a03}"),
    ("bigdoublevee", "\u{2a08}"),
    ("bigdoublewedge", "\u{2a07}"),
    ("bigodot", "\u{2a00}"),
    ("bigoplus", "\u{2a01}"),
    ("bigotimes", "\u{2a02}"),
    ("bigsqcap", "\u{2a05}"),
    ("bigsqcup", "\u{2a06}"),
    ("bigstar", "\u{2605}"),
    ("bigtimes", "\u{2a09}"),
    ("bigtriangledown", "\u{25bd}"),
    ("bigtriangleup", "\u{25b3}"),
    ("biguplus", "\u{2a04}"),
    ("bigvee", "\u{22c1}"),
    ("bigwedge", "\u{22c0}"),
    ("blacklozenge", "\u{29eb}"),
    ("blacksquare", "\u{25a0}"),
    ("blacktriangle", "\u{25b2}"),
    ("blacktriangledown", "\u{25bc}"),
    ("blacktriangleleft", "\u{25c0}"),
    ("blacktriangleright", "\u{25b6}"),
    ("bot", "\u{22a5}"),
    ("botdoteq", "\u{2a66}"),
    ("bowtie", "\u{22c8}"),
    ("boxdot", "\u{22a1}"),
    ("boxminus", "\u{229f}"),
    ("boxplus", "\u{229e}"),
    ("boxtimes", "\u{22a0}"),
    ("bull", "\u{2219}"),
    ("bullet", "\u{2219}"),
    ("bumpeq", "\u{224f}"),
    ("cap", "\u{2229}"),
    ("cdot", "\u{22c5}"),
    ("cdotp", "\u{b7}"),
    ("checkmark", "\u{2713}"),
    ("chi", "\u{3c7}"),
    ("circ", "\u{2218}"),
    ("circeq", "\u{2257}"),
    ("circlearrowleft", "\u{21ba}"),
    ("circlearrowright", "\u{21bb}"),
    ("circledR", "\u{24c7}"),
    ("circledS", "\u{24c8}"),
    ("circledast", "\u{229b}"),
    ("circledcirc", "\u{229a}"),
    ("circleddash", "\u{229d}"),
    ("cirfnint", "\u{2a10}"),
    ("clubs", "\u{2663}"),
    ("clubsuit", "\u{2663}"),
    ("cnums", "\u{2102}"),
    ("colon", "\u{3a}"),
    ("complement", "\u{2201}"),
    ("cong", "\u{2245}"),
    ("coprod", "\u{2210}"),
    ("copyright", "\u{a9}"),
    ("cup", "\u{222a}"),
    ("curlyeqprec", "\u{22de}"),
    ("curlyeqsucc", "\u{22df}"),
    ("curlyvee", "\u{22ce}"),
    ("curlywedge", "\u{22cf}"),
    ("curvearrowleft", "\u{21b6}"),
    ("curvearrowright", "\u{21b7}"),
    ("dArr", "\u{21d3}"),
    ("dag", "\u{2020}"),
    ("dagger", "\u{2020}"),
    ("daleth", "\u{2138}"),
    ("darr", "\u{2193}"),
    ("dashleftarrow", "\u{21e0}"),
    ("dashrightarrow", "\u{21e2}"),
    ("dashv", "\u{22a3}"),
    ("ddag", "\u{2021}"),
    ("ddagger", "\u{2021}"),
    ("ddots", "\u{22f1}"),
    ("degree", "\u{b0}"),
    ("delta", "\u{3b4}"),
    ("diagdown", "\u{27cd}"),
    ("diagup", "\u{27cb}"),
    ("diamond", "\u{22c4}"),
    ("diamonds", "\u{2662}"),
    ("diamondsuit", "\u{2662}"),
    ("digamma", "\u{3dd}"),
    ("div", "\u{f7}"),
    ("divideontimes", "\u{22c7}"),
    ("doteq", "\u{2250}"),
    ("doteqdot", "\u{2251}"),
    ("dotplus", "\u{2214}"),
    ("dotsminusdots", "\u{223a}"),
    ("doublebarwedge", "\u{2a5e}"),
    ("doublecap", "\u{22d2}"),
    ("doublecup", "\u{22d3}"),
    ("downarrow", "\u{2193}"),
    ("downdownarrows", "\u{21ca}"),
    ("downharpoonleft", "\u{21c3}"),
    ("downharpoonright", "\u{21c2}"),
    ("ell", "\u{2113}"),
    ("empty", "\u{2205}"),
    ("emptyset", "\u{2205}"),
    ("epsilon", "\u{3f5}"),
    ("eqcirc", "\u{2256}"),
    ("eqdef", "\u{225d}"),
    ("eqsim", "\u{2242}"),
    ("eqslantgtr", "\u{2a96}"),
    ("eqslantless", "\u{2a95}"),
    ("equiv", "\u{2261}"),
    ("eta", "\u{3b7}"),
    ("eth", "\u{f0}"),
    ("exist", "\u{2203}"),
    ("exists", "\u{2203}"),
    ("fallingdotseq", "\u{2252}"),
    ("fcmp", "\u{2a3e}"),
    ("fint", "\u{2a0f}"),
    ("flat", "\u{266d}"),
    ("forall", "\u{2200}"),
    ("frown", "\u{2322}"),
    ("gamma", "\u{3b3}"),
    ("ge", "\u{2265}"),
    ("geq", "\u{2265}"),
    ("geqq", "\u{2267}"),
    ("geqslant", "\u{2a7e}"),
    ("gets", "\u{2190}"),
    ("gg", "\u{226b}"),
    ("ggg", "\u{22d9}"),
    ("gggtr", "\u{22d9}"),
    ("gimel", "\u{2137}"),
    ("gnapprox", "\u{2a8a}"),
    ("gneq", "\u{2a88}"),
    ("gneqq", "\u{2269}"),
    ("gnsim", "\u{22e7}"),
    ("gt", "\u{3e}"),
    ("gtrapprox", "\u{2a86}"),
    ("gtrdot", "\u{22d7}"),
    ("gtreqless", "\u{22db}"),
    ("gtreqqless", "\u{2a8c}"),
    ("gtrless", "\u{2277}"),
    ("gtrsim", "\u{2273}"),
    ("gvertneqq", "\u{2269}\u{fe00}"),
    ("hArr", "\u{21d4}"),
    ("harr", "\u{2194}"),
    ("hbar", "\u{210f}"),
    ("hearts", "\u{2661}"),
    ("heartsuit", "\u{2661}"),
    ("hookleftarrow", "\u{21a9}"),
    ("hookrightarrow", "\u{21aa}"),
    ("hslash", "\u{210f}"),
    ("iddots", "\u{22f0}"),
    ("iiiint", "\u{2a0c}"),
    ("iiint", "\u{222d}"),
    ("iint", "\u{222c}"),
    ("image", "\u{2111}"),
    ("imageof", "\u{22b7}"),
    ("imath", "\u{131}"),
    ("in", "\u{2208}"),
    ("infin", "\u{221e}"),
    ("infty", "\u{221e}"),
    ("int", "\u{222b}"),
    ("intBar", "\u{2a0e}"),
    ("intbar", "\u{2a0d}"),
    ("intclockwise", "\u{2231}"),
    ("intercal", "\u{22ba}"),
    ("iota", "\u{3b9}"),
    ("isin", "\u{2208}"),
    ("jmath", "\u{237}"),
    ("kappa", "\u{3ba}"),
    ("kernelcontraction", "\u{223b}"),
    ("lAngle", "\u{27ea}"),
    ("lArr", "\u{21d0}"),
    ("lBrace", "\u{2983}"),
    ("lVert", "\u{2016}"),
    ("lambda", "\u{3bb}"),
    ("land", "\u{2227}"),
    ("lang", "\u{27e8}"),
    ("langle", "\u{27e8}"),
    ("larr", "\u{2190}"),
    ("lbrace", "\u{7b}"),
    ("lbrack", "\u{5b}"),
    ("lceil", "\u{2308}"),
    ("le", "\u{2264}"),
    ("leadsto", "\u{21dd}"),
    ("leftarrow", "\u{2190}"),
    ("leftarrowtail", "\u{21a2}"),
    ("leftharpoondown", "\u{21bd}"),
    ("leftharpoonup", "\u{21bc}"),
    ("leftleftarrows", "\u{21c7}"),
    ("leftrightarrow", "\u{2194}"),
    ("leftrightarrows", "\u{21c6}"),
    ("leftrightharpoons", "\u{21cb}"),
    ("leftrightsquigarrow", "\u{21ad}"),
    ("leftthreetimes", "\u{22cb}"),
    ("leq", "\u{2264}"),
    ("leqq", "\u{2266}"),
    ("leqslant", "\u{2a7d}"),
    ("lessapprox", "\u{2a85}"),
    ("lessdot", "\u{22d6}"),
    ("lesseqgtr", "\u{22da}"),
    ("lesseqqgtr", "\u{2a8b}"),
    ("lessgtr", "\u{2276}"),
    ("lesssim", "\u{2272}"),
    ("lfloor", "\u{230a}"),
    ("lgroup", "\u{27ee}"),
    ("lhd", "\u{22b2}"),
    ("lightning", "\u{21af}"),
    ("ll", "\u{226a}"),
    ("llangle", "\u{2989}"),
    ("llbracket", "\u{27e6}"),
    ("llcorner", "\u{231e}"),
    ("lll", "\u{22d8}"),
    ("llless", "\u{22d8}"),
    ("llparenthesis", "\u{2987}"),
    ("lmoustache", "\u{23b0}"),
    ("lnapprox", "\u{2a89}"),
    ("lneq", "\u{2a87}"),
    ("lneqq", "\u{2268}"),
    ("lnot", "\u{ac}"),
    ("lnsim", "\u{22e6}"),
    ("longleftarrow", "\u{27f5}"),
    ("longleftrightarrow", "\u{27f7}"),
    ("longmapsto", "\u{27fc}"),
    ("longrightarrow", "\u{27f6}"),
    ("looparrowleft", "\u{21ab}"),
    ("looparrowright", "\u{21ac}"),
    ("lor", "\u{2228}"),
    ("lozenge", "\u{25ca}"),
    ("lparen", "\u{28}"),
    ("lq", "\u{2018}"),
    ("lrArr", "\u{21d4}"),
    ("lrarr", "\u{2194}"),
    ("lrcorner", "\u{231f}"),
    ("lt", "\u{3c}"),
    ("ltimes", "\u{22c9}"),
    ("lvert", "\u{7c}"),
    ("lvertneqq", "\u{2268}\u{fe00}"),
    ("maltese", "\u{2720}"),
    ("mapsto", "\u{21a6}"),
    ("mathsterling", "\u{a3}"),
    ("measeq", "\u{225e}"),
    ("measuredangle", "\u{2221}"),
    ("mho", "\u{2127}"),
    ("mid", "\u{2223}"),
    ("minuso", "\u{29b5}"),
    ("models", "\u{22a8}"),
    ("mp", "\u{2213}"),
    ("mu", "\u{3bc}"),
    ("multimap", "\u{22b8}"),
    ("nLeftarrow", "\u{21cd}"),
    ("nLeftrightarrow", "\u{21ce}"),
    ("nRightarrow", "\u{21cf}"),
    ("nVDash", "\u{22af}"),
    ("nVdash", "\u{22ae}"),
    ("nabla", "\u{2207}"),
    ("natnums", "\u{2115}"),
    ("natural", "\u{266e}"),
    ("ncong", "\u{2247}"),
    ("ne", "\u{2260}"),
    ("nearrow", "\u{2197}"),
    ("neg", "\u{ac}"),
    ("neq", "\u{2260}"),
    ("nequiv", "\u{2262}"),
    ("nexists", "\u{2204}"),
    ("ngeq", "\u{2271}"),
    ("ngtr", "\u{226f}"),
    ("ngtrless", "\u{2279}"),
    ("ngtrsim", "\u{2275}"),
    ("ni", "\u{220b}"),
    ("nleftarrow", "\u{219a}"),
    ("nleftrightarrow", "\u{21ae}"),
    ("nleq", "\u{2270}"),
    ("nless", "\u{226e}"),
    ("nlessgt", "\u{2278}"),
    ("nlesssim", "\u{2274}"),
    ("nmid", "\u{2224}"),
    ("notin", "\u{2209}"),
    ("notni", "\u{220c}"),
    ("nparallel", "\u{2226}"),
    ("nprec", "\u{2280}"),
    ("npreceq", "\u{22e0}"),
    ("nrightarrow", "\u{219b}"),
    ("nsim", "\u{2241}"),
    ("nsubset", "\u{2284}"),
    ("nsubseteq", "\u{2288}"),
    ("nsucc", "\u{2281}"),
    ("nsucceq", "\u{22e1}"),
    ("nsupset", "\u{2285}"),
    ("nsupseteq", "\u{2289}"),
    ("ntriangleleft", "\u{22ea}"),
    ("ntrianglelefteq", "\u{22ec}"),
    ("ntriangleright", "\u{22eb}"),
    ("ntrianglerighteq", "\u{22ed}"),
    ("nu", "\u{3bd}"),
    ("nvDash", "\u{22ad}"),
    ("nvdash", "\u{22ac}"),
    ("nwarrow", "\u{2196}"),
    ("odot", "\u{2299}"),
    ("oiiint", "\u{2230}"),
    ("oiint", "\u{222f}"),
    ("oint", "\u{222e}"),
    ("ointctrclockwise", "\u{2233}"),
    ("omega", "\u{3c9}"),
    ("omicron", "\u{3bf}"),
    ("ominus", "\u{2296}"),
    ("oplus", "\u{2295}"),
    ("origof", "\u{22b6}"),
    ("oslash", "\u{2298}"),
    ("otimes", "\u{2297}"),
    ("owns", "\u{220b}"),
    ("parallel", "\u{2225}"),
    ("partial", "\u{2202}"),
    ("perp", "\u{27c2}"),
    ("phi", "\u{3d5}"),
    ("pi", "\u{3c0}"),
    ("pitchfork", "\u{22d4}"),
    ("plusmn", "\u{b1}"),
    ("pm", "\u{b1}"),
    ("pounds", "\u{a3}"),
    ("prec", "\u{227a}"),
    ("precapprox", "\u{2ab7}"),
    ("preccurlyeq", "\u{227c}"),
    ("preceq", "\u{2aaf}"),
    ("precnapprox", "\u{2ab9}"),
    ("precneqq", "\u{2ab5}"),
    ("precnsim", "\u{22e8}"),
    ("precsim", "\u{227e}"),
    ("prime", "\u{2032}"),
    ("prod", "\u{220f}"),
    ("propto", "\u{221d}"),
    ("psi", "\u{3c8}"),
    ("questeq", "\u{225f}"),
    ("rAngle", "\u{27eb}"),
    ("rArr", "\u{21d2}"),
    ("rBrace", "\u{2984}"),
    ("rVert", "\u{2016}"),
    ("rang", "\u{27e9}"),
    ("rangle", "\u{27e9}"),
    ("rarr", "\u{2192}"),
    ("ratio", "\u{2236}"),
    ("rbrace", "\u{7d}"),
    ("rbrack", "\u{5d}"),
    ("rceil", "\u{2309}"),
    ("real", "\u{211c}"),
    ("reals", "\u{211d}"),
    ("restriction", "\u{21be}"),
    ("rfloor", "\u{230b}"),
    ("rgroup", "\u{27ef}"),
    ("rhd", "\u{22b3}"),
    ("rho", "\u{3c1}"),
    ("rightarrow", "\u{2192}"),
    ("rightarrowtail", "\u{21a3}"),
    ("rightharpoondown", "\u{21c1}"),
    ("rightharpoonup", "\u{21c0}"),
    ("rightleftarrows", "\u{21c4}"),
    ("rightleftharpoons", "\u{21cc}"),
    ("rightrightarrows", "\u{21c9}"),
    ("rightsquigarrow", "\u{21dd}"),
    ("rightthreetimes", "\u{22cc}"),
    ("risingdotseq", "\u{2253}"),
    ("rmoustache", "\u{23b1}"),
    ("rparen", "\u{29}"),
    ("rq", "\u{2019}"),
    ("rrangle", "\u{298a}"),
    ("rrbracket", "\u{27e7}"),
    ("rrparenthesis", "\u{2988}"),
    ("rtimes", "\u{22ca}"),
    ("rupee", "\u{20b9}"),
    ("rvert", "\u{7c}"),
    ("searrow", "\u{2198}"),
    ("sect", "\u{a7}"),
    ("setminus", "\u{2216}"),
    ("sharp", "\u{266f}"),
    ("sigma", "\u{3c3}"),
    ("sim", "\u{223c}"),
    ("simeq", "\u{2243}"),
    ("smile", "\u{2323}"),
    ("spades", "\u{2660}"),
    ("spadesuit", "\u{2660}"),
    ("sphericalangle", "\u{2222}"),
    ("sqcap", "\u{2293}"),
    ("sqcup", "\u{2294}"),
    ("sqsubset", "\u{228f}"),
    ("sqsubseteq", "\u{2291}"),
    ("sqsupset", "\u{2290}"),
    ("sqsupseteq", "\u{2292}"),
    ("square", "\u{25a1}"),
    ("star", "\u{22c6}"),
    ("stareq", "\u{225b}"),
    ("sub", "\u{2282}"),
    ("sube", "\u{2286}"),
    ("subset", "\u{2282}"),
    ("subseteq", "\u{2286}"),
    ("subseteqq", "\u{2ac5}"),
    ("subsetneq", "\u{228a}"),
    ("subsetneqq", "\u{2acb}"),
    ("succ", "\u{227b}"),
    ("succapprox", "\u{2ab8}"),
    ("succcurlyeq", "\u{227d}"),
    ("succeq", "\u{2ab0}"),
    ("succnapprox", "\u{2aba}"),
    ("succneqq", "\u{2ab6}"),
    ("succnsim", "\u{22e9}"),
    ("succsim", "\u{227f}"),
    ("sum", "\u{2211}"),
    ("sumint", "\u{2a0b}"),
    ("supe", "\u{2287}"),
    ("supset", "\u{2283}"),
    ("supseteq", "\u{2287}"),
    ("supseteqq", "\u{2ac6}"),
    ("supsetneq", "\u{228b}"),
    ("supsetneqq", "\u{2acc}"),
    ("swarrow", "\u{2199}"),
    ("tau", "\u{3c4}"),
    ("therefore", "\u{2234}"),
    ("theta", "\u{3b8}"),
    ("thetasym", "\u{3d1}"),
    ("times", "\u{d7}"),
    ("to", "\u{2192}"),
    ("top", "\u{22a4}"),
    ("triangle", "\u{25b3}"),
    ("triangledown", "\u{25bd}"),
    ("triangleleft", "\u{25c1}"),
    ("trianglelefteq", "\u{22b4}"),
    ("triangleq", "\u{225c}"),
    ("triangleright", "\u{25b7}"),
    ("trianglerighteq", "\u{22b5}"),
    ("twoheadleftarrow", "\u{219e}"),
    ("twoheadrightarrow", "\u{21a0}"),
    ("uArr", "\u{21d1}"),
    ("uarr", "\u{2191}"),
    ("ulcorner", "\u{231c}"),
    ("unlhd", "\u{22b4}"),
    ("unrhd", "\u{22b5}"),
    ("uparrow", "\u{2191}"),
    ("updownarrow", "\u{2195}"),
    ("upharpoonleft", "\u{21bf}"),
    ("upharpoonright", "\u{21be}"),
    ("uplus", "\u{228e}"),
    ("upsilon", "\u{3c5}"),
    ("upuparrows", "\u{21c8}"),
    ("urcorner", "\u{231d}"),
    ("vDash", "\u{22a8}"),
    ("varDelta", "\u{394}"),
    ("varGamma", "\u{393}"),
    ("varLambda", "\u{39b}"),
    ("varOmega", "\u{3a9}"),
    ("varPhi", "\u{3a6}"),
    ("varPi", "\u{3a0}"),
    ("varPsi", "\u{3a8}"),
    ("varSigma", "\u{3a3}"),
    ("varTheta", "\u{398}"),
    ("varUpsilon", "\u{3a5}"),
    ("varXi", "\u{39e}"),
    ("varepsilon", "\u{3b5}"),
    ("varkappa", "\u{3f0}"),
    ("varnothing", "\u{2205}"),
    ("varointclockwise", "\u{2232}"),
    ("varphi", "\u{3c6}"),
    ("varpi", "\u{3d6}"),
    ("varrho", "\u{3f1}"),
    ("varsigma", "\u{3c2}"),
    ("varsubsetneq", "\u{228a}\u{fe00}"),
    ("varsubsetneqq", "\u{2acb}\u{fe00}"),
    ("varsupsetneq", "\u{228b}\u{fe00}"),
    ("varsupsetneqq", "\u{2acc}\u{fe00}"),
    ("vartheta", "\u{3d1}"),
    ("vartriangle", "\u{25b3}"),
    ("vartriangleleft", "\u{22b2}"),
    ("vartriangleright", "\u{22b3}"),
    ("vcentcolon", "\u{2236}"),
    ("vdash", "\u{22a2}"),
    ("vdots", "\u{22ee}"),
    ("vee", "\u{2228}"),
    ("veebar", "\u{22bb}"),
    ("veeeq", "\u{225a}"),
    ("vert", "\u{7c}"),
    ("wedge", "\u{2227}"),
    ("wedgeq", "\u{2259}"),
    ("weierp", "\u{2118}"),
    ("wp", "\u{2118}"),
    ("wr", "\u{2240}"),
    ("xi", "\u{3be}"),
    ("yen", "\u{a5}"),
    ("zeta", "\u{3b6}"),
    ("|", "\u{2016}"),
];

/// (first, last, category, form)
#[rustfmt::skip]
pub static DICT: &[(u32, u32, char, &str)] = &[
    (0x2190, 0x2195, 'A', "infix"),
    (0x219a, 0x21ae, 'A', "infix"),
    (0x21b0, 0x21b5, 'A', "infix"),
    (0x21b9, 0x21b9, 'A', "infix"),
    (0x21bc, 0x21d5, 'A', "infix"),
    (0x21da, 0x21f0, 'A', "infix"),
    (0x21f3, 0x21ff, 'A', "infix"),
    (0x2794, 0x2794, 'A', "infix"),
    (0x2799, 0x2799, 'A', "infix"),
    (0x279b, 0x27a1, 'A', "infix"),
    (0x27a5, 0x27a6, 'A', "infix"),
    (0x27a8, 0x27af, 'A', "infix"),
    (0x27b1, 0x27b1, 'A', "infix"),
    (0x27b3, 0x27b3, 'A', "infix"),
    (0x27b5, 0x27b5, 'A', "infix"),
    (0x27b8, 0x27b8, 'A', "infix"),
    (0x27ba, 0x27be, 'A', "infix"),
    (0x27f0, 0x27f1, 'A', "infix"),
    (0x27f4, 0x27ff, 'A', "infix"),
    (0x2900, 0x2920, 'A', "infix"),
    (0x2934, 0x2937, 'A', "infix"),
    (0x2942, 0x2975, 'A', "infix"),
    (0x297c, 0x297f, 'A', "infix"),
    (0x2b04, 0x2b07, 'A', "infix"),
    (0x2b0c, 0x2b11, 'A', "infix"),
    (0x2b30, 0x2b3e, 'A', "infix"),
    (0x2b40, 0x2b4c, 'A', "infix"),
    (0x2b60, 0x2b65, 'A', "infix"),
    (0x2b6a, 0x2b6d, 'A', "infix"),
    (0x2b70, 0x2b73, 'A', "infix"),
    (0x2b7a, 0x2b7d, 'A', "infix"),
    (0x2b80, 0x2b87, 'A', "infix"),
    (0x2b95, 0x2b95, 'A', "infix"),
    (0x2ba0, 0x2baf, 'A', "infix"),
    (0x2bb8, 0x2bb8, 'A', "infix"),
    (0x2b, 0x2b, 'B', "infix"),
    (0x2d, 0x2d, 'B', "infix"),
    (0xb1, 0xb1, 'B', "infix"),
    (0xf7, 0xf7, 'B', "infix"),
    (0x322, 0x322, 'B', "infix"),
    (0x2044, 0x2044, 'B', "infix"),
    (0x2212, 0x2216, 'B', "infix"),
    (0x2227, 0x222a, 'B', "infix"),
    (0x2236, 0x2236, 'B', "infix"),
    (0x2238, 0x2238, 'B', "infix"),
    (0x228c, 0x228e, 'B', "infix"),
    (0x2293, 0x2296, 'B', "infix"),
    (0x2298, 0x2298, 'B', "infix"),
    (0x229d, 0x229f, 'B', "infix"),
    (0x22bb, 0x22bd, 'B', "infix"),
    (0x22ce, 0x22cf, 'B', "infix"),
    (0x22d2, 0x22d3, 'B', "infix"),
    (0x2795, 0x2797, 'B', "infix"),
    (0x29b8, 0x29b8, 'B', "infix"),
    (0x29bc, 0x29bc, 'B', "infix"),
    (0x29c4, 0x29c5, 'B', "infix"),
    (0x29f5, 0x29fb, 'B', "infix"),
    (0x2a1f, 0x2a2e, 'B', "infix"),
    (0x2a38, 0x2a3a, 'B', "infix"),
    (0x2a3e, 0x2a3e, 'B', "infix"),
    (0x2a40, 0x2a4f, 'B', "infix"),
    (0x2a51, 0x2a63, 'B', "infix"),
    (0x2adb, 0x2adb, 'B', "infix"),
    (0x2af6, 0x2af6, 'B', "infix"),
    (0x2afb, 0x2afb, 'B', "infix"),
    (0x2afd, 0x2afd, 'B', "infix"),
    (0x25, 0x25, 'C', "infix"),
    (0x2a, 0x2a, 'C', "infix"),
    (0x2e, 0x2e, 'C', "infix"),
    (0x3f, 0x40, 'C', "infix"),
    (0x5e, 0x5e, 'C', "infix"),
    (0xb7, 0xb7, 'C', "infix"),
    (0xd7, 0xd7, 'C', "infix"),
    (0x323, 0x323, 'C', "infix"),
    (0x32e, 0x32e, 'C', "infix"),
    (0x2022, 0x2022, 'C', "infix"),
    (0x2043, 0x2043, 'C', "infix"),
    (0x2217, 0x2219, 'C', "infix"),
    (0x2240, 0x2240, 'C', "infix"),
    (0x2297, 0x2297, 'C', "infix"),
    (0x2299, 0x229b, 'C', "infix"),
    (0x22a0, 0x22a1, 'C', "infix"),
    (0x22ba, 0x22ba, 'C', "infix"),
    (0x22c4, 0x22c7, 'C', "infix"),
    (0x22c9, 0x22cc, 'C', "infix"),
    (0x2305, 0x2306, 'C', "infix"),
    (0x27cb, 0x27cb, 'C', "infix"),
    (0x27cd, 0x27cd, 'C', "infix"),
    (0x29c6, 0x29c8, 'C', "infix"),
    (0x29d4, 0x29d7, 'C', "infix"),
    (0x29e2, 0x29e2, 'C', "infix"),
    (0x2a1d, 0x2a1e, 'C', "infix"),
    (0x2a2f, 0x2a37, 'C', "infix"),
    (0x2a3b, 0x2a3d, 'C', "infix"),
    (0x2a3f, 0x2a3f, 'C', "infix"),
    (0x2a50, 0x2a50, 'C', "infix"),
    (0x2a64, 0x2a65, 'C', "infix"),
    (0x2adc, 0x2add, 'C', "infix"),
    (0x2afe, 0x2afe, 'C', "infix"),
    (0x21, 0x21, 'D', "prefix"),
    (0x2b, 0x2b, 'D', "prefix"),
    (0x2d, 0x2d, 'D', "prefix"),
    (0xac, 0xac, 'D', "prefix"),
    (0xb1, 0xb1, 'D', "prefix"),
    (0x331, 0x331, 'D', "prefix"),
    (0x2018, 0x2018, 'D', "prefix"),
    (0x201c, 0x201c, 'D', "prefix"),
    (0x2200, 0x2201, 'D', "prefix"),
    (0x2203, 0x2204, 'D', "prefix"),
    (0x2207, 0x2207, 'D', "prefix"),
    (0x2212, 0x2213, 'D', "prefix"),
    (0x221f, 0x2222, 'D', "prefix"),
    (0x2234, 0x2235, 'D', "prefix"),
    (0x223c, 0x223c, 'D', "prefix"),
    (0x22be, 0x22bf, 'D', "prefix"),
    (0x2310, 0x2310, 'D', "prefix"),
    (0x2319, 0x2319, 'D', "prefix"),
    (0x2795, 0x2796, 'D', "prefix"),
    (0x27c0, 0x27c0, 'D', "prefix"),
    (0x299b, 0x29af, 'D', "prefix"),
    (0x2aec, 0x2aed, 'D', "prefix"),
    (0x21, 0x22, 'E', "postfix"),
    (0x25, 0x27, 'E', "postfix"),
    (0x60, 0x60, 'E', "postfix"),
    (0xa8, 0xa8, 'E', "postfix"),
    (0xb0, 0xb0, 'E', "postfix"),
    (0xb2, 0xb4, 'E', "postfix"),
    (0xb8, 0xb9, 'E', "postfix"),
    (0x2ca, 0x2cb, 'E', "postfix"),
    (0x2d8, 0x2da, 'E', "postfix"),
    (0x2dd, 0x2dd, 'E', "postfix"),
    (0x311, 0x311, 'E', "postfix"),
    (0x320, 0x320, 'E', "postfix"),
    (0x325, 0x325, 'E', "postfix"),
    (0x327, 0x327, 'E', "postfix"),
    (0x331, 0x331, 'E', "postfix"),
    (0x2019, 0x201b, 'E', "postfix"),
    (0x201d, 0x201f, 'E', "postfix"),
    (0x2032, 0x2037, 'E', "postfix"),
    (0x2057, 0x2057, 'E', "postfix"),
    (0x20db, 0x20dc, 'E', "postfix"),
    (0x23cd, 0x23cd, 'E', "postfix"),
    (0x28, 0x28, 'F', "prefix"),
    (0x5b, 0x5b, 'F', "prefix"),
    (0x7b, 0x7c, 'F', "prefix"),
    (0x2016, 0x2016, 'F', "prefix"),
    (0x2308, 0x2308, 'F', "prefix"),
    (0x230a, 0x230a, 'F', "prefix"),
    (0x2329, 0x2329, 'F', "prefix"),
    (0x2772, 0x2772, 'F', "prefix"),
    (0x27e6, 0x27e6, 'F', "prefix"),
    (0x27e8, 0x27e8, 'F', "prefix"),
    (0x27ea, 0x27ea, 'F', "prefix"),
    (0x27ec, 0x27ec, 'F', "prefix"),
    (0x27ee, 0x27ee, 'F', "prefix"),
    (0x2980, 0x2980, 'F', "prefix"),
    (0x2983, 0x2983, 'F', "prefix"),
    (0x2985, 0x2985, 'F', "prefix"),
    (0x2987, 0x2987, 'F', "prefix"),
    (0x2989, 0x2989, 'F', "prefix"),
    (0x298b, 0x298b, 'F', "prefix"),
    (0x298d, 0x298d, 'F', "prefix"),
    (0x298f, 0x298f, 'F', "prefix"),
    (0x2991, 0x2991, 'F', "prefix"),
    (0x2993, 0x2993, 'F', "prefix"),
    (0x2995, 0x2995, 'F', "prefix"),
    (0x2997, 0x2997, 'F', "prefix"),
    (0x2999, 0x2999, 'F', "prefix"),
    (0x29d8, 0x29d8, 'F', "prefix"),
    (0x29da, 0x29da, 'F', "prefix"),
    (0x29fc, 0x29fc, 'F', "prefix"),
    (0x29, 0x29, 'G', "postfix"),
    (0x5d, 0x5d, 'G', "postfix"),
    (0x7c, 0x7d, 'G', "postfix"),
    (0x2016, 0x2016, 'G', "postfix"),
    (0x2309, 0x2309, 'G', "postfix"),
    (0x230b, 0x230b, 'G', "postfix"),
    (0x232a, 0x232a, 'G', "postfix"),
    (0x2773, 0x2773, 'G', "postfix"),
    (0x27e7, 0x27e7, 'G', "postfix"),
    (0x27e9, 0x27e9, 'G', "postfix"),
    (0x27eb, 0x27eb, 'G', "postfix"),
    (0x27ed, 0x27ed, 'G', "postfix"),
    (0x27ef, 0x27ef, 'G', "postfix"),
    (0x2980, 0x2980, 'G', "postfix"),
    (0x2984, 0x2984, 'G', "postfix"),
    (0x2986, 0x2986, 'G', "postfix"),
    (0x2988, 0x2988, 'G', "postfix"),
    (0x298a, 0x298a, 'G', "postfix"),
    (0x298c, 0x298c, 'G', "postfix"),
    (0x298e, 0x298e, 'G', "postfix"),
    (0x2990, 0x2990, 'G', "postfix"),
    (0x2992, 0x2992, 'G', "postfix"),
    (0x2994, 0x2994, 'G', "postfix"),
    (0x2996, 0x2996, 'G', "postfix"),
    (0x2998, 0x2998, 'G', "postfix"),
    (0x2999, 0x2999, 'G', "postfix"),
    (0x29d9, 0x29d9, 'G', "postfix"),
    (0x29db, 0x29db, 'G', "postfix"),
    (0x29fd, 0x29fd, 'G', "postfix"),
    (0x222b, 0x2233, 'H', "prefix"),
    (0x2a0b, 0x2a1c, 'H', "prefix"),
    (0x5e, 0x5f, 'I', "postfix"),
    (0x7e, 0x7e, 'I', "postfix"),
    (0xaf, 0xaf, 'I', "postfix"),
    (0x2c6, 0x2c7, 'I', "postfix"),
    (0x2c9, 0x2c9, 'I', "postfix"),
    (0x2cd, 0x2cd, 'I', "postfix"),
    (0x2dc, 0x2dc, 'I', "postfix"),
    (0x2f7, 0x2f7, 'I', "postfix"),
    (0x302, 0x302, 'I', "postfix"),
    (0x203e, 0x203e, 'I', "postfix"),
    (0x2322, 0x2323, 'I', "postfix"),
    (0x23b4, 0x23b5, 'I', "postfix"),
    (0x23dc, 0x23e1, 'I', "postfix"),
    (0x220f, 0x2211, 'J', "prefix"),
    (0x22c0, 0x22c3, 'J', "prefix"),
    (0x2a00, 0x2a0a, 'J', "prefix"),
    (0x2a1d, 0x2a1e, 'J', "prefix"),
    (0x2afc, 0x2afc, 'J', "prefix"),
    (0x2aff, 0x2aff, 'J', "prefix"),
    (0x2f, 0x2f, 'K', "infix"),
    (0x5c, 0x5c, 'K', "infix"),
    (0x5f, 0x5f, 'K', "infix"),
    (0x2061, 0x2064, 'K', "infix"),
    (0x2206, 0x2206, 'K', "infix"),
    (0x2145, 0x2146, 'L', "prefix"),
    (0x2202, 0x2202, 'L', "prefix"),
    (0x221a, 0x221c, 'L', "prefix"),
    (0x2c, 0x2c, 'M', "infix"),
    (0x3a, 0x3b, 'M', "infix"),
];
