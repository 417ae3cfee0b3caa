// Generated by tools/extract_cmds.py from the command table of the pinned commit.
// Vocabulary only: it steers the generators and is never an oracle.

pub static ACCENT: &[&str] = &["Overrightarrow", "acute", "bar", "breve", "check", "ddddot", "dddot", "ddot", "dot", "grave", "hat", "mathring", "overgroup", "overleftarrow", "overleftharpoon", "overleftrightarrow", "overline", "overrightarrow", "overrightharpoon", "tilde", "undergroup", "underleftarrow", "underleftrightarrow", "underrightarrow", "underline", "vec", "widehat"];
pub static BIG: &[&str] = &["Big", "Bigg", "Biggl", "Biggm", "Biggr", "Bigl", "Bigm", "Bigr", "big", "bigg", "biggl", "biggm", "biggr", "bigl", "bigm", "bigr"];
pub static BINARY_OP: &[&str] = &["Cap", "Cup", "barwedge", "boxminus", "boxplus", "cap", "cup", "curlyvee", "curlywedge", "div", "dotplus", "doublebarwedge", "doublecap", "doublecup", "fcmp", "land", "lor", "mp", "ominus", "oplus", "oslash", "plusmn", "pm", "setminus", "sqcap", "sqcup", "uplus", "vee", "veebar", "wedge"];
pub static BINOM: &[&str] = &["binom", "dbinom", "tbinom"];
pub static CLOSE: &[&str] = &["rAngle", "rBrace", "rVert", "rang", "rangle", "rbrace", "rbrack", "rceil", "rfloor", "rgroup", "rparen", "rrangle", "rrbracket", "rrparenthesis", "rvert"];
pub static COLOR: &[&str] = &["color"];
pub static CRAMPED: &[&str] = &["cramped"];
pub static CUSTOM0: &[&str] = &["And", "Coloneq", "Coloneqq", "Colonapprox", "Colondash", "Colonsim", "Dashcolon", "Eqcolon", "Eqqcolon", "Simcolon", "angln", "approxcolon", "approxcoloncolon", "bmod", "cdots", "colonapprox", "coloncolon", "coloncolonapprox", "coloncolonequals", "coloncolonminus", "coloncolonsim", "colondash", "coloneq", "colonequals", "coloneqq", "colonminus", "colonsim", "dashcolon", "dblcolon", "eqcolon", "eqqcolon", "equalscolon", "equalscoloncolon", "idotsint", "iff", "impliedby", "implies", "mathstrut", "minuscolon", "minuscoloncolon", "mod", "ngeqq", "ngeqslant", "nleqq", "nleqslant", "nsubseteqq", "nsupseteqq", "simcolon", "simcoloncolon", "surd"];
pub static CUSTOM1: &[&str] = &["Bra", "Braket", "Ket", "Set", "bra", "braket", "fbox", "ket", "pmod", "pod", "set"];
pub static CUSTOM2: &[&str] = &["textcolor"];
pub static CUSTOM_SPACE: &[&str] = &["hspace", "mspace"];
pub static DEF: &[&str] = &["def", "gdef"];
pub static ENCLOSE: &[&str] = &["angl", "bcancel", "boxed", "cancel", "phase", "xcancel"];
pub static EQ_REF: &[&str] = &["eqref"];
pub static FORCE_BINARY_OP: &[&str] = &["Dagger", "amalg", "ast", "bigtriangledown", "bigtriangleup", "boxdot", "boxtimes", "bull", "bullet", "cdot", "circ", "circledast", "circledcirc", "circleddash", "dagger", "ddagger", "diamond", "divideontimes", "intercal", "leftthreetimes", "ltimes", "minuso", "odot", "otimes", "rightthreetimes", "rtimes", "star", "times", "triangleleft", "triangleright", "wr"];
pub static FORCE_CLOSE: &[&str] = &["lrcorner", "rmoustache", "urcorner"];
pub static FORCE_OPEN: &[&str] = &["llcorner", "lmoustache", "ulcorner"];
pub static FORCE_ORD: &[&str] = &["diagdown", "diagup"];
pub static FORCE_PUNCTUATION: &[&str] = &["cdotp", "ldotp"];
pub static FORCE_RELATION: &[&str] = &["because", "blacktriangleleft", "blacktriangleright", "frown", "ratio", "smile", "therefore", "vartriangle", "vcentcolon"];
pub static FRAC: &[&str] = &["cfrac", "dfrac", "frac", "tfrac"];
pub static FUNC: &[&str] = &["arccos", "arcctg", "arcsin", "arctan", "arctg", "arg", "ch", "cos", "cosec", "cosh", "cot", "cotg", "coth", "csc", "ctg", "cth", "deg", "det", "dim", "erf", "erfc", "exp", "hom", "ker", "lg", "ln", "log", "sec", "sh", "sin", "sinh", "tan", "tanh", "tg", "th"];
pub static GENFRAC: &[&str] = &["genfrac"];
pub static GLOBAL: &[&str] = &["global"];
pub static GROUP_BEGIN: &[&str] = &["begingroup"];
pub static GROUP_END: &[&str] = &["endgroup"];
pub static H_LINE: &[&str] = &["hdashline", "hline"];
pub static INFIX_GEN_FRAC: &[&str] = &["atop", "brace", "brack", "choose", "over"];
pub static KERN_OR_SKIP: &[&str] = &["hskip", "kern", "mkern", "mskip"];
pub static LABEL: &[&str] = &["label"];
pub static LEFT: &[&str] = &["left"];
pub static LET: &[&str] = &["let"];
pub static LETTER: &[&str] = &["Alpha", "Bbbk", "Beta", "Box", "Chi", "Complex", "Delta", "Diamond", "Epsilon", "Eta", "Finv", "Game", "Gamma", "Im", "Iota", "Kappa", "Lambda", "Mu", "N", "Nu", "Omega", "Omicron", "Phi", "Pi", "Psi", "R", "Re", "Reals", "Rho", "Sigma", "Tau", "Theta", "Upsilon", "Xi", "Z", "Zeta", "alef", "alefsym", "aleph", "alpha", "angle", "ascnode", "backepsilon", "beta", "beth", "bigcirc", "bigstar", "blacklozenge", "blacksquare", "blacktriangle", "blacktriangledown", "bot", "chi", "circledS", "clubs", "clubsuit", "cnums", "colon", "complement", "copyright", "daleth", "delta", "diamonds", "diamondsuit", "digamma", "ell", "empty", "emptyset", "epsilon", "eta", "eth", "flat", "gamma", "gimel", "hbar", "hearts", "heartsuit", "hslash", "image", "imath", "infin", "infty", "iota", "jmath", "kappa", "lambda", "lozenge", "mathsterling", "measuredangle", "mho", "mu", "nabla", "natnums", "natural", "nu", "omega", "omicron", "partial", "phi", "pi", "pounds", "psi", "real", "reals", "rho", "rupee", "sharp", "sigma", "spades", "spadesuit", "sphericalangle", "square", "tau", "theta", "thetasym", "top", "triangle", "triangledown", "upsilon", "varDelta", "varGamma", "varLambda", "varOmega", "varPhi", "varPi", "varPsi", "varSigma", "varTheta", "varUpsilon", "varXi", "varepsilon", "varkappa", "varnothing", "varphi", "varpi", "varrho", "varsigma", "vartheta", "weierp", "wp", "xi", "zeta"];
pub static LETTER_TEXT: &[&str] = &["#", "$", "%", "P", "S", "_", "checkmark", "circledR", "dag", "ddag", "degree", "lq", "maltese", "rq", "sect", "yen"];
pub static LIMITS: &[&str] = &["displaylimits", "limits", "nolimits"];
pub static MATH_CHOICE: &[&str] = &["mathchoice"];
pub static MATH_CLASS: &[&str] = &["mathbin", "mathclose", "mathinner", "mathop", "mathopen", "mathord", "mathpunct", "mathrel"];
pub static MIDDLE: &[&str] = &["middle"];
pub static NEW_COMMAND: &[&str] = &["newcommand", "providecommand", "renewcommand"];
pub static NEW_LINE: &[&str] = &["\\", "newline"];
pub static NO_NUMBER: &[&str] = &["nonumber", "notag"];
pub static NON_BREAKING_SPACE: &[&str] = &["nobreakspace", "space"];
pub static OP: &[&str] = &["awint", "bigcap", "bigcup", "bigcupdot", "bigdoublevee", "bigdoublewedge", "bigodot", "bigoplus", "bigotimes", "bigsqcap", "bigsqcup", "bigtimes", "biguplus", "bigvee", "bigwedge", "cirfnint", "coprod", "fint", "iiiint", "iiint", "iint", "int", "intBar", "intbar", "intclockwise", "oiiint", "oiint", "oint", "ointctrclockwise", "prod", "sum", "sumint", "varointclockwise"];
pub static OPEN: &[&str] = &["lAngle", "lBrace", "lVert", "lang", "langle", "lbrace", "lbrack", "lceil", "lfloor", "lgroup", "llangle", "llbracket", "llparenthesis", "lparen", "lvert"];
pub static OPERATOR_NAME: &[&str] = &["operatorname", "operatorname*", "operatornamewithlimits"];
pub static ORD: &[&str] = &["Vert", "backprime", "backslash", "exist", "exists", "forall", "lnot", "neg", "nexists", "prime", "vert", "|"];
pub static OVER_UNDER_BRACE: &[&str] = &["overbrace", "overbracket", "overparen", "underbrace", "underbracket", "underparen"];
pub static OVERLAY: &[&str] = &["not", "slashed", "vertoverlay"];
pub static OVERSET: &[&str] = &["overset", "stackrel"];
pub static PHANTOM: &[&str] = &["hphantom", "phantom", "vphantom"];
pub static PRESCRIPT: &[&str] = &["prescript"];
pub static PSEUDO_OPERATOR_LIMITS: &[&str] = &["Pr", "argmax", "argmin", "gcd", "inf", "injlim", "lim", "liminf", "limsup", "max", "min", "plim", "projlim", "sup"];
pub static RAISE_BOX: &[&str] = &["raisebox"];
pub static RELATION: &[&str] = &["Bumpeq", "Darr", "Doteq", "Downarrow", "Harr", "Join", "Larr", "Leftarrow", "Leftrightarrow", "Lleftarrow", "Longleftarrow", "Longleftrightarrow", "Longrightarrow", "Lrarr", "Lsh", "Rarr", "Rightarrow", "Rrightarrow", "Rsh", "Subset", "Supset", "Uarr", "Uparrow", "Updownarrow", "VDash", "Vdash", "Vvdash", "Yleft", "Yright", "approx", "approxeq", "arceq", "asymp", "backsim", "backsimeq", "between", "botdoteq", "bowtie", "bumpeq", "circeq", "circlearrowleft", "circlearrowright", "cong", "curlyeqprec", "curlyeqsucc", "curvearrowleft", "curvearrowright", "dArr", "darr", "dashleftarrow", "dashrightarrow", "dashv", "ddots", "doteq", "doteqdot", "dotsminusdots", "downarrow", "downdownarrows", "downharpoonleft", "downharpoonright", "eqcirc", "eqdef", "eqsim", "eqslantgtr", "eqslantless", "equiv", "fallingdotseq", "ge", "geq", "geqq", "geqslant", "gets", "gg", "ggg", "gggtr", "gnapprox", "gneq", "gneqq", "gnsim", "gt", "gtrapprox", "gtreqless", "gtreqqless", "gtrdot", "gtrless", "gtrsim", "gvertneqq", "hArr", "harr", "hookleftarrow", "hookrightarrow", "iddots", "imageof", "in", "isin", "kernelcontraction", "lArr", "larr", "le", "leadsto", "leftarrow", "leftarrowtail", "leftharpoondown", "leftharpoonup", "leftleftarrows", "leftrightarrow", "leftrightarrows", "leftrightharpoons", "leftrightsquigarrow", "leq", "leqq", "leqslant", "lessapprox", "lessdot", "lesseqgtr", "lesseqqgtr", "lessgtr", "lesssim", "lhd", "lightning", "ll", "lll", "llless", "lnapprox", "lneq", "lneqq", "lnsim", "longleftarrow", "longleftrightarrow", "longmapsto", "longrightarrow", "looparrowleft", "looparrowright", "lrArr", "lrarr", "lt", "lvertneqq", "mapsto", "measeq", "mid", "models", "multimap", "nLeftarrow", "nLeftrightarrow", "nRightarrow", "nVDash", "nVdash", "ncong", "ne", "nearrow", "neq", "nequiv", "ngeq", "ngtr", "ngtrless", "ngtrsim", "ni", "nleftarrow", "nleftrightarrow", "nleq", "nless", "nlessgt", "nlesssim", "nmid", "notin", "notni", "nparallel", "nprec", "npreceq", "nrightarrow", "nsim", "nsubset", "nsubseteq", "nsucc", "nsucceq", "nsupset", "nsupseteq", "ntriangleleft", "ntrianglelefteq", "ntriangleright", "ntrianglerighteq", "nvDash", "nvdash", "nwarrow", "origof", "owns", "parallel", "perp", "pitchfork", "prec", "precapprox", "preccurlyeq", "preceq", "precnapprox", "precneqq", "precnsim", "precsim", "propto", "questeq", "rArr", "rarr", "restriction", "rhd", "rightarrow", "rightarrowtail", "rightharpoondown", "rightharpoonup", "rightleftarrows", "rightleftharpoons", "rightrightarrows", "rightsquigarrow", "risingdotseq", "searrow", "sim", "simeq", "sqsubset", "sqsubseteq", "sqsupset", "sqsupseteq", "stareq", "sub", "sube", "subset", "subseteq", "subseteqq", "subsetneq", "subsetneqq", "succ", "succapprox", "succcurlyeq", "succeq", "succnapprox", "succneqq", "succnsim", "succsim", "supe", "supset", "supseteq", "supseteqq", "supsetneq", "supsetneqq", "swarrow", "to", "trianglelefteq", "triangleq", "trianglerighteq", "twoheadleftarrow", "twoheadrightarrow", "uArr", "uarr", "unlhd", "unrhd", "uparrow", "updownarrow", "upharpoonleft", "upharpoonright", "upuparrows", "vDash", "varsubsetneq", "varsubsetneqq", "varsupsetneq", "varsupsetneqq", "vartriangleleft", "vartriangleright", "vdash", "vdots", "veeeq", "wedgeq"];
pub static RELAX: &[&str] = &["relax"];
pub static RIGHT: &[&str] = &["right"];
pub static SIDESET: &[&str] = &["sideset"];
pub static SPACE: &[&str] = &["!", "negmedspace", "negthickspace", "negthinspace", "qquad"];
pub static SQRT: &[&str] = &["sqrt"];
pub static STYLE: &[&str] = &["displaystyle", "scriptscriptstyle", "scriptstyle", "textstyle"];
pub static SYM_TEXT: &[&str] = &[" ", "&", ",", ":", ";", ">", "dots", "enspace", "ldots", "medspace", "quad", "thickspace", "thinspace", "{", "}"];
pub static TAG: &[&str] = &["tag", "tag*"];
pub static TEXT: &[&str] = &["emph", "text", "textbf", "textit", "textrm", "textsc", "textsf", "texttt", "underbar"];
pub static TEXT_ACCENT: &[&str] = &["'", ".", "=", "H", "\"", "^", "`", "c", "r", "u", "v", "~"];
pub static TEXT_LETTER: &[&str] = &["AA", "AE", "L", "O", "OE", "aa", "ae", "i", "j", "l", "o", "oe", "ss", "textasciicircum", "textasciitilde", "textbackslash", "textbar", "textbardbl", "textbraceleft", "textbraceright", "textdagger", "textdaggerdbl", "textdegree", "textdollar", "textellipsis", "textemdash", "textendash", "textgreater", "textless", "textquotedblleft", "textquotedblright", "textquoteleft", "textquoteright", "textregistered", "textsterling", "textunderscore", "textyen"];
pub static TEXT_SIZE: &[&str] = &["Huge", "LARGE", "Large", "footnotesize", "huge", "large", "normalsize", "scriptsize", "sixptsize", "small", "tiny"];
pub static TEXT_STYLE: &[&str] = &["sout"];
pub static TRANSFORM: &[&str] = &["Bbb", "bm", "bold", "boldsymbol", "frak", "mathbb", "mathbf", "mathcal", "mathfrak", "mathit", "mathrm", "mathscr", "mathsf", "mathtt", "symbf"];
pub static TRANSFORM_SWITCH: &[&str] = &["bf", "cal", "it", "rm", "sf", "tt"];
pub static UNDERSET: &[&str] = &["underset"];
pub static X_ARROW: &[&str] = &["xLeftarrow", "xLeftrightarrow", "xRightarrow", "xhookleftarrow", "xhookrightarrow", "xleftarrow", "xleftharpoondown", "xleftharpoonup", "xleftrightarrow", "xleftrightharpoons", "xlongequal", "xmapsto", "xrightarrow", "xrightharpoondown", "xrightharpoonup", "xrightleftharpoons", "xtofrom", "xtwoheadleftarrow", "xtwoheadrightarrow"];
pub static UNICODE_OPS: &[&str] = &["⌈", "⌊", "⌜", "⌞", "⎰", "❲", "⟅", "⟦", "⟨", "⟪", "⟬", "⟮", "⦃", "⦅", "⦇", "⦉", "⦋", "⦍", "⦏", "⦑", "⦓", "⦕", "⦗", "⧘", "⧚", "⧼", "⌉", "⌋", "⌝", "⌟", "⎱", "❳", "⟆", "⟧", "⟩", "⟫", "⟭", "⟯", "⦄", "⦆", "⦈", "⦊", "⦌", "⦎", "⦐", "⦒", "⦔", "⦖", "⦘", "⧙", "⧛", "⧽", "|", "‖", "⦀", "⅀", "∏", "∐", "∑", "∫", "∬", "∭", "∮", "∯", "∰", "∱", "∲", "∳", "⋀", "⋁", "⋂", "⋃", "⟕", "⟖", "⟗", "⟘", "⟙", "⧸", "⧹", "⨀", "⨁", "⨂", "⨃", "⨄", "⨅", "⨆", "⨇", "⨈", "⨉", "⨊", "⨋", "⨌", "⨍", "⨎", "⨏", "⨐", "⨑", "⨒", "⨓", "⨔", "⨕", "⨖", "⨗", "⨘", "⨙", "⨚", "⨛", "⨜", "⨝", "⨞", "⫼", "⫿", "±", "·", "×", "÷", "†", "‡", "•", "⁀", "⁄", "⅋", "−", "∓", "∔", "∕", "∖", "∗", "∘", "∙", "∧", "∨", "∩", "∪", "∸", "∾", "≀", "⊌", "⊍", "⊎", "⊓", "⊔", "⊕", "⊖", "⊗", "⊘", "⊙", "⊚", "⊛", "⊜", "⊝", "⊞", "⊟", "⊠", "⊡", "⊺", "⊻", "⊼", "⊽", "⋄", "⋅", "⋆", "⋇", "⋉", "⋊", "⋋", "⋌", "⋎", "⋏", "⋒", "⋓", "△", "▷", "◁", "○", "◫", "⟇", "⟑", "⦵", "⦶", "⦷", "⦸", "⦹", "⧀", "⧁", "⧄", "⧅", "⧆", "⧇", "⧈", "⧢", "⧵", "⧶", "⧷", "⧺", "⧻", "⨢", "⨣", "⨤", "⨥", "⨦", "⨧", "⨨", "⨩", "⨪", "⨫", "⨬", "⨭", "⨮", "⨯", "⨰", "⨱", "⨲", "⨳", "⨴", "⨵", "⨶", "⨷", "⨸", "⨹", "⨺", "⨻", "⨼", "⨽", "⨾", "⨿", "⩀", "⩁", "⩂", "⩃", "⩄", "⩅", "⩆", "⩇", "⩈", "⩉", "⩊", "⩋", "⩌", "⩍", "⩎", "⩏", "⩐", "⩑", "⩒", "⩓", "⩔", "⩕", "⩖", "⩗", "⩘", "⩙", "⩚", "⩛", "⩜", "⩝", "⩞", "⩟", "⩠", "⩢", "⩣", "⩤", "⩥", "⫶", "⫽", "⫾", "¬", "′", "″", "‴", "‵", "‶", "‷", "⁗", "∀", "∁", "∃", "∄", "←", "↑", "→", "↓", "↔", "↕", "↖", "↗", "↘", "↙", "↚", "↛", "↜", "↝", "↞", "↟", "↠", "↡", "↢", "↣", "↤", "↥", "↦", "↧", "↩", "↪", "↫", "↬", "↭", "↮", "↯", "↰", "↱", "↲", "↳", "↶", "↷", "↼", "↽", "↾", "↿", "⇀", "⇁", "⇂", "⇃", "⇄", "⇅", "⇆", "⇇", "⇈", "⇉", "⇊", "⇋", "⇌", "⇍", "⇎", "⇏", "⇐", "⇑", "⇒", "⇓", "⇔", "⇕", "⇖", "⇗", "⇘", "⇙", "⇚", "⇛", "⇜", "⇝", "⇤", "⇥", "⇴", "⇵", "⇶", "⇷", "⇸", "⇹", "⇺", "⇻", "⇼", "⇽", "⇾", "⇿", "∈", "∉", "∊", "∋", "∌", "∍", "∝", "∣", "∤", "∥", "∦", "∶", "∷", "∹", "∺", "∻", "∼", "∽", "≁", "≂", "≃", "≄", "≅", "≆", "≇", "≈", "≉", "≊", "≋", "≌", "≍", "≎", "≏", "≐", "≑", "≒", "≓", "≔", "≕", "≖", "≗", "≘", "≙", "≚", "≛", "≜", "≝", "≞", "≟", "≠", "≡", "≢", "≣", "≤", "≥", "≦", "≧", "≨", "≩", "≪", "≫", "≬", "≭", "≮", "≯", "≰", "≱", "≲", "≳", "≴", "≵", "≶", "≷", "≸", "≹", "≺", "≻", "≼", "≽", "≾", "≿", "⊀", "⊁", "⊂", "⊃", "⊄", "⊅", "⊆", "⊇", "⊈", "⊉", "⊊", "⊋", "⊏", "⊐", "⊑", "⊒", "⊢", "⊣", "⊦", "⊧", "⊨", "⊩", "⊪", "⊫", "⊬", "⊭", "⊮", "⊯", "⊰", "⊱", "⊲", "⊳", "⊴", "⊵", "⊶", "⊷", "⊸", "⋈", "⋍", "⋐", "⋑", "⋔", "⋕", "⋖", "⋗", "⋘", "⋙", "⋚", "⋛", "⋜", "⋝", "⋞", "⋟", "⋠", "⋡", "⋢", "⋣", "⋤", "⋥", "⋦", "⋧", "⋨", "⋩", "⋪", "⋫", "⋬", "⋭", "⋮", "⋰", "⋱", "⋲", "⋳", "⋴", "⋵", "⋶", "⋷", "⋸", "⋹", "⋺", "⋻", "⋼", "⋽", "⋾", "⋿", "⌢", "⌣", "⟂", "⟈", "⟉", "⟒", "⟚", "⟛", "⟜", "⟝", "⟞", "⟟", "⟰", "⟱", "⟲", "⟳", "⟴", "⟵", "⟶", "⟷", "⟸", "⟹", "⟺", "⟻", "⟼", "⟽", "⟾", "⟿", "⤀", "⤁", "⤂", "⤃", "⤄", "⤅", "⤆", "⤇", "⤈", "⤉", "⤊", "⤋", "⤌", "⤍", "⤎", "⤏", "⤐", "⤑", "⤒", "⤓", "⤔", "⤕", "⤖", "⤗", "⤘", "⤛", "⤜", "⤝", "⤞", "⤟", "⤠", "⤡", "⤢", "⤣", "⤤", "⤥", "⤦", "⤧", "⤨", "⤩", "⤪", "⤫", "⤬", "⤭", "⤮", "⤯", "⤰", "⤱", "⤲", "⤳", "⤴", "⤵", "⤶", "⤷", "⤸", "⤹", "⤺", "⤻", "⤼", "⤽", "⤾", "⤿", "⥀", "⥁", "⥂", "⥃", "⥄", "⥅", "⥆", "⥇", "⥈", "⥉", "⥊", "⥋", "⥌", "⥍", "⥎", "⥏", "⥐", "⥑", "⥒", "⥓", "⥔", "⥕", "⥖", "⥗", "⥘", "⥙", "⥚", "⥛", "⥜", "⥝", "⥞", "⥟", "⥠", "⥡", "⥢", "⥣", "⥤", "⥥", "⥦", "⥧", "⥨", "⥩", "⥪", "⥫", "⥬", "⥭", "⥮", "⥯", "⥰", "⥱", "⥲", "⥳", "⥴", "⥵", "⥶", "⥷", "⥸", "⥹", "⥺", "⥻", "⥼", "⥽", "⥾", "⥿", "⦂", "⧎", "⧏", "⧐", "⧑", "⧒", "⧓", "⧔", "⧕", "⧟", "⧠", "⧡", "⧣", "⧤", "⧥", "⧦", "⧴", "⩦", "⩧", "⩨", "⩩", "⩪", "⩫", "⩬", "⩭", "⩮", "⩯", "⩰", "⩱", "⩲", "⩳", "⩴", "⩵", "⩶", "⩷", "⩸", "⩹", "⩺", "⩻", "⩼", "⩽", "⩾", "⩿", "⪀", "⪁", "⪂", "⪃", "⪄", "⪅", "⪆", "⪇", "⪈", "⪉", "⪊", "⪋", "⪌", "⪍", "⪎", "⪏", "⪐", "⪑", "⪒", "⪓", "⪔", "⪕", "⪖", "⪗", "⪘", "⪙", "⪚", "⪛", "⪜", "⪝", "⪞", "⪟", "⪠", "⪡", "⪢", "⪣", "⪤", "⪥", "⪦", "⪧", "⪨", "⪩", "⪪", "⪫", "⪬", "⪭", "⪮", "⪯", "⪰", "⪱", "⪲", "⪳", "⪴", "⪵", "⪶", "⪷", "⪸", "⪹", "⪺", "⪻", "⪼", "⪽", "⪾", "⪿", "⫀", "⫁", "⫂", "⫃", "⫄", "⫅", "⫆", "⫇", "⫈", "⫉", "⫊", "⫋", "⫌", "⫍", "⫎", "⫏", "⫐", "⫑", "⫒", "⫓", "⫔", "⫕", "⫖", "⫗", "⫘", "⫞", "⫟", "⫠", "⫡", "⫢", "⫣", "⫤", "⫥", "⫦", "⫧", "⫨", "⫩", "⫪", "⫫", "⫮", "⫲", "⫳", "⫷", "⫸", "⫹", "⫺", "⬰", "⬱", "⬲", "⬳", "⬴", "⬵", "⬶", "⬷", "⬸", "⬹", "⬺", "⬻", "⬼", "⬽", "⬾", "⬿", "⭀", "⭁", "⭂", "⭃", "⭄", "⭅", "⭆", "⭇", "⭈", "⭉", "⭊", "⭋", "⭌"];
