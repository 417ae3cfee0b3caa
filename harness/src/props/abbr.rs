//! C32 (abbreviations and options mean what they stand for).

use super::*;
use crate::engine::{Rec, Src};

/// Same output, whatever stands around it. `@` is an argument.
const EXACT: &[(&str, &str)] = &[
    ("\\iff ", "\\;\\Longleftrightarrow\\;"),
    ("\\implies ", "\\;\\Longrightarrow\\;"),
    ("\\impliedby ", "\\;\\Longleftarrow\\;"),
    ("\\bmod ", "\\mskip4mu\\mathrm{mod}\\mskip4mu "),
    ("\\mod ", "\\mathchoice{\\mkern18mu}{\\mkern12mu}{\\mkern12mu}{\\mkern12mu}\\mathrm{mod}\\mkern6mu "),
    ("y\\pod{@}", "y\\mathchoice{\\mkern18mu}{\\mkern8mu}{\\mkern8mu}{\\mkern8mu}(@)"),
    ("y\\pmod{@}", "y\\mathchoice{\\mkern18mu}{\\mkern8mu}{\\mkern8mu}{\\mkern8mu}(\\mathrm{mod}\\mkern6mu @)"),
    ("\\bra{@}", "\\langle @\\rvert "),
    ("\\ket{@}", "\\lvert @\\rangle "),
    ("\\braket{@}", "\\langle @\\rangle "),
    ("\\Bra{@}", "\\left\\langle @\\right|"),
    ("\\Ket{@}", "\\left|@\\right\\rangle "),
    ("\\Braket{-y,=\\alpha }", "\\left\\langle -y,=\\alpha \\right\\rangle "),
    ("\\set{-y,=\\alpha }", "\\lbrace\\,-y,=\\alpha \\,\\rbrace "),
    ("\\Set{-y,=\\alpha }", "\\left\\{\\:-y,=\\alpha \\:\\right\\}"),
    ("\\fbox{yz}", "\\boxed{\\text{yz}}"),
    ("\\textcolor{red}{@}", "{\\color{red}@}"),
    ("\\mathstrut ", "\\vphantom{(}"),
    ("\\angln ", "\\angl n"),
    ("\\colonequals ", "\\vcentcolon="),
    ("\\coloncolonequals ", "\\vcentcolon\\vcentcolon="),
    ("\\equalscolon ", "=\\vcentcolon "),
    ("\\equalscoloncolon ", "=\\vcentcolon\\vcentcolon "),
    ("\\coloncolon ", "\\vcentcolon\\vcentcolon "),
    ("\\ngeqq ", "\\not\\geqq "),
    ("\\ngeqslant ", "\\not\\geqslant "),
    ("\\nleqq ", "\\not\\leqq "),
    ("\\nleqslant ", "\\not\\leqslant "),
    ("\\nsubseteqq ", "\\not\\subseteqq "),
    ("\\nsupseteqq ", "\\not\\supseteqq "),
    ("\\Simcolon ", "\\sim\\vcentcolon\\vcentcolon "),
    ("\\operatornamewithlimits{ab}", "\\operatorname*{ab}"),
    ("\\sum\\displaylimits ", "\\sum "),
    ("\\ratio ", "\\vcentcolon "),
    ("\\colonapprox ", "\\vcentcolon\\approx "),
    ("\\coloncolonapprox ", "\\vcentcolon\\vcentcolon\\approx "),
    ("\\Colonapprox ", "\\vcentcolon\\vcentcolon\\approx "),
    ("\\approxcolon ", "\\approx\\vcentcolon "),
    ("\\approxcoloncolon ", "\\approx\\vcentcolon\\vcentcolon "),
    ("\\colonsim ", "\\vcentcolon\\sim "),
    ("\\coloncolonsim ", "\\vcentcolon\\vcentcolon\\sim "),
    ("\\Colonsim ", "\\vcentcolon\\vcentcolon\\sim "),
    ("\\simcolon ", "\\sim\\vcentcolon "),
    ("\\simcoloncolon ", "\\sim\\vcentcolon\\vcentcolon "),
    ("y\\,", "y\\mskip3mu "),
    ("y\\:", "y\\mskip4mu "),
    ("y\\>", "y\\mskip4mu "),
    ("y\\;", "y\\mskip5mu "),
    ("y\\!", "y\\mskip-3mu "),
    ("y\\thinspace ", "y\\mskip3mu "),
    ("y\\medspace ", "y\\mskip4mu "),
    ("y\\thickspace ", "y\\mskip5mu "),
    ("y\\negthinspace ", "y\\mskip-3mu "),
    ("y\\negmedspace ", "y\\mskip-4mu "),
    ("y\\negthickspace ", "y\\mskip-5mu "),
    ("y\\quad ", "y\\hskip1em "),
    ("y\\qquad ", "y\\hskip2em "),
    ("y\\enspace ", "y\\hskip0.5em "),
    ("\\hspace{3pt}", "\\hskip3pt "),
    ("\\hspace{3pt}", "\\kern3pt "),
    ("\\mspace{7mu}", "\\mskip7mu "),
    ("\\mspace{7mu}", "\\mkern7mu "),
    ("\\space ", "\\ "),
    ("\\nobreakspace ", "~"),
    ("\\notin ", "\\not\\in "),
    ("\\ne ", "\\not="),
    ("\\neq ", "\\ne "),
    ("\\le ", "\\leq "),
    ("\\ge ", "\\geq "),
    ("\\to ", "\\rightarrow "),
    ("\\gets ", "\\leftarrow "),
    ("\\lnot ", "\\neg "),
    ("\\land ", "\\wedge "),
    ("\\lor ", "\\vee "),
    ("\\owns ", "\\ni "),
    ("\\lbrace ", "\\{"),
    ("\\rbrace ", "\\}"),
    ("\\lbrack ", "["),
    ("\\rbrack ", "]"),
    ("\\vert ", "|"),
    ("\\Vert ", "\\|"),
    ("\\lt ", "<"),
    ("\\gt ", ">"),
    ("\\dots,", "\\ldots,"),
    ("\\binom{@}{@}", "\\genfrac{(}{)}{0pt}{}{@}{@}"),
    ("\\begin{pmatrix}@&@\\\\@\\end{pmatrix}", "\\left(\\begin{matrix}@&@\\\\@\\end{matrix}\\right)"),
    ("\\begin{bmatrix}@&@\\\\@\\end{bmatrix}", "\\left[\\begin{matrix}@&@\\\\@\\end{matrix}\\right]"),
    ("\\begin{Bmatrix}@&@\\\\@\\end{Bmatrix}", "\\left\\{\\begin{matrix}@&@\\\\@\\end{matrix}\\right\\}"),
    ("\\begin{vmatrix}@&@\\\\@\\end{vmatrix}", "\\left|\\begin{matrix}@&@\\\\@\\end{matrix}\\right|"),
    ("\\begin{Vmatrix}@&@\\\\@\\end{Vmatrix}", "\\left\\|\\begin{matrix}@&@\\\\@\\end{matrix}\\right\\|"),
    ("\\begingroup @\\endgroup ", "{@}"),
    ("{{@}}", "{@}"),
    ("\\bold{@}", "\\mathbf{@}"),
    ("\\Bbb{@}", "\\mathbb{@}"),
    ("\\frak{@}", "\\mathfrak{@}"),
    ("\\bm{@}", "\\boldsymbol{@}"),
    ("\\mathbf{y@}", "{\\bf y@}"),
    ("\\mathrm{y@}", "{\\rm y@}"),
    ("\\mathit{y@}", "{\\it y@}"),
    ("\\mathsf{y@}", "{\\sf y@}"),
    ("\\mathtt{y@}", "{\\tt y@}"),
    ("\\underbrace{@}_{@}", "\\underset{@2}{\\underbrace{@1}}"),
    ("\\overbrace{@}^{@}", "\\overset{@2}{\\overbrace{@1}}"),
    ("\\sum\\limits_{@}^{@}", "\\sum\\limits^{@2}_{@1}"),
    ("x_{@}^{@}", "x^{@2}_{@1}"),
    ("\\sqrt{y}", "\\sqrt y"),
    ("y'", "y^\\prime "),
    ("y'_{@}", "y_{@}'"),
    ("\\lim_{@}", "\\operatorname*{lim}_{@}"),
    ("\\lim\\nolimits_{@}", "\\operatorname*{lim}\\nolimits_{@}"),
    ("\\max\\limits_{@}^{@}", "\\operatorname*{max}\\limits_{@}^{@}"),
    ("\\sin^{@}", "\\operatorname{sin}^{@}"),
    ("\\log_{@}", "\\operatorname{log}_{@}"),
    ("\\bigl(@\\bigr)", "\\bigl(@\\bigr)"),
    ("\\left(@\\right)", "\\left\\lparen @\\right\\rparen "),
    ("\\overline{@}", "\\overline{{@}}"),
    ("y'", "y^{\\prime}"),
];

/// The same symbols, though not with the same attributes.
const LEAVES: &[(&str, &str)] = &[
    ("\\And ", "\\mathrel{\\&}"),
    ("\\colonminus ", "\\vcentcolon-"),
    ("\\coloncolonminus ", "\\vcentcolon\\vcentcolon-"),
    ("\\colondash ", "\\vcentcolon-"),
    ("\\Colondash ", "\\vcentcolon\\vcentcolon-"),
    ("\\Dashcolon ", "-\\vcentcolon\\vcentcolon "),
    ("\\Eqcolon ", "=\\vcentcolon\\vcentcolon "),
    ("\\Eqqcolon ", "=\\vcentcolon\\vcentcolon "),
    ("\\minuscolon ", "-\\vcentcolon "),
    ("\\minuscoloncolon ", "-\\vcentcolon\\vcentcolon "),
    ("\\idotsint ", "\\int\\cdotp\\cdotp\\cdotp\\int "),
    ("\\dfrac{@}{@}", "\\frac{@}{@}"),
    ("\\tfrac{@}{@}", "\\frac{@}{@}"),
    ("\\cfrac{@}{@}", "\\frac{@}{@}"),
    ("\\dbinom{@}{@}", "\\binom{@}{@}"),
    ("\\tbinom{@}{@}", "\\binom{@}{@}"),
    ("{@\\brack @}", "\\genfrac{[}{]}{0pt}{}{@}{@}"),
    ("{@\\brace @}", "\\genfrac{\\{}{\\}}{0pt}{}{@}{@}"),
    ("{@\\atop @}", "\\genfrac{}{}{0pt}{}{@}{@}"),
    ("\\Braket{@}", "\\left\\langle @\\right\\rangle "),
    ("\\set{@}", "\\lbrace\\,@\\,\\rbrace "),
    ("\\Set{@}", "\\left\\{\\:@\\:\\right\\}"),
    ("\\frac{@}{@}", "\\genfrac{}{}{}{}{@}{@}"),
    ("\\sqrt{@}", "\\sqrt[]{@}"),
    ("\\frac{y@}{y@}", "{y@\\over y@}"),
    ("\\binom{y@}{y@}", "{y@\\choose y@}"),
    ("\\stackrel{@}{@}", "\\overset{@}{@}"),
    ("\\prescript{@}{@}{w}", "w_{@2}^{@1}"),
    ("\\set{y|z}", "\\{y|z\\}"),
    ("\\Set{y|z}", "\\{y|z\\}"),
    ("\\Braket{y|z|w}", "\\langle y|z|w\\rangle "),
    ("\\bigl(@\\bigr)", "(@)"),
    ("\\xcancel{@}", "\\cancel{\\bcancel{@}}"),
    ("\\boxed{y@y}", "y@y"),
    ("\\begin{cases}@&@\\end{cases}", "\\left\\{\\begin{array}{ll}@&@\\end{array}\\right."),
    ("\\begin{rcases}@&@\\end{rcases}", "\\left.\\begin{array}{ll}@&@\\end{array}\\right\\}"),
    ("\\begin{aligned}@&@\\end{aligned}", "\\begin{array}{rl}@&@\\end{array}"),
    ("\\begin{gathered}@\\\\@\\end{gathered}", "\\begin{array}{c}@\\\\@\\end{array}"),
    ("\\mathbin{y@y}", "y@y"),
    ("\\mathord{y@y}", "y@y"),
    ("\\mathinner{y@y}", "y@y"),
];

const FUNCTIONS: &[&str] = &[
    "arccos", "arcsin", "arctan", "arg", "cos", "cosh", "cot", "coth", "csc", "deg", "dim", "exp", "hom", "ker", "lg", "ln", "log",
    "sec", "sin", "sinh", "tan", "tanh", "arctg", "ctg", "sh", "ch", "th", "tg", "cth", "cosec", "cotg", "arcctg",
];
const LIMITS: &[(&str, &str)] = &[
    ("lim", "lim"), ("limsup", "lim\\,sup"), ("liminf", "lim\\,inf"), ("max", "max"), ("min", "min"), ("sup", "sup"), ("inf", "inf"),
    ("det", "det"), ("gcd", "gcd"), ("Pr", "Pr"), ("argmax", "arg\\,max"), ("argmin", "arg\\,min"), ("injlim", "inj\\,lim"),
    ("projlim", "proj\\,lim"), ("plim", "plim"),
];

/// Commands of the option `unicode_substitution`: with it and without.
const SUBST: &[(&str, &str, &str)] = &[
    ("\\coloneqq ", "≔", "\\vcentcolon="),
    ("\\coloneq ", "≔", "\\vcentcolon="),
    ("\\Coloneqq ", "⩴", "\\vcentcolon\\vcentcolon="),
    ("\\Coloneq ", "⩴", "\\vcentcolon\\vcentcolon="),
    ("\\eqqcolon ", "≕", "=\\vcentcolon "),
    ("\\eqcolon ", "≕", "=\\vcentcolon "),
    ("\\dblcolon ", "∷", "\\vcentcolon\\vcentcolon "),
    ("\\dashcolon ", "∹", "\\minuscolon "),
    ("\\dots+", "\\dots+", "\\cdots+"),
    ("\\dots=", "\\dots=", "\\cdots="),
];
const UNRELIABLE: &[&str] = &["\\widecheck{yz}", "\\widetilde{yz}", "\\utilde{yz}"];

const ATOMS: &[&str] = &[
    "a", "x", "2", "+", "-", "=", ",", "(", ")", "\\alpha ", "\\in ", "\\times ", "\\sum ", "!", "/", "[", "]", "\\rightarrow ", "\\ldots ",
    "\\sin ", "|", ":", ";", "\\int ", "\\text{t}", "\\infty ", "\\hat{b}", "\\left(d\\right)", "\\cdot ", "<", "\\forall ",
];

struct G<'a> {
    s: &'a mut Src,
    left: i32,
    exact: bool,
    subst: bool,
    uses: u32,
    /// A command of the options was used.
    opt: [bool; 2],
    /// A bar whose own attributes differ from those of the definition's.
    bar: bool,
}

impl G<'_> {
    fn seq(&mut self, depth: u32, lo: usize, hi: usize) -> (String, String) {
        let n = self.s.long(lo, hi);
        let mut o = (String::new(), String::new());
        for _ in 0..n {
            self.left -= 1;
            let (a, b) = self.item(if self.left < 0 { 0 } else { depth });
            o.0 += &a;
            o.1 += &b;
        }
        o
    }
    fn fill(&mut self, a: &str, b: &str, depth: u32) -> (String, String) {
        let mut args = vec![];
        let mut x = String::new();
        for (i, p) in a.split('@').enumerate() {
            if i > 0 {
                let v = self.seq(depth.saturating_sub(1), 1, 3);
                x += &v.0;
                args.push(v.1);
            }
            x += p;
        }
        let mut y = String::new();
        for (i, p) in b.split('@').enumerate() {
            let mut p = p;
            if i > 0 {
                let d = p.as_bytes().first().is_some_and(u8::is_ascii_digit);
                let k = if d { p.as_bytes()[0] as usize - 49 } else { i - 1 };
                p = &p[usize::from(d)..];
                y += &args[k];
            }
            y += p;
        }
        (x, y)
    }
    fn item(&mut self, depth: u32) -> (String, String) {
        match self.s.weighted(&[8, 6, 1, 1, 1, if depth > 0 { 6 } else { 0 }, u32::from(self.exact)]) {
            0 => {
                let a = self.s.pick(ATOMS).to_string();
                (a.clone(), a)
            }
            1 => {
                self.uses += 1;
                if self.exact || self.s.flip() {
                    let (a, b) = *self.s.pick_ref(EXACT);
                    self.fill(a, b, depth)
                } else {
                    let (a, b) = *self.s.pick_ref(LEAVES);
                    self.fill(a, b, depth)
                }
            }
            2 => {
                self.uses += 1;
                if self.s.flip() {
                    let f = *self.s.pick_ref(FUNCTIONS);
                    (format!("\\{f} "), format!("\\operatorname{{{f}}}"))
                } else {
                    let (f, x) = *self.s.pick_ref(LIMITS);
                    (format!("\\{f} "), format!("\\operatorname*{{{x}}}"))
                }
            }
            3 => {
                self.uses += 1;
                self.opt[0] = true;
                let (c, x, y) = *self.s.pick_ref(SUBST);
                (c.to_string(), if self.subst { x } else { y }.to_string())
            }
            4 => {
                if self.s.flip() {
                    self.opt[0] = true;
                    ("\\cdots ".into(), "\\cdots ".into())
                } else {
                    self.opt[1] = true;
                    let c = self.s.pick(UNRELIABLE).to_string();
                    (c.clone(), c)
                }
            }
            6 => self.bars(),
            _ => {
                let c = *self.s.pick_ref(&[
                    "{@}", "\\frac{@}{@}", "x_{@}", "x^{@}_{@}", "\\sqrt{@}", "\\sqrt[{@}]{@}", "\\left[@\\right)", "\\overline{@}",
                    "\\begin{matrix}@&@\\end{matrix}", "\\begin{aligned}@&@\\\\@\\end{aligned}", "{\\scriptstyle @}", "{\\displaystyle @}", "\\mathbf{@}",
                    "{\\color{blue}@}", "\\overset{@}{=}", "\\sum_{@}", "\\underbrace{@}", "\\phantom{@}", "\\left.@\\middle|@\\right)", "{@\\over @}",
                    "\\mathrel{@}", "\\boxed{@}", "\\xrightarrow{@}",
                ]);
                self.fill(c, c, depth)
            }
        }
    }
}

impl G<'_> {
    /// What stands on both sides of a bar in a set or bracket: the bar ends one formula and begins another one.
    fn bars(&mut self) -> (String, String) {
        self.uses += 1;
        self.bar = true;
        let kind = self.s.usize(3);
        let mut parts = Vec::new();
        for _ in 0..if kind == 0 { 2 } else { self.s.range(2, 3) as usize } {
            let mut t = String::new();
            for _ in 0..self.s.long(0, 3) {
                let a = self.s.pick(ATOMS);
                t += if a == "|" { "" } else { a };
            }
            parts.push(t);
        }
        if kind == 0 {
            // Relations and signs in front of this bar keep their spaces (pinned by the snapshot set_class_lookahead).
            let (a, b) = (&parts[0], &parts[1]);
            return (format!("\\set{{{a}y|{b}}}"), format!("\\lbrace\\,{a}y\\mathopen{{|}}{b}\\,\\rbrace "));
        }
        let (a, b) = (parts.join("|"), parts.join("\\middle|"));
        if kind == 1 {
            (format!("\\Set{{{a}}}"), format!("\\left\\{{\\:{b}\\:\\right\\}}"))
        } else {
            (format!("\\Braket{{{a}}}"), format!("\\left\\langle {b}\\right\\rangle "))
        }
    }
}

/// Bars without their attributes.
fn bare_bars(m: &str) -> String {
    let mut o = String::new();
    let mut rest = m;
    while let Some(i) = rest.find("<mo") {
        let end = rest[i..].find('>').map_or(rest.len(), |e| i + e + 1);
        if rest[end..].starts_with("|</mo>") && !rest[i..].starts_with("<mov") {
            o += &rest[..i];
            o += "<mo>";
        } else {
            o += &rest[..end];
        }
        rest = &rest[end..];
    }
    o + rest
}

/// The symbols in order: letters next to each other may be put into one element.
fn leaves(m: &str) -> Result<String, Fail> {
    Ok(parse(m)?.text().chars().filter(|c| !('\u{2061}'..='\u{2064}').contains(c)).collect())
}

fn conv(f: &str, disp: MathDisplay, subst: bool, unreliable: bool, macros: Vec<(String, String)>) -> Result<String, String> {
    let c = LatexToMathML::new(MathCoreConfig {
        unicode_substitution: if subst { UnicodeSubstitution::Conventional } else { UnicodeSubstitution::Never },
        allow_unreliable_rendering: unreliable,
        macros,
        ..Default::default()
    })
    .map_err(|e| format!("{e:?}"))?;
    c.convert_with_local_state(f, disp).map(|m| m.mathml).map_err(|e| e.error_message())
}

fn run(s: &mut Src, r: &mut Rec) -> Res {
    let disp = crate::cfg::disp(s);
    let exact = s.chance(2, 3);
    let subst = s.flip();
    let unrel = s.flip();
    let left = s.range(2, 14) as i32;
    let mut g = G { s, left, exact, subst, uses: 0, opt: [false; 2], bar: false };
    let (a, b) = g.seq(3, 1, 4);
    let (uses, opt, bar) = (g.uses, g.opt, g.bar);
    r.nontrivial = uses > 0;
    r.label(if exact { "exact" } else { "symbols" });
    let how = s.weighted(&[6, 1, 1]);
    let (fa, fb, ma, mb) = match how {
        0 => (a.clone(), b.clone(), vec![], vec![]),
        1 => (format!("c\\M d"), format!("c\\M d"), vec![("M".to_string(), a.clone())], vec![("M".to_string(), b.clone())]),
        _ => (format!("\\newcommand\\M[1]{{{a}#1}}c\\M d"), format!("\\newcommand\\M[1]{{{b}#1}}c\\M d"), vec![], vec![]),
    };
    r.label(["in the formula", "in a configured macro", "in a defined macro"][how]);
    r.input = format!("{fa}   =   {fb}   {ma:?} {subst} {unrel}");
    let x = conv(&fa, disp, subst, unrel, ma.clone());
    let y = conv(&fb, disp, subst, unrel, mb);
    r.evals += 1;
    let why = || format!("{fa}\n{fb}\n{x:?}\n{y:?}");
    let (x, y) = match (&x, &y) {
        (Ok(x), Ok(y)) => (x, y),
        (Err(_), Err(_)) if opt[1] && !unrel => return Ok(()),
        _ => return fail("refused", why()),
    };
    if opt[1] && !unrel {
        return fail("an unreliable command is accepted", why());
    }
    if exact && (if bar { bare_bars(x) != bare_bars(y) } else { x != y }) {
        return fail("another output", why());
    }
    if !exact {
        let (u, v) = (leaves(x)?, leaves(y)?);
        if u != v {
            return fail("other symbols", format!("{}\n{u:?}\n{v:?}", why()));
        }
    }
    // The options change their own commands only.
    if !opt[0] {
        r.evals += 1;
        let z = conv(&fa, disp, !subst, unrel, ma.clone());
        if z.as_ref() != Ok(x) {
            return fail("the substitution changes something else", format!("{}\n{z:?}", why()));
        }
    }
    if !opt[1] {
        r.evals += 1;
        let z = conv(&fa, disp, subst, !unrel, ma);
        if z.as_ref() != Ok(x) {
            return fail("the unreliable rendering changes something else", format!("{}\n{z:?}", why()));
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C32",
        rule: "an abbreviation or a command of an option was used",
        quick: 300_000,
        thorough: 10_000_000,
        enumerate: 0,
        run,
        assumptions: &[
            "an abbreviation is compared with its definition where an ordinary atom comes before a space command, since what an operator sees through explicit spaces is approximate by design",
            "where the output has more information than the definition (\\cfrac, \\xcancel, \\stackrel, \\set with a bar, infix fractions), only the symbols are compared",
        ],
    }]
}
